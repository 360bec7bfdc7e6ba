---------------------------- MODULE MC_Decipher ----------------------------
(***************************************************************************)
(* Cipher, Decipher and AES key lifecycles under arbitrary calls: any      *)
(* input bytes, keys accepted and refused at any moment, calls before a    *)
(* key, failed flushes retried or continued.                               *)
(***************************************************************************)
EXTENDS ToyCipher
CONSTANTS InMax, PieceMax, Alphabet

Cbc == INSTANCE CbcStream WITH BL <- 2, KeyOK <- ToyKeyOK, Sched <- ToySched, Enc <- ToyEnc, Dec <- ToyDec
BL == 2
Keys == { <<0>>, <<2>>, <<1>>, <<>>, <<0, 0>> }
Iv == << 1, 2 >>

VARIABLES d,       \* the Decipher
          key,     \* the last accepted key, or <<>>
          inp,     \* ciphertext since the last message boundary, with the key in force for each byte's block
          iv0,     \* IV of that message
          rel,     \* cleartext released of it
          reply    \* last reply
vars == << d, key, inp, iv0, rel, reply >>

Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == d = Cbc!DecipherNew(Iv) /\ key = <<>> /\ inp = <<>> /\ iv0 = Iv /\ rel = <<>> /\ reply = Cbc!Ok(<<>>)

\* the key may change only before a message's first block here: otherwise rel has no one-key closed form
SetKey(k) ==
  /\ (ToyKeyOK(k) => Len(inp) < BL)
  /\ d' = Cbc!InitNext(d, k) /\ reply' = Cbc!InitReply(k)
  /\ key' = IF ToyKeyOK(k) THEN k ELSE key
  /\ UNCHANGED << inp, iv0, rel >>
\* after a refused write, inp is what the object kept
Write(p) ==
  /\ Len(inp) + Len(p) <= InMax
  /\ \E w \in Cbc!DecipherWrite(d, p) :
       /\ d' = w[2] /\ reply' = w[1] /\ rel' = rel \o w[1].out
       /\ inp' = IF w[1].r = "ok" THEN inp \o p ELSE w[2].cpend
  /\ UNCHANGED << key, iv0 >>
Flush ==
  /\ \E w \in Cbc!DecipherFlush(d) :
       /\ d' = w[2] /\ reply' = w[1]
       /\ IF w[1].r = "ok" THEN inp' = <<>> /\ iv0' = w[2].iv /\ rel' = <<>>
          ELSE UNCHANGED << inp, iv0, rel >>
  /\ UNCHANGED key
Next == (\E k \in Keys : SetKey(k)) \/ (\E p \in Strings(PieceMax) : Write(p)) \/ Flush
Spec == Init /\ [][Next]_vars

N == Len(inp) \div BL
Clear == Cbc!CbcDec(ToySched(key), iv0, inp, N)[2]
LastBlk(s) == SubSeq(s, Len(s) - BL + 1, Len(s))
\* C10: the key in force is the last accepted one; without one nothing was ever deciphered
KeyInForce == d.key = IF key = <<>> THEN Cbc!NoKey ELSE ToySched(key)
NoKeyNoOutput == key = <<>> => rel = <<>> /\ reply.out = <<>> /\ d.held = <<>>
\* a refused call processes nothing: the chaining value is still the IV
NoKeyNothingDone == key = <<>> => d.iv = Iv /\ Len(d.cpend) < BL
\* C17
Small == Len(d.cpend) < BL /\ Len(d.held) \in {0, BL}
\* C12
ReleasedPrefix == key # <<>> => rel = Take(Clear, IF N = 0 THEN 0 ELSE BL * (N - 1))
\* C13, the closed form of acceptance
WellFormed == N > 0 /\ Len(inp) % BL = 0 /\ Cbc!PadOK(LastBlk(Clear))
FlushExact ==
  key # <<>> =>
     LET w == Cbc!The(Cbc!DecipherFlush(d))
     IN  IF WellFormed THEN w[1] = Cbc!Ok(Take(LastBlk(Clear), BL - LastBlk(Clear)[BL])) ELSE
         /\ w[1] = Cbc!Err(IF N > 0 /\ Len(inp) % BL = 0 THEN "InvalidPadding" ELSE "UnfinishedBlock")
         /\ w[2] = d
\* no block is processed without a key, and the failure says so
NotInit ==
  key = <<>> =>
     /\ \A p \in Strings(PieceMax) : \A w \in Cbc!DecipherWrite(d, p) :
          w[1] = IF Len(d.cpend) + Len(p) >= BL THEN Cbc!Err("NotInitialized") ELSE Cbc!Ok(<<>>)
     /\ \A w \in Cbc!DecipherFlush(d) : w[1] = Cbc!Err("UnfinishedBlock")
\* the outcomes of a call differ only where the object refuses for want of a key
OneOutcome ==
  key # <<>> => /\ \A p \in Strings(PieceMax) : Cardinality(Cbc!DecipherWrite(d, p)) = 1
                /\ Cardinality(Cbc!DecipherFlush(d)) = 1
\* refused keys change nothing
BadKeys == \A k \in Keys : ~ ToyKeyOK(k) => Cbc!InitNext(d, k) = d /\ Cbc!InitReply(k) = Cbc!Err("InvalidKeySize")
=============================================================================
