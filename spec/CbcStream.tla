----------------------------- MODULE CbcStream -----------------------------
(***************************************************************************)
(* The streaming CBC objects (Cipher, Decipher) with PKCS#7 padding, over  *)
(* a block cipher given by a key schedule.                                 *)
(*                                                                         *)
(* Cipher:   key   accepted key (its schedule) or NoKey                    *)
(*           iv    previous ciphertext block                               *)
(*           pend  cleartext bytes of the incomplete block                 *)
(* Decipher: key, iv as above                                              *)
(*           cpend ciphertext bytes of the incomplete block                *)
(*           held  the last decrypted block, not yet released ({} or BL)   *)
(*                                                                         *)
(* Replies are records [r |-> "ok" or an error kind, out |-> bytes].  A    *)
(* call is given as the set of its outcomes << reply, next state >>.  That *)
(* is one outcome, except that a call refused because no key was set yet   *)
(* may or may not have kept bytes of the incomplete block.  It changed     *)
(* nothing else: no block was processed.                                   *)
(***************************************************************************)
EXTENDS Words

CONSTANTS BL,              \* block length
          KeyOK(_),        \* acceptable keys
          Sched(_),        \* key -> schedule
          Enc(_, _),       \* schedule x block -> block
          Dec(_, _)

NoKey == <<>>
Ok(out) == [r |-> "ok", out |-> out]
Err(kind) == [r |-> kind, out |-> <<>>]

BlockAt(bytes, k) == SubSeq(bytes, (k-1) * BL + 1, k * BL)

---------------------------------------------------------------------------
\* PKCS#7

Pad(rest) == rest \o Rep(BL - Len(rest), BL - Len(rest))
PadOK(block) == LET n == block[BL] IN n \in 1..BL /\ \A i \in (BL - n + 1)..BL : block[i] = n
Unpad(block) == Take(block, BL - block[BL])

---------------------------------------------------------------------------
\* CBC over whole blocks: << last ciphertext block, output >>

CbcEnc(key, iv, bytes, n) ==
  FoldLeft(LAMBDA acc, k : LET c == Enc(key, XorBytes(BlockAt(bytes, k), acc[1]))
                           IN  << c, acc[2] \o c >>,
           << iv, <<>> >>, Idx(n))
CbcDec(key, iv, bytes, n) ==
  FoldLeft(LAMBDA acc, k : LET c == BlockAt(bytes, k)
                           IN  << c, acc[2] \o XorBytes(Dec(key, c), acc[1]) >>,
           << iv, <<>> >>, Idx(n))

---------------------------------------------------------------------------
\* init, common to AES, Cipher and Decipher objects

InitReply(k) == IF KeyOK(k) THEN Ok(<<>>) ELSE Err("InvalidKeySize")
InitNext(s, k) == IF KeyOK(k) THEN [s EXCEPT !.key = Sched(k)] ELSE s

---------------------------------------------------------------------------
\* Cipher

CipherNew(iv) == [key |-> NoKey, iv |-> iv, pend |-> <<>>]

\* what a refused call may leave pending: nothing, what was there before, what is left of all of it
Leftovers(before, all) == { <<>>, before, Drop(all, (Len(all) \div BL) * BL) }

CipherWrite(s, data) ==
  LET all == s.pend \o data
      n == Len(all) \div BL
  IN  IF n > 0 /\ s.key = NoKey
      THEN {<< Err("NotInitialized"), [s EXCEPT !.pend = x] >> : x \in Leftovers(s.pend, all)}
      ELSE LET e == CbcEnc(s.key, s.iv, all, n)
           IN  {<< Ok(e[2]), [s EXCEPT !.iv = e[1], !.pend = Drop(all, n * BL)] >>}

CipherFlush(s) ==
  IF s.key = NoKey
  THEN {<< Err("NotInitialized"), [s EXCEPT !.pend = x] >> : x \in { <<>>, s.pend }}
  ELSE LET e == CbcEnc(s.key, s.iv, Pad(s.pend), 1)
       IN  {<< Ok(e[2]), [s EXCEPT !.iv = e[1], !.pend = <<>>] >>}

---------------------------------------------------------------------------
\* Decipher

DecipherNew(iv) == [key |-> NoKey, iv |-> iv, cpend |-> <<>>, held |-> <<>>]

DecipherWrite(s, data) ==
  LET all == s.cpend \o data
      n == Len(all) \div BL
  IN  IF n > 0 /\ s.key = NoKey
      THEN {<< Err("NotInitialized"), [s EXCEPT !.cpend = x] >> : x \in Leftovers(s.cpend, all)}
      ELSE LET d == CbcDec(s.key, s.iv, all, n)
               clear == s.held \o d[2]
               \* everything but the last block is certainly not padding
               release == IF n = 0 THEN 0 ELSE Len(clear) - BL
           IN  {<< Ok(Take(clear, release)),
                   [s EXCEPT !.iv = d[1], !.cpend = Drop(all, n * BL), !.held = Drop(clear, release)] >>}

DecipherFlush(s) ==
  IF s.cpend # <<>> \/ s.held = <<>> THEN {<< Err("UnfinishedBlock"), s >>}
  ELSE IF ~ PadOK(s.held) THEN {<< Err("InvalidPadding"), s >>}
  ELSE {<< Ok(Unpad(s.held)), [s EXCEPT !.held = <<>>] >>}

---------------------------------------------------------------------------
\* An observer sees replies only.  May is the set of states the object may be in; after a call with
\* outcomes F(s) that replied r it may be in one of these (none: the reply was not allowed).
After(May, F(_), r) == {x[2] : x \in {y \in UNION {F(s) : s \in May} : y[1] = r}}
\* the outcome of a call that has only one
The(outcomes) == CHOOSE x \in outcomes : TRUE
=============================================================================
