----------------------------- MODULE MC_Channel -----------------------------
(***************************************************************************)
(* One Cipher sends messages to one Decipher over a wire.  The sender      *)
(* writes each message in arbitrary pieces and flushes it; the receiver    *)
(* reads the wire in arbitrary pieces, never across a message boundary,    *)
(* and flushes at each boundary.  Explored exhaustively for 2-byte blocks  *)
(* and all messages over the alphabet within the bounds.                   *)
(***************************************************************************)
EXTENDS ToyCipher
CONSTANTS MsgMax, Total, Messages, Alphabet, PieceMax, Ivs, Reads

Cbc == INSTANCE CbcStream WITH BL <- 2, KeyOK <- ToyKeyOK, Sched <- ToySched, Enc <- ToyEnc, Dec <- ToyDec
BL == 2
Key == << 2 >>

VARIABLES c,        \* the Cipher
          d,        \* the Decipher
          cur,      \* cleartext of the unfinished message
          ivs,      \* IV of each message begun (the first one given, the rest chained)
          sent,     \* finished messages
          wire,     \* per message, all ciphertext emitted so far
          got,      \* messages the receiver finished
          part,     \* cleartext released of the receiver's current message
          rd        \* ciphertext bytes of that message read
vars == << c, d, cur, ivs, sent, wire, got, part, rd >>

Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Used == FoldLeft(LAMBDA a, m : a + Len(m), Len(cur), sent)

Init == \E iv \in Ivs :
  /\ c = Cbc!InitNext(Cbc!CipherNew(iv), Key)
  /\ d = Cbc!InitNext(Cbc!DecipherNew(iv), Key)
  /\ cur = <<>> /\ ivs = << iv >> /\ sent = <<>> /\ wire = << <<>> >> /\ got = <<>> /\ part = <<>> /\ rd = 0

m == Len(sent) + 1       \* message being sent
g == Len(got) + 1        \* message being received

Send(piece) ==
  LET w == Cbc!The(Cbc!CipherWrite(c, piece))
  IN  /\ Len(sent) < Messages
      /\ Len(cur) + Len(piece) <= MsgMax /\ Used + Len(piece) <= Total
      /\ w[1].r = "ok"
      /\ c' = w[2] /\ cur' = cur \o piece /\ wire' = [wire EXCEPT ![m] = @ \o w[1].out]
      /\ UNCHANGED << d, ivs, sent, got, part, rd >>
Finish ==
  LET w == Cbc!The(Cbc!CipherFlush(c))
  IN  /\ Len(sent) < Messages
      /\ w[1].r = "ok"
      /\ c' = w[2] /\ cur' = <<>> /\ sent' = Append(sent, cur)
      /\ wire' = Append([wire EXCEPT ![m] = @ \o w[1].out], <<>>)
      /\ ivs' = Append(ivs, w[2].iv)
      /\ UNCHANGED << d, got, part, rd >>
Receive(n) ==
  LET w == Cbc!The(Cbc!DecipherWrite(d, SubSeq(wire[g], rd + 1, rd + n)))
  IN  /\ rd + n <= Len(wire[g])
      /\ w[1].r = "ok"
      /\ d' = w[2] /\ part' = part \o w[1].out /\ rd' = rd + n
      /\ UNCHANGED << c, cur, ivs, sent, wire, got >>
Boundary ==
  LET w == Cbc!The(Cbc!DecipherFlush(d))
  IN  /\ Len(got) < Len(sent) /\ rd = Len(wire[g])
      /\ w[1].r = "ok"
      /\ d' = w[2] /\ got' = Append(got, part \o w[1].out) /\ part' = <<>> /\ rd' = 0
      /\ UNCHANGED << c, cur, ivs, sent, wire >>
\* flushing before the message has arrived in full may fail, and then changes nothing; if the
\* last block so far happens to look like padding it succeeds, which a receiver cannot know
EarlyFlush ==
  LET w == Cbc!The(Cbc!DecipherFlush(d))
  IN  /\ rd < Len(wire[g]) \/ Len(got) = Len(sent)
      /\ w[1].r # "ok"
      /\ d' = w[2]
      /\ UNCHANGED << c, cur, ivs, sent, wire, got, part, rd >>
Next == \/ \E p \in Strings(PieceMax) : Send(p)
        \/ Finish
        \/ \E n \in Reads : Receive(n)
        \/ Boundary
        \/ EarlyFlush
Spec == Init /\ [][Next]_vars

Rk == ToySched(Key)
BlocksIn(s) == Len(s) \div BL
\* C11: what is on the wire is the encryption of all complete blocks, and the rest is pending
CipherCanonical ==
  /\ wire[m] = Cbc!CbcEnc(Rk, ivs[m], cur, BlocksIn(cur))[2]
  /\ c.iv = Cbc!CbcEnc(Rk, ivs[m], cur, BlocksIn(cur))[1]
  /\ c.pend = Drop(cur, BL * BlocksIn(cur))
  /\ \A k \in 1..Len(sent) :
       /\ wire[k] = Cbc!CbcEnc(Rk, ivs[k], Cbc!Pad(sent[k]), 0)[2] \o
                    LET full == Take(sent[k], BL * BlocksIn(sent[k])) \o Cbc!Pad(Drop(sent[k], BL * BlocksIn(sent[k])))
                    IN  Cbc!CbcEnc(Rk, ivs[k], full, BlocksIn(full))[2]
       /\ Len(wire[k]) = BL * (BlocksIn(sent[k]) + 1)
       \* C14: the next IV is the last ciphertext block
       /\ ivs[k + 1] = SubSeq(wire[k], Len(wire[k]) - BL + 1, Len(wire[k]))
\* C12: released = the message so far without its last complete ciphertext block
Released ==
  LET clear == IF g <= Len(sent) THEN sent[g] ELSE cur
      n == BlocksIn(Take(wire[g], rd))
      out == IF n = 0 THEN 0 ELSE BL * (n - 1)
  IN  part = Take(clear, out) /\ Len(part) = out
HeldBack == LET n == BlocksIn(Take(wire[g], rd))
            IN  /\ Len(d.held) = (IF n = 0 THEN 0 ELSE BL)
                /\ d.cpend = SubSeq(wire[g], BL * n + 1, rd)
\* C12, C14: every finished message arrives exactly
Delivered == /\ Len(got) <= Len(sent) /\ got = Take(sent, Len(got))
\* the receiver is never stuck at a boundary
BoundaryWorks == (Len(got) < Len(sent) /\ rd = Len(wire[g])) => Cbc!The(Cbc!DecipherFlush(d))[1].r = "ok"
\* nothing of a finished message remains but the chained IV
Clean == /\ (cur = <<>>) => c = [Cbc!InitNext(Cbc!CipherNew(ivs[m]), Key) EXCEPT !.iv = ivs[m]]
         /\ (rd = 0) => d = [Cbc!InitNext(Cbc!DecipherNew(ivs[g]), Key) EXCEPT !.iv = ivs[g]]
\* C17: neither holds more than a block, and the receiver one decrypted block besides
Small == Len(c.pend) < BL /\ Len(d.cpend) < BL /\ Len(d.held) \in {0, BL}
\* C18: as many cipher blocks as the length asks for
Co == INSTANCE Cost
Work == \A k \in 1..Len(sent) : Len(wire[k]) = BL * Co!CipherBlocks(Len(sent[k]), BL)
\* C13: a failed flush changes nothing and releases nothing
FlushSafe == LET w == Cbc!The(Cbc!DecipherFlush(d)) IN w[1].r # "ok" => w[1].out = <<>> /\ w[2] = d
\* with contents forgotten: Lengths, where Apalache knows pieces of every length
L == INSTANCE Lengths WITH HB <- 1, LB <- 1, CB <- BL, Sizes <- 0..PieceMax \cup Reads,
       hfed <- 0, hblk <- 0, hfill <- 0,
       cfed <- Len(cur), cout <- Len(wire[m]), cpend <- Len(c.pend), msgs <- Len(sent),
       dfed <- rd, dout <- Len(part), dpend <- Len(d.cpend), held <- Len(d.held)
LengthsOK == L!CipherInit /\ L!DecipherInit
             /\ [][(L!CipherNext /\ L!DecipherSame) \/ (L!DecipherNext /\ L!CipherSame) \/ (L!CipherSame /\ L!DecipherSame)]_vars
TwoIvs == {<<0, 0>>, <<3, 1>>}
=============================================================================
