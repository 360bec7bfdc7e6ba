--------------------------- MODULE MC_HashStream ---------------------------
(***************************************************************************)
(* Exhaustive exploration of the streaming hash object with 4-byte blocks, *)
(* a 1-byte length field and a free compression function (the chaining     *)
(* value is the list of blocks absorbed, so two different block sequences  *)
(* never collide).  Every history of updates whose message stays within    *)
(* MaxLen bytes of the alphabet is visited; the alphabet has the padding   *)
(* bytes themselves in it.                                                 *)
(***************************************************************************)
EXTENDS Words
CONSTANTS BL, LenBytes, MaxLen, MaxPiece, Alphabet

Field(nblk, rest) == Rep(LenBytes - 1, 0) \o << (BL * nblk + rest) % 256 >>
H == INSTANCE HashStream WITH Iv <- <<>>, Compress <- LAMBDA h, b : Append(h, b),
       LenField <- Field, Out <- LAMBDA h : h

VARIABLES obj, msg
vars == << obj, msg >>

Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == obj = H!New /\ msg = <<>>
Feed(piece) == obj' = H!Update(obj, piece) /\ msg' = msg \o piece
Next == \E piece \in Strings(MaxPiece) : Len(msg) + Len(piece) <= MaxLen /\ Feed(piece)
Spec == Init /\ [][Next]_vars

Flat(blocks) == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, blocks)

\* the object is a function of the bytes fed, not of the pieces: this is the closed form
Whole == Len(msg) \div BL
ChunkIndependent == obj = [h |-> H!Blocks(msg, Whole), nblk |-> Whole, buf |-> Drop(msg, Whole * BL)]
AsOneCall == H!Digest(obj) = H!Digest(H!Update(H!New, msg))

\* what a digest absorbs: message, padding, nothing else; whole blocks; no more of them than needed
Absorbed == Flat(H!Digest(obj))
PaddingForm ==
  LET p == H!Padding(obj)
      zeros == Len(p) - 1 - LenBytes
  IN  /\ Absorbed = msg \o p
      /\ Len(Absorbed) % BL = 0
      /\ p[1] = 128 /\ zeros \in 0..(BL - 1) /\ \A i \in 2..(1 + zeros) : p[i] = 0
      /\ Drop(p, 1 + zeros) = Field(Whole, Len(msg) % BL)
\* the message can be read back from what was absorbed, so no two messages share a padded form
Recovered == LET n == Absorbed[Len(Absorbed)] IN n = Len(msg) /\ Take(Absorbed, n) = msg
TypeOK == H!TypeOK(obj)
\* C18: no more compressions than the length asks for, during the updates and with the digest
Co == INSTANCE Cost
Work == Len(obj.h) = Len(msg) \div BL /\ Len(H!Digest(obj)) = Co!Compressions(Len(msg), BL, LenBytes)
\* a digest leaves a state from which the padded message continues (the length-extension relation)
Extends == \A t \in Strings(1) :
  H!Update([h |-> H!Digest(obj), nblk |-> Len(Absorbed) \div BL, buf |-> <<>>], t)
    = H!Update(H!New, Absorbed \o t)
\* with contents forgotten: Lengths, where Apalache knows pieces of every length
L == INSTANCE Lengths WITH HB <- BL, LB <- LenBytes, CB <- 1, Sizes <- 0..MaxPiece,
       hfed <- Len(msg), hblk <- obj.nblk, hfill <- Len(obj.buf),
       cfed <- 0, cout <- 0, cpend <- 0, msgs <- 0, dfed <- 0, dout <- 0, dpend <- 0, held <- 0
LengthsOK == L!HashInit /\ [][L!HashNext]_vars
=============================================================================
