----------------------------- MODULE HashStream -----------------------------
(***************************************************************************)
(* A streaming Merkle-Damgard hash object.                                 *)
(*                                                                         *)
(* State: chaining value, number of whole blocks absorbed, and the bytes   *)
(* of the block being filled.  Update and Digest are the two API calls.    *)
(* The block length, the compression function, the length field and the    *)
(* output map are parameters, so that the same machine is explored         *)
(* exhaustively with tiny free constants (MC_HashStream) and evaluated     *)
(* with the real SHA-256 ones in trace validation (Sha256, Trace).         *)
(***************************************************************************)
EXTENDS Words

CONSTANTS BL,               \* block length in bytes
          LenBytes,         \* bytes of the length field
          Iv,               \* initial chaining value
          Compress(_, _),   \* chaining value x block -> chaining value
          LenField(_, _),   \* whole blocks x further bytes -> length field
          Out(_)            \* chaining value -> digest

New == [h |-> Iv, nblk |-> 0, buf |-> <<>>]

Blocks(bytes, n) == [k \in 1..n |-> SubSeq(bytes, (k-1) * BL + 1, k * BL)]

AbsorbBlocks(h, bytes, n) ==
  FoldLeft(LAMBDA acc, k : Compress(acc, SubSeq(bytes, (k-1) * BL + 1, k * BL)), h, Idx(n))

\* update(data): absorb every block completed by data, keep the rest
Update(s, data) ==
  LET all == s.buf \o data
      n == Len(all) \div BL
  IN  [h |-> AbsorbBlocks(s.h, all, n), nblk |-> s.nblk + n, buf |-> Drop(all, n * BL)]

\* 1 bit, the fewest zeros that make the total a multiple of the block length, the length
PaddingFor(nblk, rest) ==
  <<128>> \o Rep((-(rest + 1 + LenBytes)) % BL, 0) \o LenField(nblk, rest)

Padding(s) == PaddingFor(s.nblk, Len(s.buf))

\* digest()
Digest(s) == Out(Update(s, Padding(s)).h)

TypeOK(s) == s.nblk >= 0 /\ Len(s.buf) < BL
=============================================================================
