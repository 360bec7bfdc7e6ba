------------------------------- MODULE Scrypt -------------------------------
(***************************************************************************)
(* scrypt (RFC 7914).  A block is 16 little-endian words; a lane is a      *)
(* sequence of 2r blocks.  Mix (Salsa20/8 in the standard), XOR of blocks, *)
(* Integerify and the two PBKDF2 passes are parameters so that the step    *)
(* machine (ScryptMachine) can be explored with tiny ones.                 *)
(***************************************************************************)
EXTENDS Words
CONSTANTS Mix(_),            \* block -> block
          XorB(_, _),        \* block x block -> block
          IntMod(_, _)       \* block x N -> Integerify(block) mod N

\* << X, even-numbered outputs, odd-numbered outputs >> after each block
BlockMixStep(acc, b) ==
  LET x == Mix(XorB(acc[1], b))
  IN  IF Len(acc[2]) = Len(acc[3])
      THEN << x, Append(acc[2], x), acc[3] >>
      ELSE << x, acc[2], Append(acc[3], x) >>

BlockMix(B) ==
  LET r == FoldLeft(BlockMixStep, << B[Len(B)], <<>>, <<>> >>, B)
  IN  r[2] \o r[3]

\* << X, V >>: V[i] = X; X = BlockMix(X)
FillStep(acc, i) == << BlockMix(acc[1]), Append(acc[2], acc[1]) >>

XorLane(A, B) == TLCEval([i \in 1..Len(A) |-> XorB(A[i], B[i])])

MixStep(X, V, N) ==
  LET j == IntMod(X[Len(X)], N)
  IN  BlockMix(XorLane(X, V[j + 1]))

ROMix(B, N) ==
  LET f == FoldLeft(FillStep, << B, <<>> >>, Idx(N))
      V == f[2]
  IN  FoldLeft(LAMBDA X, i : MixStep(X, V, N), f[1], Idx(N))
=============================================================================
