------------------------------- MODULE Pbkdf2 -------------------------------
(***************************************************************************)
(* PBKDF2 (RFC 2898, section 5.2) over a pseudorandom function given by a  *)
(* keyed state: Keyed(P) is the state for password P, Prf(state, data) the *)
(* function.  HLen is the PRF's output length.                             *)
(***************************************************************************)
EXTENDS Words
CONSTANTS HLen, Keyed(_), Prf(_, _)

\* U_1 = PRF(P, S || INT(i)), T = U_1
FirstU(kp, S, i) == Prf(kp, S \o IntBE(i))
\* U_{j+1} = PRF(P, U_j)
NextU(kp, u) == Prf(kp, u)

\* F(P, S, c, i) = U_1 xor ... xor U_c
XorOfUs(kp, u1, c) ==
  FoldLeft(LAMBDA ut, j : LET u == NextU(kp, ut[1]) IN << u, XorBytes(ut[2], u) >>, << u1, u1 >>, Idx(c - 1))[2]
F(kp, S, c, i) == LET u1 == FirstU(kp, S, i) IN XorOfUs(kp, u1, c)

NumBlocks(dkLen) == (dkLen + HLen - 1) \div HLen

Derive(P, S, c, dkLen) ==
  LET kp == Keyed(P)
  IN  Take(FoldLeft(LAMBDA acc, i : acc \o F(kp, S, c, i), <<>>, Idx(NumBlocks(dkLen))), dkLen)
=============================================================================
