----------------------------- MODULE MC_Scrypt -----------------------------
(***************************************************************************)
(* ROMix as steps - fill V, then mix - for p lanes advanced in any order,  *)
(* refining the recursive definition that trace validation evaluates.      *)
(* Blocks are numbers 0..15 with a toy mixing function.                    *)
(***************************************************************************)
EXTENDS Words
CONSTANTS R, N, P, Starts
ToyMix(b) == (5 * b + 3 + (b \div 4)) % 16
Sc == INSTANCE Scrypt WITH Mix <- ToyMix, XorB <- LAMBDA a, b : a ^^ b, IntMod <- LAMBDA b, n : b % n

Lanes == [1..(2 * R) -> Starts]
VARIABLES b0, lane
vars == << b0, lane >>
Init == /\ b0 \in [1..P -> Lanes]
        /\ lane = [i \in 1..P |-> [pc |-> 0, x |-> b0[i], v |-> <<>>]]
Fill(i) == /\ lane[i].pc < N
           /\ lane' = [lane EXCEPT ![i] = [pc |-> @.pc + 1, x |-> Sc!BlockMix(@.x), v |-> Append(@.v, @.x)]]
Mix(i) == /\ lane[i].pc \in N..(2 * N - 1)
          /\ lane' = [lane EXCEPT ![i] = [pc |-> @.pc + 1, x |-> Sc!MixStep(@.x, @.v, N), v |-> @.v]]
Next == (\E i \in 1..P : Fill(i) \/ Mix(i)) /\ UNCHANGED b0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == \A i \in 1..P : lane[i].pc = 2 * N
Refines == \A i \in 1..P : lane[i].pc = 2 * N => lane[i].x = Sc!ROMix(b0[i], N)
\* V holds the first N iterates, and every mixing step reads inside it
RECURSIVE Iterate(_, _)
Iterate(x, n) == IF n = 0 THEN x ELSE Sc!BlockMix(Iterate(x, n - 1))
VExact == \A i \in 1..P : \A k \in 1..Len(lane[i].v) : lane[i].v[k] = Iterate(b0[i], k - 1)
InBounds == \A i \in 1..P : lane[i].pc >= N => Len(lane[i].v) = N
\* the output order of BlockMix: even-numbered results first
Order == \A i \in 1..P :
  LET X == lane[i].x
      Ys == FoldLeft(LAMBDA acc, b : Append(acc, ToyMix((IF acc = <<>> THEN X[2 * R] ELSE acc[Len(acc)]) ^^ b)), <<>>, X)
  IN  Sc!BlockMix(X) = [k \in 1..(2 * R) |-> IF k <= R THEN Ys[2 * k - 1] ELSE Ys[2 * (k - R)]]
\* C18: applications of BlockMix so far
Co == INSTANCE Cost
Work == LET made == FoldLeft(LAMBDA a, i : a + lane[i].pc, 0, Idx(P))
        IN  made <= Co!Mixes(N, P) /\ (Finished => made = Co!Mixes(N, P))
Terminates == <>Finished
=============================================================================
