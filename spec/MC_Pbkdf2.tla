----------------------------- MODULE MC_Pbkdf2 -----------------------------
(***************************************************************************)
(* PBKDF2 as steps (per block: U_1, then c-1 iterations, then the copy     *)
(* into the output), with the blocks worked on in any order, refining the  *)
(* RFC's formula.  The pseudorandom function is symbolic: U_j is the pair  *)
(* << what was hashed, position >>, so distinct computations never agree   *)
(* by accident.  The output starts with arbitrary contents.                *)
(***************************************************************************)
EXTENDS Words
CONSTANTS HLen, MaxLen, MaxC

\* a toy PRF into HLen bytes over 0..255 that depends on all of its input
Sum(d) == FoldLeft(LAMBDA a, b : (31 * a + b + 7) % 251, 1, d)
ToyPrf(kp, d) == [i \in 1..HLen |-> (Sum(d) * (2 * i + 1) + 17 * kp + i) % 256]
Kdf == INSTANCE Pbkdf2 WITH Keyed <- LAMBDA p : Sum(p), Prf <- ToyPrf

P == << 5, 6 >>
S == << 9 >>
VARIABLES len, c, blk, out
vars == << len, c, blk, out >>
\* blk[i] = [j |-> iterations done, u, t] while being worked on; out[k] = 0..255, or -1 = still the old contents
L == Kdf!NumBlocks(len)
Init == /\ len \in 0..MaxLen /\ c \in 1..MaxC
        /\ blk = [i \in 1..Kdf!NumBlocks(len) |-> [j |-> 0, u |-> <<>>, t |-> <<>>]]
        /\ out = [k \in 1..len |-> -1]
kp == Sum(P)
Start(i) == /\ blk[i].j = 0
            /\ LET u == Kdf!FirstU(kp, S, i) IN blk' = [blk EXCEPT ![i] = [j |-> 1, u |-> u, t |-> u]]
            /\ UNCHANGED << len, c, out >>
Iter(i) == /\ blk[i].j \in 1..(c - 1)
           /\ LET u == Kdf!NextU(kp, blk[i].u) IN blk' = [blk EXCEPT ![i] = [j |-> @.j + 1, u |-> u, t |-> XorBytes(@.t, u)]]
           /\ UNCHANGED << len, c, out >>
Span(i) == ((i - 1) * HLen + 1)..(IF i * HLen < len THEN i * HLen ELSE len)
Copy(i) == /\ blk[i].j = c
           /\ out' = [k \in 1..len |-> IF k \in Span(i) THEN blk[i].t[k - (i - 1) * HLen] ELSE out[k]]

           /\ blk' = [blk EXCEPT ![i].j = c + 1]
           /\ UNCHANGED << len, c >>
Next == \E i \in 1..L : Start(i) \/ Iter(i) \/ Copy(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == \A i \in 1..L : blk[i].j = c + 1
\* every byte is written, with the RFC's value, when all blocks are done; never anything else
Refines == \A k \in 1..len : out[k] \in {-1, Kdf!Derive(P, S, c, len)[k]}
AllWritten == Finished => out = Kdf!Derive(P, S, c, len)
OnceOnly == \A i \in 1..L : blk[i].j <= c => \A k \in Span(i) : out[k] = -1
\* C18: iterations made; all there are to make when it is finished
Co == INSTANCE Cost
Made == FoldLeft(LAMBDA a, i : a + (IF blk[i].j > c THEN c ELSE blk[i].j), 0, Idx(L))
Work == Made <= Co!Iterations(c, len, HLen) /\ (Finished => Made = Co!Iterations(c, len, HLen))
\* shorter outputs are prefixes of longer ones
ShorterIsPrefix == \A n \in 0..len : Kdf!Derive(P, S, c, n) = Take(Kdf!Derive(P, S, c, len), n)
\* the inductive relation used on traces: U_c = T_{c-1} xor T_c
TAt(n) == Kdf!F(kp, S, n, 1)
Inductive == c >= 2 => Kdf!NextU(kp, XorBytes(TAt(c - 1), TAt(c))) = XorBytes(TAt(c), TAt(c + 1))
Terminates == <>Finished
\* INT(i) is injective over the index ranges the driver observes
Idxs == (0..300) \cup (65500..65600) \cup (16777200..16777300)
ASSUME IntInjective == \A i \in Idxs : LET b == Kdf!IntBE(i) IN
   ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4] = i /\ \A k \in 1..4 : b[k] \in 0..255
=============================================================================
