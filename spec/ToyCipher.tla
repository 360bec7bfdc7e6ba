----------------------------- MODULE ToyCipher -----------------------------
(***************************************************************************)
(* A keyed permutation of 2-byte blocks over 0..3, for exhaustive          *)
(* exploration of the CBC machines.  Keys are one-element sequences; a key *)
(* is acceptable if its element is even.  XOR keeps bytes within 0..3.     *)
(***************************************************************************)
EXTENDS Words
Byte == 0..3
ToyKeyOK(k) == Len(k) = 1 /\ k[1] % 2 = 0
ToySched(k) == << "rk", k[1] >>
ToyEnc(rk, b) == LET x == (b[1] + b[2] + rk[2] + 1) % 4
                     y == (b[2] + 3 * x + rk[2]) % 4
                 IN  << y, x >>
ToyDec(rk, c) == LET x == c[2]
                     b2 == (c[1] + 16 - 3 * x - rk[2]) % 4
                 IN  << (x + 16 - b2 - rk[2] - 1) % 4, b2 >>
ASSUME \A k \in {0, 2} : \A b \in Byte \X Byte :
         ToyDec(<<"rk", k>>, ToyEnc(<<"rk", k>>, b)) = b /\ ToyEnc(<<"rk", k>>, ToyDec(<<"rk", k>>, b)) = b
=============================================================================
