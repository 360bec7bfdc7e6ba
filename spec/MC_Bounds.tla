------------------------------ MODULE MC_Bounds ------------------------------
(***************************************************************************)
(* ScryptBounds on limbs says what RFC 7914 says on numbers, for all       *)
(* 64-bit parameters.  Checked by Apalache (its integers have no bound).   *)
(***************************************************************************)
EXTENDS ScryptBounds
VARIABLES
  \* @type: Seq(Int);
  r,
  \* @type: Seq(Int);
  n,
  \* @type: Seq(Int);
  p
Limb == 0..65535
Init == \E a, b, c, d, e, f, g, h, i, j, k, l \in Limb :
          r = << a, b, c, d >> /\ n = << e, f, g, h >> /\ p = << i, j, k, l >>
Next == r' = r /\ n' = n /\ p' = p

\* @type: Seq(Int) => Int;
Value(x) == x[1] * 281474976710656 + x[2] * 4294967296 + x[3] * 65536 + x[4]
PowersTo64 == {2^k : k \in 0..63}
VR == Value(r)
VN == Value(n)
VP == Value(p)

Smalls == (RTooSmall(r) <=> VR < 1) /\ (PTooSmall(p) <=> VP < 1) /\ (NTooSmall(n) <=> VN <= 1)
Power == PowerOf2(n) <=> VN \in PowersTo64
\* N < 2^(128 r / 8); any N is, for r of 4 and more
Large == ~ RTooSmall(r) =>
  (NTooLarge(r, n) <=> \/ VR = 1 /\ VN >= 65536
                       \/ VR = 2 /\ VN >= 4294967296
                       \/ VR = 3 /\ VN >= 281474976710656)
\* p <= ((2^32 - 1) * 32) / (128 r)
Lanes == ~ RTooSmall(r) => (PTooLarge(r, p) <=> VP > (4294967295 * 32) \div (128 * VR))
\* hence the first PBKDF2 pass gives no more than it can
Output == (~ RTooSmall(r) /\ ~ PTooLarge(r, p)) => 128 * VR * VP <= 4294967295 * 32
All == Smalls /\ Power /\ Large /\ Lanes /\ Output
=============================================================================
