---------------------------- MODULE ScryptBounds ----------------------------
(***************************************************************************)
(* Which scrypt parameters are in range.  They are 64-bit: sequences of    *)
(* four 16-bit limbs, most significant first, so that TLC can evaluate     *)
(* everything.  MC_Bounds says, for all parameters, that these are the     *)
(* bounds of RFC 7914 on the numbers.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* @type: Seq(Int) => Bool;
Zero(x) == \A i \in 1..4 : x[i] = 0
\* x < 2^30
\* @type: Seq(Int) => Bool;
Below30(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] < 16384
\* @type: Seq(Int) => Int;
IntOf(x) == x[3] * 65536 + x[4]
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}
\* @type: Seq(Int) => Bool;
PowerOf2(x) == \E i \in 1..4 : x[i] \in Powers /\ \A j \in (1..4) \ {i} : x[j] = 0
\* @type: Seq(Int) => Bool;
IsOne(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 1

\* @type: Seq(Int) => Bool;
RTooSmall(r) == Zero(r)
\* @type: Seq(Int) => Bool;
NTooSmall(n) == Zero(n) \/ IsOne(n)
\* @type: Seq(Int) => Bool;
NNotPower(n) == ~ NTooSmall(n) /\ ~ PowerOf2(n)
\* @type: Seq(Int) => Bool;
PTooSmall(p) == Zero(p)
\* N >= 2^(16 r): some limb from position r (counted from the least significant, 0) up is not zero
\* @type: (Seq(Int), Seq(Int)) => Bool;
NTooLarge(r, n) == \E i \in 1..4 : n[i] # 0 /\ Below30(r) /\ 4 - i >= IntOf(r)
\* p > (2^32 - 1)/(4 r), that is, r p > 2^30 - 1
\* @type: (Seq(Int), Seq(Int)) => Bool;
PTooLarge(r, p) == ~ Zero(r) /\ ~ Zero(p) /\ (~ Below30(r) \/ ~ Below30(p) \/ IntOf(p) > (1073741823 \div IntOf(r)))

\* the errors a call may report: each names a parameter that is out of range
\* @type: (Seq(Int), Seq(Int), Seq(Int)) => Set(Str);
ScryptErrors(r, n, p) ==
     (IF RTooSmall(r) THEN {"RIsTooSmall"} ELSE {})
  \cup (IF NTooSmall(n) THEN {"NIsTooSmall"} ELSE {})
  \cup (IF NNotPower(n) THEN {"NIsNotAPowerOfTwo"} ELSE {})
  \cup (IF PTooSmall(p) THEN {"PIsTooSmall"} ELSE {})
  \cup (IF NTooLarge(r, n) THEN {"NIsTooLarge"} ELSE {})
  \cup (IF PTooLarge(r, p) THEN {"PIsTooLarge"} ELSE {})
=============================================================================
