------------------------------ MODULE MC_Arith ------------------------------
(***************************************************************************)
(* Arith, for all arguments.  Checked by Apalache, whose integers have no  *)
(* bound.                                                                  *)
(***************************************************************************)
EXTENDS Arith, Sequences
VARIABLES
  \* @type: <<Int, Int>>;
  a,
  \* @type: <<Int, Int>>;
  b,
  \* @type: <<Int, Int>>;
  c,
  \* @type: <<Int, Int>>;
  d,
  \* @type: <<Int, Int>>;
  e,
  \* @type: Int;
  i,
  \* @type: Int;
  rest,
  \* @type: Int;
  up             \* the upper half of a 64-bit number of which a is the lower
Half == 0..65535
Init == /\ \E h, l \in Half : a = << h, l >>
        /\ \E h, l \in Half : b = << h, l >>
        /\ \E h, l \in Half : c = << h, l >>
        /\ \E h, l \in Half : d = << h, l >>
        /\ \E h, l \in Half : e = << h, l >>
        /\ i \in 0..2147483647
        /\ rest \in 0..63
        /\ up \in 0..4294967295
Next == /\ a' = a /\ b' = b /\ c' = c /\ d' = d /\ e' = e /\ i' = i /\ rest' = rest /\ up' = up

M32 == 4294967296
\* @type: (<<Int, Int>>) => Int;
Val(x) == x[1] * 65536 + x[2]
\* @type: (<<Int, Int>>) => Bool;
Word(x) == x[1] \in Half /\ x[2] \in Half
\* big-endian bytes
\* @type: (Seq(Int)) => Int;
Val4(s) == s[1] * 16777216 + s[2] * 65536 + s[3] * 256 + s[4]
\* @type: (Seq(Int)) => Int;
Val8(s) == Val4(s) * M32 + s[5] * 16777216 + s[6] * 65536 + s[7] * 256 + s[8]

Sums == /\ Word(Add2(a, b)) /\ Val(Add2(a, b)) = (Val(a) + Val(b)) % M32
        /\ Word(Add4(a, b, c, d)) /\ Val(Add4(a, b, c, d)) = (Val(a) + Val(b) + Val(c) + Val(d)) % M32
        /\ Word(Add5(a, b, c, d, e)) /\ Val(Add5(a, b, c, d, e)) = (Val(a) + Val(b) + Val(c) + Val(d) + Val(e)) % M32

\* p = 2^n, q = 2^(16-n), up32 = 2^(32-n), down16 = 2^(16+n)
\* @type: (Int, Int, Int, Int) => Bool;
Rot(p, q, up32, down16) ==
  LET x == Val(a)
  IN  \* right by n, and by n + 16
      /\ Val(<< RotHalf(a[1], a[2], p, q), RotHalf(a[2], a[1], p, q) >>) = x \div p + (x % p) * up32
      /\ Val(<< RotHalf(a[2], a[1], p, q), RotHalf(a[1], a[2], p, q) >>) = x \div down16 + (x % down16) * q
      \* left by n, and by n + 16
      /\ Val(RotL(a, p, q)) = ((x * p) % M32) + x \div up32
      /\ Val(RotL(<< a[2], a[1] >>, p, q)) = ((x * down16) % M32) + x \div q
Rotations ==
  /\ Rot(1, 65536, 4294967296, 65536)
  /\ Rot(2, 32768, 2147483648, 131072)
  /\ Rot(4, 16384, 1073741824, 262144)
  /\ Rot(8, 8192, 536870912, 524288)
  /\ Rot(16, 4096, 268435456, 1048576)
  /\ Rot(32, 2048, 134217728, 2097152)
  /\ Rot(64, 1024, 67108864, 4194304)
  /\ Rot(128, 512, 33554432, 8388608)
  /\ Rot(256, 256, 16777216, 16777216)
  /\ Rot(512, 128, 8388608, 33554432)
  /\ Rot(1024, 64, 4194304, 67108864)
  /\ Rot(2048, 32, 2097152, 134217728)
  /\ Rot(4096, 16, 1048576, 268435456)
  /\ Rot(8192, 8, 524288, 536870912)
  /\ Rot(16384, 4, 262144, 1073741824)
  /\ Rot(32768, 2, 131072, 2147483648)

Fields == /\ Val8(BitField(i, rest)) = 8 * (64 * i + rest)
          /\ Val4(IntBE(i)) = i
          /\ \A k \in 1..8 : BitField(i, rest)[k] \in 0..255
          /\ \A k \in 1..4 : IntBE(i)[k] \in 0..255

\* Integerify reads 64 bits, of which N <= 2^29 needs the lower 32
\* @type: (Int) => Bool;
Mod(N) == WordMod(a, N) = (up * M32 + Val(a)) % N
Modulo ==
  /\ Mod(2)
  /\ Mod(4)
  /\ Mod(8)
  /\ Mod(16)
  /\ Mod(32)
  /\ Mod(64)
  /\ Mod(128)
  /\ Mod(256)
  /\ Mod(512)
  /\ Mod(1024)
  /\ Mod(2048)
  /\ Mod(4096)
  /\ Mod(8192)
  /\ Mod(16384)
  /\ Mod(32768)
  /\ Mod(65536)
  /\ Mod(131072)
  /\ Mod(262144)
  /\ Mod(524288)
  /\ Mod(1048576)
  /\ Mod(2097152)
  /\ Mod(4194304)
  /\ Mod(8388608)
  /\ Mod(16777216)
  /\ Mod(33554432)
  /\ Mod(67108864)
  /\ Mod(134217728)
  /\ Mod(268435456)
  /\ Mod(536870912)
All == Sums /\ Rotations /\ Fields /\ Modulo
=============================================================================
