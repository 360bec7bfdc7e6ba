------------------------------ MODULE Salsa20 ------------------------------
(***************************************************************************)
(* The Salsa20 core (Bernstein, "Salsa20 specification").                  *)
(***************************************************************************)
EXTENDS Words

\* b xor ((x + y) <<< n), n < 16 given by p = 2^n, q = 2^(16-n); 18 exchanges halves and rotates by 2
ARX(b, x, y, p, q) == Xor2(b, RotL(Add2(x, y), p, q))
ARX18(b, x, y) == LET s == Add2(x, y) IN Xor2(b, RotL(<< s[2], s[1] >>, 4, 16384))

QuarterRound(y0, y1, y2, y3) ==
  LET z1 == ARX(y1, y0, y3, 128, 512)         \* <<< 7
      z2 == ARX(y2, z1, y0, 512, 128)         \* <<< 9
      z3 == ARX(y3, z2, z1, 8192, 8)          \* <<< 13
      z0 == ARX18(y0, z3, z2)                 \* <<< 18
  IN  << z0, z1, z2, z3 >>

\* x, y are 16-tuples: x[i+1] is the specification's x_i
RowRound(y) ==
  LET a == QuarterRound(y[1], y[2], y[3], y[4])
      b == QuarterRound(y[6], y[7], y[8], y[5])
      c == QuarterRound(y[11], y[12], y[9], y[10])
      d == QuarterRound(y[16], y[13], y[14], y[15])
  IN  << a[1], a[2], a[3], a[4],  b[4], b[1], b[2], b[3],
         c[3], c[4], c[1], c[2],  d[2], d[3], d[4], d[1] >>

ColumnRound(x) ==
  LET a == QuarterRound(x[1], x[5], x[9], x[13])
      b == QuarterRound(x[6], x[10], x[14], x[2])
      c == QuarterRound(x[11], x[15], x[3], x[7])
      d == QuarterRound(x[16], x[4], x[8], x[12])
  IN  << a[1], b[4], c[3], d[2],  a[2], b[1], c[4], d[3],
         a[3], b[2], c[1], d[4],  a[4], b[3], c[2], d[1] >>

DoubleRound(x) == RowRound(ColumnRound(x))

AddWords(x, z) == TLCEval([i \in 1..16 |-> Add2(x[i], z[i])])
XorWords(x, z) == TLCEval([i \in 1..16 |-> Xor2(x[i], z[i])])
\* z - x, word by word: recovers the rounds' result from an output
SubWords(z, x) == TLCEval([i \in 1..16 |->
   LET l == z[i][2] - x[i][2]
   IN  << (z[i][1] - x[i][1] + (IF l < 0 THEN -1 ELSE 0)) % HALF, l % HALF >>])

Rounds(x, n) == FoldLeft(LAMBDA z, i : DoubleRound(z), x, Idx(n))

\* on words: x + doubleround^n(x)
Core(x, n) == AddWords(x, Rounds(x, n))

\* the public function: every 64-byte block of the input separately
Salsa20(bytes, n) ==
  FoldLeft(LAMBDA acc, k : acc \o FromWordsLE(Core(WordsLE(SubSeq(bytes, 64*(k-1)+1, 64*k)), n)),
           <<>>, Idx(Len(bytes) \div 64))
=============================================================================
