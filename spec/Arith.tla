------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Arithmetic on numbers that TLC's 32-bit integers do not hold.  A 32-bit *)
(* word is a pair <<hi, lo>> of 16-bit halves; every intermediate value    *)
(* stays below 2^31.  MC_Arith says, for all arguments, that these are the *)
(* operations they are named after.                                        *)
(***************************************************************************)
EXTENDS Integers

HALF == 65536

\* addition modulo 2^32
\* @type: (<<Int, Int>>, <<Int, Int>>) => <<Int, Int>>;
Add2(a, b) == LET l == a[2] + b[2]
              IN  << (a[1] + b[1] + (l \div HALF)) % HALF, l % HALF >>
\* @type: (<<Int, Int>>, <<Int, Int>>, <<Int, Int>>, <<Int, Int>>) => <<Int, Int>>;
Add4(a, b, c, d) == LET l == a[2] + b[2] + c[2] + d[2]
                    IN  << (a[1] + b[1] + c[1] + d[1] + (l \div HALF)) % HALF, l % HALF >>
\* @type: (<<Int, Int>>, <<Int, Int>>, <<Int, Int>>, <<Int, Int>>, <<Int, Int>>) => <<Int, Int>>;
Add5(a, b, c, d, e) == LET l == a[2] + b[2] + c[2] + d[2] + e[2]
                       IN  << (a[1] + b[1] + c[1] + d[1] + e[1] + (l \div HALF)) % HALF, l % HALF >>

\* One half of a rotation right by n < 16: `same` is that half, `other` the other one,
\* p = 2^n, q = 2^(16-n).  (For n >= 16 the caller swaps the halves and uses n - 16.)
\* @type: (Int, Int, Int, Int) => Int;
RotHalf(same, other, p, q) == (same \div p) + (other % p) * q

\* rotate left by n < 16, p = 2^n, q = 2^(16-n)
\* @type: (<<Int, Int>>, Int, Int) => <<Int, Int>>;
RotL(x, p, q) == << ((x[1] * p) % HALF) + (x[2] \div q), ((x[2] * p) % HALF) + (x[1] \div q) >>

\* The 64-bit big-endian bit count of a message of nblk < 2^31 whole blocks of 64 bytes and `rest` < 64
\* further bytes: 512 * nblk + 8 * rest
\* @type: (Int, Int) => Seq(Int);
BitField(nblk, rest) ==
  << 0, 0, 0,
     (nblk \div 8388608) % 256,
     (nblk \div 32768) % 256,
     (nblk \div 128) % 256,
     2 * (nblk % 128) + ((8 * rest) \div 256),
     (8 * rest) % 256 >>

\* 32-bit big-endian
\* @type: (Int) => Seq(Int);
IntBE(i) == << (i \div 16777216) % 256, (i \div 65536) % 256, (i \div 256) % 256, i % 256 >>

\* a word modulo N = 2^k, k <= 29
\* @type: (<<Int, Int>>, Int) => Int;
WordMod(w, N) == (w[1] % (IF N <= HALF THEN 1 ELSE N \div HALF)) * HALF + (IF N <= HALF THEN w[2] % N ELSE w[2])
=============================================================================
