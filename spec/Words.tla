------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Bytes and 32-bit words.                                                 *)
(*                                                                         *)
(* A byte string is a sequence of integers 0..255.  A 32-bit word is a     *)
(* pair <<hi, lo>> of 16-bit halves: TLC's integers are 32-bit signed, so  *)
(* a word never fits one of them, while every intermediate value below     *)
(* stays under 2^31.                                                       *)
(***************************************************************************)
EXTENDS Arith, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

Idx(n) == [i \in 1..n |-> i]             \* <<1, 2, ..., n>>
Rep(n, v) == [i \in 1..n |-> v]          \* n copies of v
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Xor3(a, b, c) == (a ^^ b) ^^ c
XorBytes(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
XorConst(a, k) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ k])

Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>

---------------------------------------------------------------------------
\* byte <-> word conversions; i is the index of the first of the four bytes

WordBE(b, i) == << b[i] * 256 + b[i+1], b[i+2] * 256 + b[i+3] >>
WordLE(b, i) == << b[i+3] * 256 + b[i+2], b[i+1] * 256 + b[i] >>
BytesBE(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>
BytesLE(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>

WordsBE(b) == TLCEval([i \in 1..(Len(b) \div 4) |-> WordBE(b, 4 * i - 3)])
WordsLE(b) == TLCEval([i \in 1..(Len(b) \div 4) |-> WordLE(b, 4 * i - 3)])
FromWordsBE(ws) == TLCEval([i \in 1..(4 * Len(ws)) |-> BytesBE(ws[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]])
FromWordsLE(ws) == TLCEval([i \in 1..(4 * Len(ws)) |-> BytesLE(ws[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]])
=============================================================================
