--------------------------------- MODULE Aes ---------------------------------
(***************************************************************************)
(* AES (FIPS 197).  The S-box is derived from its algebraic definition     *)
(* (inverse in GF(2^8) followed by the affine map), not transcribed.       *)
(* A state is a 16-tuple in FIPS byte order: byte 4c+r+1 is row r, col c.  *)
(***************************************************************************)
EXTENDS Words

BlockSize == 16
KeySizes == {16, 24, 32}
NumRounds(keyLen) == keyLen \div 4 + 6

Byte0 == 0..255

XTime(b) == IF b < 128 THEN 2 * b ELSE (2 * b - 256) ^^ 27

\* product in GF(2^8)
GMul(a, b) ==
  FoldLeft(LAMBDA acc, k : LET bit == (b \div (2^k)) % 2
                           IN  << XTime(acc[1]), IF bit = 1 THEN acc[2] ^^ acc[1] ELSE acc[2] >>,
           << a, 0 >>, <<0,1,2,3,4,5,6,7>>)[2]

\* multiplicative inverse as a^254 (0 for 0)
GInv(a) == LET a2 == GMul(a, a)
               a4 == GMul(a2, a2)
               a8 == GMul(a4, a4)
               a16 == GMul(a8, a8)
               a32 == GMul(a16, a16)
               a64 == GMul(a32, a32)
               a128 == GMul(a64, a64)
           IN GMul(GMul(GMul(GMul(GMul(GMul(a2, a4), a8), a16), a32), a64), a128)

RotByte(b, n) == ((b * (2^n)) % 256) + (b \div (2^(8 - n)))
Affine(b) == Xor3(Xor3(b, RotByte(b, 1), RotByte(b, 2)), RotByte(b, 3), RotByte(b, 4)) ^^ 99

\* tables are tuples indexed by value + 1
SBox    == TLCEval([i \in 1..256 |-> Affine(GInv(i - 1))])
InvSBox == TLCEval([i \in 1..256 |-> (CHOOSE j \in 1..256 : SBox[j] = i - 1) - 1])
X2  == TLCEval([i \in 1..256 |-> GMul(i - 1, 2)])
X3  == TLCEval([i \in 1..256 |-> GMul(i - 1, 3)])
X9  == TLCEval([i \in 1..256 |-> GMul(i - 1, 9)])
X11 == TLCEval([i \in 1..256 |-> GMul(i - 1, 11)])
X13 == TLCEval([i \in 1..256 |-> GMul(i - 1, 13)])
X14 == TLCEval([i \in 1..256 |-> GMul(i - 1, 14)])

---------------------------------------------------------------------------
\* key schedule: sequence of NumRounds+1 round keys of 16 bytes

SubWord(w) == << SBox[w[1]+1], SBox[w[2]+1], SBox[w[3]+1], SBox[w[4]+1] >>
RotWord(w) == << w[2], w[3], w[4], w[1] >>
XorWord(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>

\* x^(i-1) in GF(2^8)
RECURSIVE RconByte(_)
RconByte(i) == IF i = 1 THEN 1 ELSE XTime(RconByte(i - 1))

NextWord(w, i, nk) ==          \* w holds words 0..i-1
  LET prev == w[i]
      temp == IF i % nk = 0
              THEN LET s == SubWord(RotWord(prev))
                   IN  << s[1] ^^ RconByte(i \div nk), s[2], s[3], s[4] >>
              ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(prev) ELSE prev
  IN  XorWord(w[i - nk + 1], temp)

KeyWords(key) ==
  LET nk == Len(key) \div 4
      total == 4 * (NumRounds(Len(key)) + 1)
      w0 == TLCEval([i \in 1..nk |-> SubSeq(key, 4*i - 3, 4*i)])
  IN  FoldLeft(LAMBDA w, i : Append(w, NextWord(w, i, nk)), w0,
               [i \in 1..(total - nk) |-> nk + i - 1])

Schedule(key) ==
  LET w == KeyWords(key)
  IN  TLCEval([r \in 1..(Len(w) \div 4) |-> w[4*r-3] \o w[4*r-2] \o w[4*r-1] \o w[4*r]])

---------------------------------------------------------------------------
\* rounds

\* SubBytes then ShiftRows: row r of column c comes from column c+r
SubShift(s) ==
  << SBox[s[1]+1],  SBox[s[6]+1],  SBox[s[11]+1], SBox[s[16]+1],
     SBox[s[5]+1],  SBox[s[10]+1], SBox[s[15]+1], SBox[s[4]+1],
     SBox[s[9]+1],  SBox[s[14]+1], SBox[s[3]+1],  SBox[s[8]+1],
     SBox[s[13]+1], SBox[s[2]+1],  SBox[s[7]+1],  SBox[s[12]+1] >>

InvSubShift(s) ==
  << InvSBox[s[1]+1],  InvSBox[s[14]+1], InvSBox[s[11]+1], InvSBox[s[8]+1],
     InvSBox[s[5]+1],  InvSBox[s[2]+1],  InvSBox[s[15]+1], InvSBox[s[12]+1],
     InvSBox[s[9]+1],  InvSBox[s[6]+1],  InvSBox[s[3]+1],  InvSBox[s[16]+1],
     InvSBox[s[13]+1], InvSBox[s[10]+1], InvSBox[s[7]+1],  InvSBox[s[4]+1] >>

MixCol(a, b, c, d) ==
  << (X2[a+1] ^^ X3[b+1]) ^^ (c ^^ d),  (X2[b+1] ^^ X3[c+1]) ^^ (d ^^ a),
     (X2[c+1] ^^ X3[d+1]) ^^ (a ^^ b),  (X2[d+1] ^^ X3[a+1]) ^^ (b ^^ c) >>
InvMixCol(a, b, c, d) ==
  << (X14[a+1] ^^ X11[b+1]) ^^ (X13[c+1] ^^ X9[d+1]),  (X14[b+1] ^^ X11[c+1]) ^^ (X13[d+1] ^^ X9[a+1]),
     (X14[c+1] ^^ X11[d+1]) ^^ (X13[a+1] ^^ X9[b+1]),  (X14[d+1] ^^ X11[a+1]) ^^ (X13[b+1] ^^ X9[c+1]) >>

MixColumns(s) == MixCol(s[1],s[2],s[3],s[4]) \o MixCol(s[5],s[6],s[7],s[8])
                 \o MixCol(s[9],s[10],s[11],s[12]) \o MixCol(s[13],s[14],s[15],s[16])
InvMixColumns(s) == InvMixCol(s[1],s[2],s[3],s[4]) \o InvMixCol(s[5],s[6],s[7],s[8])
                    \o InvMixCol(s[9],s[10],s[11],s[12]) \o InvMixCol(s[13],s[14],s[15],s[16])

\* rk is a key schedule
Encrypt(rk, block) ==
  LET nr == Len(rk) - 1
      s0 == XorBytes(block, rk[1])
      s1 == FoldLeft(LAMBDA s, r : XorBytes(MixColumns(SubShift(s)), rk[r + 1]), s0, Idx(nr - 1))
  IN  XorBytes(SubShift(s1), rk[nr + 1])

Decrypt(rk, block) ==
  LET nr == Len(rk) - 1
      s0 == XorBytes(block, rk[nr + 1])
      s1 == FoldLeft(LAMBDA s, k : InvMixColumns(XorBytes(InvSubShift(s), rk[nr + 1 - k])), s0, Idx(nr - 1))
  IN  XorBytes(InvSubShift(s1), rk[1])
=============================================================================
