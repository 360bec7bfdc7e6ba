------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4, RFC 6234): the compression function, and the       *)
(* streaming object as an instance of HashStream with 64-byte blocks and   *)
(* an 8-byte bit count.                                                    *)
(***************************************************************************)
EXTENDS Words

BlockSize == 64
DigestSize == 32

\* first 32 bits of the fractional parts of the cube roots of the first 64 primes
K == <<<<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
     <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
     <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
     <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
     <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
     <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
     <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
     <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
     <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
     <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
     <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
     <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
     <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
     <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
     <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
     <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>

\* ... and of the square roots of the first 8 primes
H0 == <<<<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
     <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>

\* ROTR and SHR on halves: a rotation by n >= 16 exchanges the halves first
BSIG0(x) == LET h == x[1] l == x[2] IN     \* ROTR 2, 13, 22
  << Xor3(RotHalf(h,l,4,16384), RotHalf(h,l,8192,8), RotHalf(l,h,64,1024)),
     Xor3(RotHalf(l,h,4,16384), RotHalf(l,h,8192,8), RotHalf(h,l,64,1024)) >>
BSIG1(x) == LET h == x[1] l == x[2] IN     \* ROTR 6, 11, 25
  << Xor3(RotHalf(h,l,64,1024), RotHalf(h,l,2048,32), RotHalf(l,h,512,128)),
     Xor3(RotHalf(l,h,64,1024), RotHalf(l,h,2048,32), RotHalf(h,l,512,128)) >>
SSIG0(x) == LET h == x[1] l == x[2] IN     \* ROTR 7, 18, SHR 3
  << Xor3(RotHalf(h,l,128,512), RotHalf(l,h,4,16384), h \div 8),
     Xor3(RotHalf(l,h,128,512), RotHalf(h,l,4,16384), RotHalf(l,h,8,8192)) >>
SSIG1(x) == LET h == x[1] l == x[2] IN     \* ROTR 17, 19, SHR 10
  << Xor3(RotHalf(l,h,2,32768), RotHalf(l,h,8,8192), h \div 1024),
     Xor3(RotHalf(h,l,2,32768), RotHalf(h,l,8,8192), RotHalf(l,h,1024,64)) >>

CH(x,y,z)  == << (x[1] & y[1]) ^^ ((65535 - x[1]) & z[1]),
                 (x[2] & y[2]) ^^ ((65535 - x[2]) & z[2]) >>
MAJ(x,y,z) == << Xor3(x[1] & y[1], x[1] & z[1], y[1] & z[1]),
                 Xor3(x[2] & y[2], x[2] & z[2], y[2] & z[2]) >>

T48 == Idx(48)
T64 == Idx(64)

\* message schedule W(1..64) from the 16 words of a block (TLA+ indices start at 1)
Schedule(m) ==
  FoldLeft(LAMBDA w, i : Append(w, Add4(SSIG1(w[i+14]), w[i+9], SSIG0(w[i+1]), w[i])), m, T48)

Round(s, k, w) ==
  LET t1 == Add5(s[8], BSIG1(s[5]), CH(s[5], s[6], s[7]), k, w)
      t2 == Add2(BSIG0(s[1]), MAJ(s[1], s[2], s[3]))
  IN  << Add2(t1, t2), s[1], s[2], s[3], Add2(s[4], t1), s[5], s[6], s[7] >>

\* one application of the compression function to a 64-byte block
Compress(h, block) ==
  LET w == Schedule(WordsBE(block))
      r == FoldLeft(LAMBDA s, t : Round(s, K[t], w[t]), h, T64)
  IN  << Add2(h[1], r[1]), Add2(h[2], r[2]), Add2(h[3], r[3]), Add2(h[4], r[4]),
         Add2(h[5], r[5]), Add2(h[6], r[6]), Add2(h[7], r[7]), Add2(h[8], r[8]) >>

Stream == INSTANCE HashStream WITH BL <- BlockSize, LenBytes <- 8, Iv <- H0,
            Compress <- Compress, LenField <- BitField, Out <- FromWordsBE

Sha256(m) == Stream!Digest(Stream!Update(Stream!New, m))
=============================================================================
