------------------------------ MODULE SpecKat ------------------------------
(***************************************************************************)
(* The specification checked against the standards' own published vectors  *)
(* and against the algebra it must satisfy.  No implementation involved.   *)
(***************************************************************************)
EXTENDS DumbCrypto, TLCExt

Str(s) == s   \* byte strings are written out

abc == <<97, 98, 99>>
ASSUME ShaEmpty == Sha!Sha256(<<>>) =
  <<227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85>>
ASSUME ShaAbc == Sha!Sha256(abc) =
  <<186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173>>
\* RFC 4231 test case 2
ASSUME HmacJefe == Mac!Hmac(<<74,101,102,101>>,
   <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>) =
  <<91,220,193,70,191,96,117,78,106,4,36,38,8,149,117,199,90,0,63,8,157,39,57,131,157,236,88,185,100,236,56,67>>
\* FIPS 197 appendix C
Seq0(n) == [i \in 1..n |-> i - 1]
PT == [i \in 1..16 |-> (i - 1) * 17]
ASSUME Aes128 == AesF!Encrypt(AesF!Schedule(Seq0(16)), PT) = <<105,196,224,216,106,123,4,48,216,205,183,128,112,180,197,90>>
ASSUME Aes192 == AesF!Encrypt(AesF!Schedule(Seq0(24)), PT) = <<221,169,124,164,134,76,223,224,110,175,112,160,236,13,113,145>>
ASSUME Aes256 == AesF!Encrypt(AesF!Schedule(Seq0(32)), PT) = <<142,162,183,202,81,103,69,191,234,252,73,144,75,73,96,137>>
ASSUME AesInv == \A n \in AesF!KeySizes :
  LET rk == AesF!Schedule(Seq0(n)) IN AesF!Decrypt(rk, AesF!Encrypt(rk, PT)) = PT /\ AesF!Encrypt(rk, AesF!Decrypt(rk, PT)) = PT
\* steps of the cipher are bijections, so Decrypt inverts Encrypt for every key and block
ASSUME SBoxFips == AesF!SBox[1] = 99 /\ AesF!SBox[84] = 237 /\ AesF!SBox[256] = 22
ASSUME SBoxBijective == {AesF!SBox[i] : i \in 1..256} = 0..255
ASSUME SBoxInverse == \A i \in 1..256 : AesF!InvSBox[AesF!SBox[i] + 1] = i - 1 /\ AesF!SBox[AesF!InvSBox[i] + 1] = i - 1
\* MixColumns is linear and InvMixColumns inverts it on a basis, hence everywhere
Unit(k, v) == [i \in 1..4 |-> IF i = k THEN v ELSE 0]
MC4(c) == AesF!MixCol(c[1], c[2], c[3], c[4])
IMC4(c) == AesF!InvMixCol(c[1], c[2], c[3], c[4])
ASSUME MixInverse == \A k \in 1..4 : \A v \in 0..255 : IMC4(MC4(Unit(k, v))) = Unit(k, v) /\ MC4(IMC4(Unit(k, v))) = Unit(k, v)
ASSUME MulLinear == \A a \in 0..255 : \A j \in 0..7 :
  /\ AesF!X2[(a ^^ (2^j)) + 1]  = AesF!X2[a+1]  ^^ AesF!X2[2^j + 1]
  /\ AesF!X3[(a ^^ (2^j)) + 1]  = AesF!X3[a+1]  ^^ AesF!X3[2^j + 1]
  /\ AesF!X9[(a ^^ (2^j)) + 1]  = AesF!X9[a+1]  ^^ AesF!X9[2^j + 1]
  /\ AesF!X11[(a ^^ (2^j)) + 1] = AesF!X11[a+1] ^^ AesF!X11[2^j + 1]
  /\ AesF!X13[(a ^^ (2^j)) + 1] = AesF!X13[a+1] ^^ AesF!X13[2^j + 1]
  /\ AesF!X14[(a ^^ (2^j)) + 1] = AesF!X14[a+1] ^^ AesF!X14[2^j + 1]
\* Salsa20 specification, section 8, first and second examples
SalsaIn2 == <<211,159,13,115,76,55,82,183,3,117,222,37,191,187,234,136,49,237,179,48,1,106,178,219,175,199,166,48,86,16,179,207,
  31,240,32,63,15,83,93,161,116,147,48,113,238,55,204,36,79,201,235,79,3,81,156,47,203,26,244,243,88,118,104,54>>
SalsaOut2 == <<109,42,178,168,156,240,248,238,168,196,190,203,26,110,170,154,29,29,150,26,150,30,235,249,190,163,251,48,69,144,51,57,
  118,40,152,157,180,57,27,94,107,42,236,35,27,111,114,114,219,236,232,135,111,155,110,18,24,232,95,158,179,19,48,202>>
ASSUME SalsaKat == Salsa!Salsa20(SalsaIn2, 10) = SalsaOut2
ASSUME SubWordsOK == LET x == WordsLE(SalsaIn2) IN Salsa!SubWords(Salsa!Core(x, 3), x) = Salsa!Rounds(x, 3)
\* RFC 7914 section 11 (first 64 bytes of PBKDF2 "passwd"/"salt"/1) and section 12 (N = 16, r = 1, p = 1)
ASSUME PbkdfKat == Take(Kdf!Derive(<<112,97,115,115,119,100>>, <<115,97,108,116>>, 1, 64), 8) = <<85,172,4,110,86,227,8,159>>
ASSUME ScryptKat == Take(ScryptKey(1, 16, 1, <<>>, <<>>, 64), 16) = <<119,214,87,98,56,101,123,32,59,25,202,66,193,138,4,151>>
\* parameter predicates at their edges
L(a,b,c,d) == <<a,b,c,d>>
ASSUME Params ==
  /\ ScryptErrors(L(0,0,0,1), L(0,0,0,2), L(0,0,0,1)) = {}
  /\ ScryptErrors(L(0,0,0,1), L(0,0,0,32768), L(0,0,16383,65535)) = {}
  /\ ScryptErrors(L(0,0,0,1), L(0,0,1,0), L(0,0,0,1)) = {"NIsTooLarge"}
  /\ ScryptErrors(L(0,0,0,2), L(0,0,32768,0), L(0,0,0,1)) = {}
  /\ ScryptErrors(L(0,0,0,3), L(1,0,0,0), L(0,0,0,1)) = {"NIsTooLarge"}
  /\ ScryptErrors(L(0,0,0,4), L(32768,0,0,0), L(0,0,0,1)) = {}
  /\ ScryptErrors(L(0,0,0,1), L(0,0,0,2), L(0,0,16384,0)) = {"PIsTooLarge"}
  /\ ScryptErrors(L(0,0,16384,0), L(0,0,0,2), L(0,0,0,1)) = {"PIsTooLarge"}
  /\ ScryptErrors(L(0,0,0,0), L(0,0,0,0), L(0,0,0,0)) = {"RIsTooSmall", "NIsTooSmall", "NIsTooLarge", "PIsTooSmall"} \ {"NIsTooLarge"}
  /\ ScryptErrors(L(0,0,0,8), L(0,0,0,24), L(0,0,0,1)) = {"NIsNotAPowerOfTwo"}
\* BitField: 2^29 bytes = 2^23 blocks has bit count 2^32
ASSUME BitFieldOK ==
  /\ Sha!BitField(8388608, 0) = <<0,0,0,1,0,0,0,0>>
  /\ Sha!BitField(0, 56) = <<0,0,0,0,0,0,1,192>>
  /\ Sha!BitField(3, 63) = <<0,0,0,0,0,0,7,248>>
  /\ Sha!BitField(8388607, 63) = <<0,0,0,0,255,255,255,248>>

Init == objs = <<>>
Next == UNCHANGED objs
=============================================================================
