-------------------------------- MODULE Hmac --------------------------------
(***************************************************************************)
(* HMAC-SHA256 (RFC 2104) as a streaming object: two hash streams primed   *)
(* with the padded key.  The caller feeds the inner one; Digest feeds the  *)
(* inner digest to the outer one.                                          *)
(***************************************************************************)
EXTENDS Words
S == INSTANCE Sha256

KeyBlock(k) ==
  LET short == IF Len(k) > S!BlockSize THEN S!Sha256(k) ELSE k
  IN  short \o Rep(S!BlockSize - Len(short), 0)

\* TLCEval: both streams are one compression each, evaluated once and not per use
New(k) == LET kb == TLCEval(KeyBlock(k))
          IN  TLCEval([inner |-> S!Stream!Update(S!Stream!New, XorConst(kb, 54)),
                       outer |-> S!Stream!Update(S!Stream!New, XorConst(kb, 92))])

Update(m, data) == [m EXCEPT !.inner = S!Stream!Update(@, data)]
Digest(m) == S!Stream!Digest(S!Stream!Update(m.outer, S!Stream!Digest(m.inner)))

Hmac(k, msg) == Digest(Update(New(k), msg))
=============================================================================
