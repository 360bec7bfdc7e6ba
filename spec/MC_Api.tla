------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* The API machine itself, with the real functions, explored over all      *)
(* interleavings of short call sequences on several objects of each kind.  *)
(* hist[o] is the calls made on object o with their replies: C15 says the  *)
(* object's state and replies are what those calls alone produce.          *)
(***************************************************************************)
EXTENDS DumbCrypto
CONSTANTS Depth, Kinds

VARIABLES hist, steps
vars == << objs, hist, steps >>
K1 == Rep(16, 1)
K2 == Rep(24, 2)
Iv == Rep(16, 3)
B16 == Rep(16, 7)
\* two objects of each kind
Ids == {<< k, n >> : k \in Kinds, n \in 1..2}

Made(o) == CASE o[1] = "sha" -> [kind |-> "sha", st |-> Sha!Stream!New, spent |-> FALSE]
             [] o[1] = "hmac" -> [kind |-> "hmac", st |-> Mac!New(<<o[2]>>), spent |-> FALSE]
             [] o[1] = "aes" -> [kind |-> "aes", key |-> Cbc!NoKey]
             [] o[1] = "cipher" -> [kind |-> "cipher", st |-> {Cbc!CipherNew(Iv)}]
             [] o[1] = "decipher" -> [kind |-> "decipher", st |-> {Cbc!DecipherNew(Iv)}]
Calls(k) == CASE k \in {"sha", "hmac"} -> {<<"update", <<1>> >>, <<"update", Rep(64, 2)>>, <<"digest">>}
              [] k = "aes" -> {<<"init", K1>>, <<"init", <<1>> >>, <<"init", K2>>, <<"enc", B16>>, <<"dec", B16>>}
              [] OTHER -> {<<"init", K1>>, <<"init", <<1>> >>, <<"init", K2>>, <<"write", <<1>> >>, <<"write", B16>>, <<"flush">>}

\* what a call on an object record may answer, by itself
Outs(rec, call) ==
  IF rec.kind = "cipher"
  THEN UNION {IF call[1] = "write" THEN Cbc!CipherWrite(x, call[2]) ELSE Cbc!CipherFlush(x) : x \in rec.st}
  ELSE UNION {IF call[1] = "write" THEN Cbc!DecipherWrite(x, call[2]) ELSE Cbc!DecipherFlush(x) : x \in rec.st}
Replies(rec, call) ==
  CASE call[1] = "update" -> {Ok(<<>>)}
    [] call[1] = "digest" -> {Ok(IF rec.kind = "sha" THEN Sha!Stream!Digest(rec.st) ELSE Mac!Digest(rec.st))}
    [] call[1] = "init" -> {Cbc!InitReply(call[2])}
    [] call[1] \in {"enc", "dec"} ->
         {IF rec.key = Cbc!NoKey THEN Err("NotInitialized")
          ELSE Ok(IF call[1] = "enc" THEN AesF!Encrypt(rec.key, call[2]) ELSE AesF!Decrypt(rec.key, call[2]))}
    [] OTHER -> {x[1] : x \in Outs(rec, call)}
\* the record it leaves, having answered reply
Alone(rec, call, reply) ==
  CASE call[1] = "update" -> [rec EXCEPT !.st = IF rec.kind = "sha" THEN Sha!Stream!Update(@, call[2]) ELSE Mac!Update(@, call[2])]
    [] call[1] = "digest" -> [rec EXCEPT !.spent = TRUE]
    [] call[1] = "init" -> IF rec.kind = "aes" THEN Cbc!InitNext(rec, call[2])
                           ELSE [rec EXCEPT !.st = {Cbc!InitNext(x, call[2]) : x \in @}]
    [] call[1] \in {"enc", "dec"} -> rec
    [] OTHER -> [rec EXCEPT !.st = {x[2] : x \in {y \in Outs(rec, call) : y[1] = reply}}]

\* the API action for a call
Act(o, call, reply) ==
  CASE o[1] = "sha" /\ call[1] = "update" -> ShaUpdate(o, call[2])
    [] o[1] = "sha" /\ call[1] = "digest" -> ~ objs[o].spent /\ ShaDigest(o, reply)
    [] o[1] = "hmac" /\ call[1] = "update" -> HmacUpdate(o, call[2])
    [] o[1] = "hmac" /\ call[1] = "digest" -> ~ objs[o].spent /\ HmacDigest(o, reply)
    [] o[1] = "aes" /\ call[1] = "init" -> AesInit(o, call[2], reply)
    [] o[1] = "aes" /\ call[1] = "enc" -> AesEnc(o, call[2], reply)
    [] o[1] = "aes" /\ call[1] = "dec" -> AesDec(o, call[2], reply)
    [] o[1] = "cipher" /\ call[1] = "init" -> CbcInit(o, "cipher", call[2], reply)
    [] o[1] = "cipher" /\ call[1] = "write" -> CipherWrite(o, call[2], reply)
    [] o[1] = "cipher" /\ call[1] = "flush" -> CipherFlush(o, reply)
    [] o[1] = "decipher" /\ call[1] = "init" -> CbcInit(o, "decipher", call[2], reply)
    [] o[1] = "decipher" /\ call[1] = "write" -> DecipherWrite(o, call[2], reply)
    [] o[1] = "decipher" /\ call[1] = "flush" -> DecipherFlush(o, reply)

Init == objs = [o \in Ids |-> Made(o)] /\ hist = [o \in Ids |-> <<>>] /\ steps = 0
Call(o, call) ==
  /\ steps < Depth
  /\ \E reply \in Replies(objs[o], call) :
       Act(o, call, reply) /\ hist' = [hist EXCEPT ![o] = Append(@, << call, reply >>)]
  /\ steps' = steps + 1
Next == \E o \in Ids : \E call \in Calls(o[1]) : Call(o, call)
Spec == Init /\ [][Next]_vars

\* replaying an object's own calls from its creation gives its state and its replies
Replay(o) == FoldLeft(LAMBDA acc, h : << Alone(acc[1], h[1], h[2]), acc[2] /\ h[2] \in Replies(acc[1], h[1]) >>,
                      << Made(o), TRUE >>, hist[o])
\* the observer is never left without a state the object may be in, nor with many
MayBe == \A o \in Ids : o[1] \in {"cipher", "decipher"} => Cardinality(objs[o].st) \in 1..3
\* what an object holds does not grow
Small == \A o \in Ids : Holds(objs[o]) <= HoldsAtMost[o[1]]
OwnInputsOnly == \A o \in Ids : Replay(o) = << objs[o], TRUE >>
=============================================================================
