----------------------------- MODULE DumbCrypto -----------------------------
(***************************************************************************)
(* The whole public API as a state machine.                                *)
(*                                                                         *)
(* objs maps object identifiers to object states; each action is one       *)
(* public call together with the reply it may give.  Calls are atomic (the *)
(* library is sequential) and an action touches only its own object, which *)
(* is how non-interference (C15) is stated: the same machine describes     *)
(* calls on one object, interleaved calls on many, and threads.            *)
(*                                                                         *)
(* A reply is [r |-> "ok" or the error kind, out |-> byte string].  There  *)
(* is no action with r = "panic", so a panicking call is never allowed.    *)
(***************************************************************************)
EXTENDS Words, ScryptBounds

VARIABLE objs

Sha    == INSTANCE Sha256
Mac    == INSTANCE Hmac
AesF   == INSTANCE Aes
Salsa  == INSTANCE Salsa20
Kdf    == INSTANCE Pbkdf2 WITH HLen <- 32, Keyed <- Mac!New,
            Prf <- LAMBDA m, d : Mac!Digest(Mac!Update(m, d))
AesKeyOK(k) == Len(k) \in AesF!KeySizes
Cbc    == INSTANCE CbcStream WITH BL <- 16, KeyOK <- AesKeyOK, Sched <- AesF!Schedule,
            Enc <- AesF!Encrypt, Dec <- AesF!Decrypt

Ok(out) == Cbc!Ok(out)
Err(kind) == Cbc!Err(kind)

\* Integerify(block) mod N for N = 2^k <= 2^29, from the low 32 bits
IntMod(b, N) == WordMod(b[1], N)
Sc     == INSTANCE Scrypt WITH Mix <- LAMBDA b : Salsa!Core(b, 4), XorB <- Salsa!XorWords, IntMod <- IntMod

---------------------------------------------------------------------------
\* objects

Exists(o, kind) == o \in DOMAIN objs /\ objs[o].kind = kind
Create(o, rec) == objs' = (o :> rec) @@ objs
Become(o, rec) == objs' = [objs EXCEPT ![o] = rec]
Same == UNCHANGED objs

ShaNew(o) == Create(o, [kind |-> "sha", st |-> Sha!Stream!New, spent |-> FALSE])
ShaUpdate(o, data) ==
  /\ Exists(o, "sha")
  /\ Become(o, [objs[o] EXCEPT !.st = Sha!Stream!Update(@, data)])
ShaDigest(o, reply) ==
  /\ Exists(o, "sha")
  /\ reply.r = "ok"
  /\ IF objs[o].spent
     THEN Len(reply.out) = 32          \* a second digest is not specified, but it must return
     ELSE reply.out = Sha!Stream!Digest(objs[o].st)
  /\ Become(o, [objs[o] EXCEPT !.spent = TRUE])

HmacNew(o, key) == Create(o, [kind |-> "hmac", st |-> Mac!New(key), spent |-> FALSE])
HmacUpdate(o, data) ==
  /\ Exists(o, "hmac")
  /\ Become(o, [objs[o] EXCEPT !.st = Mac!Update(@, data)])
HmacDigest(o, reply) ==
  /\ Exists(o, "hmac")
  /\ reply.r = "ok"
  /\ IF objs[o].spent THEN Len(reply.out) = 32 ELSE reply.out = Mac!Digest(objs[o].st)
  /\ Become(o, [objs[o] EXCEPT !.spent = TRUE])

---------------------------------------------------------------------------
\* AES

AesNew(o) == Create(o, [kind |-> "aes", key |-> Cbc!NoKey])
AesInit(o, key, reply) ==
  /\ Exists(o, "aes")
  /\ reply = Cbc!InitReply(key)
  /\ Become(o, Cbc!InitNext(objs[o], key))
AesBlock(o, reply, F(_, _), block) ==
  /\ Exists(o, "aes")
  /\ reply = IF objs[o].key = Cbc!NoKey THEN Err("NotInitialized") ELSE Ok(F(objs[o].key, block))
  /\ Same
AesEnc(o, block, reply) == AesBlock(o, reply, AesF!Encrypt, block)
AesDec(o, block, reply) == AesBlock(o, reply, AesF!Decrypt, block)

---------------------------------------------------------------------------
\* Cipher and Decipher

\* st is the set of states the object may be in, given its replies so far
CipherNew(o, iv) == Create(o, [kind |-> "cipher", st |-> {Cbc!CipherNew(iv)}])
DecipherNew(o, iv) == Create(o, [kind |-> "decipher", st |-> {Cbc!DecipherNew(iv)}])

CbcInit(o, kind, key, reply) ==
  /\ Exists(o, kind)
  /\ reply = Cbc!InitReply(key)
  /\ Become(o, [objs[o] EXCEPT !.st = {Cbc!InitNext(s, key) : s \in @}])

CbcStep(o, kind, F(_), reply) ==
  /\ Exists(o, kind)
  /\ LET next == Cbc!After(objs[o].st, F, reply)
     IN  next # {} /\ Become(o, [objs[o] EXCEPT !.st = next])
CipherWrite(o, data, reply)   == CbcStep(o, "cipher", LAMBDA s : Cbc!CipherWrite(s, data), reply)
CipherFlush(o, reply)         == CbcStep(o, "cipher", Cbc!CipherFlush, reply)
DecipherWrite(o, data, reply) == CbcStep(o, "decipher", LAMBDA s : Cbc!DecipherWrite(s, data), reply)
DecipherFlush(o, reply)       == CbcStep(o, "decipher", Cbc!DecipherFlush, reply)

---------------------------------------------------------------------------
\* Bytes an object holds between calls, its key aside, and the most it ever does (MC_Api shows that).
Holds(rec) ==
  CASE rec.kind = "sha"      -> 32 + Len(rec.st.buf)
    [] rec.kind = "hmac"     -> 64 + Len(rec.st.inner.buf) + Len(rec.st.outer.buf)
    [] rec.kind = "aes"      -> 0
    [] rec.kind = "cipher"   -> 16 + CHOOSE n \in {Len(s.pend) : s \in rec.st} : \A s \in rec.st : Len(s.pend) <= n
    [] rec.kind = "decipher" -> 16 + CHOOSE n \in {Len(s.cpend) + Len(s.held) : s \in rec.st} :
                                         \A s \in rec.st : Len(s.cpend) + Len(s.held) <= n
HoldsAtMost == [sha |-> 95, hmac |-> 127, aes |-> 0, cipher |-> 31, decipher |-> 47]

---------------------------------------------------------------------------
\* stand-alone functions.  The output buffer is part of the call: every byte of it is written.

Pbkdf2(pw, salt, c, outLen, reply) ==
  /\ reply = Ok(Kdf!Derive(pw, salt, c, outLen))
  /\ Same

Salsa20(input, rounds, reply) ==
  /\ reply = Ok(Salsa!Salsa20(input, rounds))
  /\ Same

---------------------------------------------------------------------------
(***************************************************************************)
(* scrypt.  Parameters are 64-bit: sequences of four 16-bit limbs, most    *)
(* significant first; ScryptBounds says which are in range.                *)
(***************************************************************************)
ScryptMixed(r, n, p, raw) ==
  LET lane == 128 * r
      Lane(i) == TLCEval([k \in 1..(2 * r) |-> WordsLE(SubSeq(raw, (i-1)*lane + 64*(k-1) + 1, (i-1)*lane + 64*k))])
  IN  FoldLeft(LAMBDA acc, i :
                 LET m == Sc!ROMix(Lane(i), n)
                 IN  acc \o FoldLeft(LAMBDA b, blk : b \o FromWordsLE(blk), <<>>, m),
               <<>>, Idx(p))
ScryptKey(r, n, p, pw, salt, outLen) ==
  LET raw == Kdf!Derive(pw, salt, 1, 128 * r * p)
      mixed == ScryptMixed(r, n, p, raw)
  IN  Kdf!Derive(pw, mixed, 1, outLen)

\* before: the output buffer's earlier contents, which an error must leave in place.
\* Checked is FALSE for derivations too big to evaluate: then only acceptance is specified.
ScryptDerive(r, n, p, pw, salt, before, checked, reply) ==
  /\ IF ScryptErrors(r, n, p) # {}
     THEN reply.r \in ScryptErrors(r, n, p) /\ reply.out = before
     ELSE /\ reply.r = "ok"
          /\ Len(reply.out) = Len(before)
          /\ checked => reply.out = ScryptKey(IntOf(r), IntOf(n), IntOf(p), pw, salt, Len(before))
  /\ Same
=============================================================================
