-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is each recorded session of the real crate a          *)
(* behaviour of DumbCrypto?                                                *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one JSON object    *)
(* per line: [sid, ev], ev being the session's events in order.  Each      *)
(* event names the call, its arguments and the reply.  A session starts in *)
(* an initial state of its own (tid), so TLC's workers check sessions in   *)
(* parallel.  An event that no action explains leaves its session without  *)
(* a successor: TLC reports a deadlock, whose last state is (tid, l).      *)
(* A session explained to its end stutters in Done, which is no deadlock.  *)
(***************************************************************************)
EXTENDS DumbCrypto, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l
vars == << objs, tid, l >>

TraceInit == objs = <<>> /\ l = 1 /\ tid \in 1..Len(Log)

Ev == Log[tid].ev[l]
More == l <= Len(Log[tid].ev)
Is(op) == Ev.op = op
Reply == [r |-> Ev.r, out |-> Ev.out]
Returned == Ev.r = "ok"

---------------------------------------------------------------------------
\* single calls

Call ==
  \/ Is("sha.new")        /\ Returned /\ ShaNew(Ev.o)
  \/ Is("sha.update")     /\ Returned /\ ShaUpdate(Ev.o, Ev.data)
  \/ Is("sha.digest")     /\ ShaDigest(Ev.o, Reply)
  \/ Is("hmac.new")       /\ Returned /\ HmacNew(Ev.o, Ev.key)
  \/ Is("hmac.update")    /\ Returned /\ HmacUpdate(Ev.o, Ev.data)
  \/ Is("hmac.digest")    /\ HmacDigest(Ev.o, Reply)
  \/ Is("aes.new")        /\ Returned /\ AesNew(Ev.o)
  \/ Is("aes.init")       /\ AesInit(Ev.o, Ev.key, Reply)
  \/ Is("aes.enc")        /\ AesEnc(Ev.o, Ev.data, Reply)
  \/ Is("aes.dec")        /\ AesDec(Ev.o, Ev.data, Reply)
  \/ Is("cipher.new")     /\ Returned /\ CipherNew(Ev.o, Ev.iv)
  \/ Is("cipher.init")    /\ CbcInit(Ev.o, "cipher", Ev.key, Reply)
  \/ Is("cipher.write")   /\ CipherWrite(Ev.o, Ev.data, Reply)
  \/ Is("cipher.flush")   /\ CipherFlush(Ev.o, Reply)
  \/ Is("decipher.new")   /\ Returned /\ DecipherNew(Ev.o, Ev.iv)
  \/ Is("decipher.init")  /\ CbcInit(Ev.o, "decipher", Ev.key, Reply)
  \/ Is("decipher.write") /\ DecipherWrite(Ev.o, Ev.data, Reply)
  \/ Is("decipher.flush") /\ DecipherFlush(Ev.o, Reply)
  \/ Is("pbkdf2")         /\ Pbkdf2(Ev.pw, Ev.salt, Ev.c, Ev.len, Reply)
  \/ Is("salsa20")        /\ Salsa20(Ev.data, Ev.n, Reply)
  \/ Is("scrypt")         /\ ScryptDerive(Ev.rr, Ev.nn, Ev.pp, Ev.pw, Ev.salt, Ev.before, Ev.checked = 1, Reply)

---------------------------------------------------------------------------
(***************************************************************************)
(* Classes: many executions that the specification maps to one outcome     *)
(* (the same bytes fed in different pieces).  The event carries the set of *)
(* outcomes seen, as a list without repetition; it must be the one         *)
(* specified.                                                              *)
(***************************************************************************)
Keyed(st, k) == Cbc!InitNext(st, k)
WholeCipher(k, iv, m) ==
  LET w == Cbc!The(Cbc!CipherWrite(Keyed(Cbc!CipherNew(iv), k), m))
      f == Cbc!The(Cbc!CipherFlush(w[2]))
  IN  [r |-> f[1].r, out |-> w[1].out \o f[1].out]
WholeDecipher(k, iv, c) ==
  LET w == Cbc!The(Cbc!DecipherWrite(Keyed(Cbc!DecipherNew(iv), k), c))
      f == Cbc!The(Cbc!DecipherFlush(w[2]))
  IN  [r |-> f[1].r, out |-> w[1].out \o f[1].out]

ClassOf(want) == Returned /\ Ev.outs = << want >> /\ Same
Class ==
  \/ Is("sha.class")      /\ ClassOf(Ok(Sha!Sha256(Ev.data)))
  \/ Is("hmac.class")     /\ ClassOf(Ok(Mac!Hmac(Ev.key, Ev.data)))
  \/ Is("cipher.class")   /\ ClassOf(WholeCipher(Ev.key, Ev.iv, Ev.data))
  \/ Is("decipher.class") /\ ClassOf(WholeDecipher(Ev.key, Ev.iv, Ev.data))
  \* outputs of all lengths 0..len are prefixes of the longest one; bad lists the lengths that are not
  \/ Is("pbkdf2.prefix")  /\ Pbkdf2(Ev.pw, Ev.salt, Ev.c, Ev.len, Reply) /\ Ev.bad = <<>>
  \* D(E(b)) = b and E(D(b)) = b under one key, SpecKat!AesInv and the step inverses; bad lists exceptions
  \/ Is("aes.law")        /\ Returned /\ AesKeyOK(Ev.key) /\ Ev.bad = <<>> /\ Same

---------------------------------------------------------------------------
(***************************************************************************)
(* Inductive observations: computations too long to evaluate, observed at  *)
(* two consecutive points from which the abstract state is recovered; the  *)
(* one step between them must be the specification's.                      *)
(***************************************************************************)
\* A digest d1 of a message of nblk blocks and rest bytes IS the chaining value after the
\* message and its padding.  So the digest d2 of message, padding, tail is determined by d1.
ShaBulk ==
  /\ Is("sha.bulk") /\ Returned
  /\ Ev.pad = Sha!Stream!PaddingFor(Ev.nblk, Ev.rest)
  /\ Len(Ev.d1) = 1             \* one outcome, whatever the pieces
  /\ LET st == [h |-> WordsBE(Ev.d1[1]), nblk |-> Ev.nblk + ((Ev.rest + Len(Ev.pad)) \div 64), buf |-> <<>>]
     IN  Ev.d2 = Sha!Stream!Digest(Sha!Stream!Update(st, Ev.tail))
  \* an independent computation (wit), whose sampled steps are compressions, ends in the same digest
  /\ \A k \in 1..Len(Ev.wit) : Ev.wit[k] = Ev.d1[1]
  /\ \A k \in 1..Len(Ev.steps) : FromWordsBE(Sha!Compress(WordsBE(Ev.steps[k].h), Ev.steps[k].b)) = Ev.steps[k].n
  /\ Same
\* din is the digest of (key block xor ipad) followed by the message, by the witness of sha.bulk
HmacBulk ==
  /\ Is("hmac.bulk") /\ Returned
  /\ Ev.ipad = XorConst(Mac!KeyBlock(Ev.key), 54)
  /\ Ev.outs = << Ok(Sha!Sha256(XorConst(Mac!KeyBlock(Ev.key), 92) \o Ev.din)) >>
  /\ Same
\* blocks of a long derived key, each given by its index: chosen ones (blk) and those an independent
\* computation of every block does not share (bad)
PbkdfBlocks ==
  /\ Is("pbkdf2.blocks") /\ Returned
  /\ LET kp == Mac!New(Ev.pw)
         Right(x) == x.b = Take(Kdf!F(kp, Ev.salt, Ev.c, x.i), Len(x.b))
     IN  /\ \A k \in 1..Len(Ev.bad) : Right(Ev.bad[k])
         /\ \A k \in 1..Len(Ev.blk) : Right(Ev.blk[k])
  /\ Same
\* T after c-1, c and c+1 iterations: U_c and U_{c+1} are the differences
PbkdfSteps ==
  /\ Is("pbkdf2.steps") /\ Returned
  /\ LET kp == Mac!New(Ev.pw)
     IN  \A k \in 1..Len(Ev.steps) :
           LET s == Ev.steps[k]
           IN  Kdf!NextU(kp, XorBytes(s.a, s.b)) = XorBytes(s.b, s.c)
  /\ Same
\* a key after many iterations is the one of an independent computation; its sampled steps, the first
\* of each block among them, are the specification's
PbkdfWitness ==
  /\ Is("pbkdf2.witness") /\ Returned
  /\ Ev.out = Ev.wit
  /\ LET kp == Mac!New(Ev.pw)
     IN  \A k \in 1..Len(Ev.steps) :
           LET s == Ev.steps[k]
           IN  /\ s.j = 1 => s.u = Kdf!FirstU(kp, Ev.salt, s.i)
               /\ Kdf!NextU(kp, s.u) = s.v
  /\ Same
\* output - input is the state after n double-rounds, and n rounds give what an independent
\* computation gives, whose ends and sampled steps are the specification's
SalsaSteps ==
  /\ Is("salsa.steps") /\ Returned
  /\ LET x == WordsLE(Ev.data)
     IN  \A k \in 1..Len(Ev.steps) :
           LET s == Ev.steps[k]
               w == s.ws
           IN  /\ Salsa!DoubleRound(Salsa!SubWords(WordsLE(s.a), x)) = Salsa!SubWords(WordsLE(s.b), x)
               /\ s.a = s.wit
               /\ \A j \in 1..Len(w) : Salsa!DoubleRound(WordsLE(w[j].u)) = WordsLE(w[j].v)
               /\ IF w = <<>> THEN s.n = "0" /\ WordsLE(s.a) = Salsa!AddWords(x, x)
                  ELSE w[1].u = Ev.data /\ WordsLE(s.wit) = Salsa!AddWords(x, WordsLE(w[Len(w)].v))
  /\ Same
\* a long input, sampled; bad lists the blocks that are not what the block alone gives
SalsaBulk ==
  /\ Is("salsa.bulk") /\ Returned /\ Ev.bad = <<>>
  /\ \A k \in 1..Len(Ev.smp) : Ev.smp[k].y = Salsa!Salsa20(Ev.smp[k].x, Ev.n)
  /\ Same
\* a long CBC stream, sampled: every window is one block with its predecessor
CipherBulk ==
  /\ Is("cipher.bulk") /\ Returned
  /\ LET rk == AesF!Schedule(Ev.key)
     IN  \A k \in 1..Len(Ev.win) :
           Ev.win[k].c = AesF!Encrypt(rk, XorBytes(Ev.win[k].p, Ev.win[k].prev))
  /\ Ev.early = <<>>           \* writes whose output length was not (blocks complete so far) * 16
  /\ Ev.total = 16 * (Ev.n \div 16 + 1)
  /\ Ev.back = 1               \* the Decipher, fed the result in pieces, returned the message
  /\ Same
\* one message of very many blocks, sampled at the blocks whose number fills a count of bits and wherever an
\* independent computation does not share the result; then its end (in: blocks in, with padding for a Cipher), and
\* that of a short message after it
RightBlock(rk, w) == w.c = AesF!Encrypt(rk, XorBytes(w.p, w.prev))
BlockOf(b, k) == SubSeq(b, 16 * k - 15, 16 * k)
EndOK(rk, e) ==
  LET p == IF Ev.kind = "cipher" THEN e.in ELSE e.out \o [k \in 1..(Len(e.in) - Len(e.out)) |-> Len(e.in) - Len(e.out)]
      c == IF Ev.kind = "cipher" THEN e.out ELSE e.in
  IN  /\ Len(e.in) % 16 = 0 /\ Len(p) = Len(c)
      /\ Ev.kind = "decipher" => Len(e.in) - Len(e.out) \in 1..16
      /\ \A k \in 1..(Len(c) \div 16) :
           RightBlock(rk, [p |-> BlockOf(p, k), c |-> BlockOf(c, k), prev |-> IF k = 1 THEN e.prev ELSE BlockOf(c, k - 1)])
CbcStreamed ==
  /\ Is("stream") /\ Returned /\ Ev.early = <<>>
  /\ Len(Ev.ends) = 2
  /\ LET rk == AesF!Schedule(Ev.key)
     IN  /\ \A k \in 1..Len(Ev.win) : RightBlock(rk, Ev.win[k]) /\ (Ev.win[k].i = 0 => Ev.win[k].prev = Ev.iv)
         /\ \A k \in 1..2 : EndOK(rk, Ev.ends[k])
  /\ LET c == IF Ev.kind = "cipher" THEN Ev.ends[1].out ELSE Ev.ends[1].in
     IN  Ev.ends[2].prev = BlockOf(c, Len(c) \div 16)
  /\ Same
\* many messages through one Cipher and one Decipher, sampled: each is enciphered as if alone with
\* the chained IV.  bad lists messages that came back different.
ChainBulk ==
  /\ Is("chain.bulk") /\ Returned /\ Ev.bad = <<>>
  /\ \A k \in 1..Len(Ev.msgs) :
       LET m == Ev.msgs[k]
       IN  Cbc!The(Cbc!CipherWrite(Keyed(Cbc!CipherNew(m.prev), Ev.key), m.p))[1] = Ok(m.c)
  /\ Len(Ev.msgs) > 0 => Ev.msgs[1].k > 0 \/ Ev.msgs[1].prev = Ev.iv
  /\ LET rk == AesF!Schedule(Ev.key)       \* blocks that an independent computation does not share
     IN  \A k \in 1..Len(Ev.off) : Ev.off[k].c = AesF!Encrypt(rk, XorBytes(Ev.off[k].p, Ev.off[k].prev))
  /\ Same
\* many keys, one after another, in one object; bad lists those after which it was not like a fresh one
AesRekey ==
  /\ Is("aes.rekey") /\ Returned /\ Ev.bad = <<>>
  /\ \A k \in 1..Len(Ev.keys) :
       LET m == Ev.keys[k]
           rk == AesF!Schedule(m.key)
       IN  AesF!Encrypt(rk, m.b) = m.e /\ AesF!Decrypt(rk, m.b) = m.d
  /\ Same
\* scrypt with an N too large to evaluate: the key is the one of an independent computation whose
\* ends and sampled steps are the specification's
BlocksOf(bytes) == TLCEval([k \in 1..(Len(bytes) \div 64) |-> WordsLE(SubSeq(bytes, 64 * k - 63, 64 * k))])
LaneAt(bytes, r, i) == SubSeq(bytes, 128 * r * i + 1, 128 * r * (i + 1))
ScryptWitness ==
  /\ Is("scrypt.witness") /\ Returned
  /\ ScryptErrors(Ev.rr, Ev.nn, Ev.pp) = {}
  /\ LET r == IntOf(Ev.rr)
         n == IntOf(Ev.nn)
         p == IntOf(Ev.pp)
     IN  /\ Ev.b = Kdf!Derive(Ev.pw, Ev.salt, 1, 128 * r * p)
         /\ \A k \in 1..Len(Ev.fill) :
              LET s == Ev.fill[k]
              IN  /\ s.i = 0 => s.x = LaneAt(Ev.b, r, s.lane)
                  /\ Sc!BlockMix(BlocksOf(s.x)) = BlocksOf(s.y)
         /\ \A k \in 1..Len(Ev.mix) :
              LET s == Ev.mix[k]
                  x == BlocksOf(s.x)
              IN  /\ s.j = IntMod(x[Len(x)], n)
                  /\ Sc!BlockMix(Sc!XorLane(x, BlocksOf(s.v))) = BlocksOf(s.y)
                  /\ s.i = n - 1 => s.y = LaneAt(Ev.mixed, r, s.lane)
         /\ Ev.out = Kdf!Derive(Ev.pw, Ev.mixed, 1, Ev.len)
  /\ Same
\* scrypt with r or p too large to evaluate a lane or the lanes: pieces of the independent computation
ScryptVast ==
  /\ Is("scrypt.vast") /\ Returned
  /\ ScryptErrors(Ev.rr, Ev.nn, Ev.pp) = {}
  /\ Ev.len <= 32
  /\ LET r == IntOf(Ev.rr)
         n == IntOf(Ev.nn)
         p == IntOf(Ev.pp)
         kp == Mac!New(Ev.pw)
         inner == Ev.hash[Len(Ev.hash)]
         One(b) == BlocksOf(b)[1]
     IN  /\ \A k \in 1..Len(Ev.bs) : Ev.bs[k].b = Kdf!F(kp, Ev.salt, 1, Ev.bs[k].i)
         /\ \A k \in 1..Len(Ev.lanes) : Sc!ROMix(BlocksOf(Ev.lanes[k].in), n) = BlocksOf(Ev.lanes[k].out)
         /\ \A k \in 1..Len(Ev.steps) :
              LET s == Ev.steps[k]
              IN  /\ One(s.y) = Salsa!Core(Salsa!XorWords(One(s.prev), One(s.x)), 4)
                  /\ s.at = (IF s.k % 2 = 0 THEN s.k \div 2 ELSE r + s.k \div 2)
         /\ \A k \in 1..Len(Ev.xors) : Ev.xors[k].x = XorBytes(Ev.xors[k].a, Ev.xors[k].v)
         /\ \A k \in 1..Len(Ev.js) : Ev.js[k].j = IntMod(One(Ev.js[k].x), n)
         /\ \A k \in 1..Len(Ev.hash) :
              FromWordsBE(Sha!Compress(WordsBE(Ev.hash[k].h), Ev.hash[k].blk)) = Ev.hash[k].to
         /\ Ev.hash[1].i = 0 /\ Ev.hash[1].h = FromWordsBE(Sha!H0)
         /\ Ev.hash[1].blk = XorConst(Mac!KeyBlock(Ev.pw), 54)
         /\ inner.i = 2 * r * p + 1
         /\ inner.blk = << 0, 0, 0, 1, 128 >> \o Rep(51, 0) \o BitField(2 * r * p + 1, 4)
         /\ Ev.out = Take(Sha!Stream!Digest(Sha!Stream!Update(kp.outer, inner.to)), Ev.len)
  /\ Same
\* a key, password or salt too long to hash here: st is the hasher's state after it (after the key's block, if it is
\* a salt), and the chain of compressions that leads to st is sampled
Long ==
  /\ Is("long") /\ Returned
  /\ LET st == [h |-> WordsBE(Ev.h), nblk |-> Ev.nblk, buf |-> Ev.rest]
         salted == Ev.what \in {"pbkdf2.salt", "scrypt.salt"}
         last == Ev.steps[Len(Ev.steps)]
         hashed == Sha!Stream!Digest(st)              \* what such a key stands for
         kp == Mac!New(Ev.other)
         FirstU(i) == Kdf!FirstU([kp EXCEPT !.inner = st], <<>>, i)
         Derived(c, n) == Take(FoldLeft(LAMBDA acc, i : acc \o Kdf!XorOfUs(kp, FirstU(i), c), <<>>, Idx(Kdf!NumBlocks(n))), n)
     IN  /\ \A k \in 1..Len(Ev.steps) :
              FromWordsBE(Sha!Compress(WordsBE(Ev.steps[k].h), Ev.steps[k].b)) = Ev.steps[k].n
         /\ Ev.steps[1].i = 0 /\ Ev.steps[1].h = FromWordsBE(Sha!H0)
         /\ salted => Ev.steps[1].b = XorConst(Mac!KeyBlock(Ev.other), 54)
         /\ last.i = Ev.nblk - 1 /\ last.n = Ev.h
         /\ Ev.out =
              CASE Ev.what = "hmac.key"    -> Mac!Hmac(hashed, Ev.other)
                [] Ev.what = "pbkdf2.pw"   -> Kdf!Derive(hashed, Ev.other, Ev.c, Ev.len)
                [] Ev.what = "pbkdf2.salt" -> Derived(Ev.c, Ev.len)
                [] Ev.what = "scrypt.pw"   -> ScryptKey(Ev.r_, Ev.n_, Ev.p_, hashed, Ev.other, Ev.len)
                [] Ev.what = "scrypt.salt" -> Kdf!Derive(Ev.other, ScryptMixed(Ev.r_, Ev.n_, Ev.p_, Derived(1, 128 * Ev.r_ * Ev.p_)), 1, Ev.len)
  /\ Same
---------------------------------------------------------------------------
(***************************************************************************)
(* Many calls, of which the record keeps a random few and those whose      *)
(* result an independent computation does not share.  Each sample is a     *)
(* call or a history of its own and is judged as such.                     *)
(***************************************************************************)
Outcomes(st, kind, c) ==
  CASE c.a = "init"  -> {<< Cbc!InitReply(c.data), Cbc!InitNext(st, c.data) >>}
    [] c.a = "write" -> IF kind = "cipher" THEN Cbc!CipherWrite(st, c.data) ELSE Cbc!DecipherWrite(st, c.data)
    [] c.a = "flush" -> IF kind = "cipher" THEN Cbc!CipherFlush(st) ELSE Cbc!DecipherFlush(st)
History(kind, iv, calls) ==
  LET start == IF kind = "cipher" THEN Cbc!CipherNew(iv) ELSE Cbc!DecipherNew(iv)
      end == FoldLeft(LAMBDA acc, c : Cbc!After(acc, LAMBDA s : Outcomes(s, kind, c), [r |-> c.r, out |-> c.out]),
                      { start }, calls)
  IN  end # {}
SampleOK(s) ==
  CASE Is("sha.many")      -> s.r = "ok" /\ s.out = Sha!Sha256(s.m)
    [] Is("hmac.many")     -> s.r = "ok" /\ s.out = Mac!Hmac(s.key, s.m)
    [] Is("pbkdf2.many")   -> s.r = "ok" /\ s.out = Kdf!Derive(s.pw, s.salt, s.c, s.len)
    [] Is("salsa.many")    -> s.r = "ok" /\ s.out = Salsa!Salsa20(s.x, s.n)
    [] Is("scrypt.many")   -> s.r = "ok" /\ s.out = ScryptKey(s.r_, s.n_, s.p_, s.pw, s.salt, s.len)
    [] Is("scrypt.refuse") -> s.r \in ScryptErrors(s.rr, s.nn, s.pp) /\ s.out = s.before
    [] Is("aes.many")      -> /\ s.r = "ok"
                              /\ LET rk == AesF!Schedule(s.key)
                                 IN  s.e = AesF!Encrypt(rk, s.b) /\ s.d = AesF!Decrypt(rk, s.b)
    [] Is("cipher.many")   -> History("cipher", s.iv, s.calls)
    [] Is("decipher.many") -> History("decipher", s.iv, s.calls)
ManyOps == {"sha.many", "hmac.many", "pbkdf2.many", "salsa.many", "scrypt.many", "scrypt.refuse",
            "aes.many", "cipher.many", "decipher.many"}
Many ==
  /\ Ev.op \in ManyOps
  /\ Returned /\ Len(Ev.smp) > 0
  /\ \A k \in 1..Len(Ev.smp) : SampleOK(Ev.smp[k])
  /\ Same
---------------------------------------------------------------------------
\* one object used by several threads at the same time: first calls of each, and those whose result an
\* independent computation does not share
AesShared ==
  /\ Is("aes.shared") /\ Returned /\ AesKeyOK(Ev.key) /\ Len(Ev.log) > 0
  /\ LET rk == AesF!Schedule(Ev.key)
     IN  \A k \in 1..Len(Ev.log) :
           LET m == Ev.log[k]
           IN  m.r = "ok" /\ m.out = IF m.enc = 1 THEN AesF!Encrypt(rk, m.b) ELSE AesF!Decrypt(rk, m.b)
  /\ Same
ScryptShared ==
  /\ Is("scrypt.shared") /\ Returned /\ Len(Ev.log) > 0
  /\ \A k \in 1..Len(Ev.log) :
       LET m == Ev.log[k]
       IN  m.r = "ok" /\ m.out = ScryptKey(Ev.r_, Ev.n_, Ev.p_, m.pw, m.salt, m.len)
  /\ Same

---------------------------------------------------------------------------
(***************************************************************************)
(* Calls begun and given up after a moment.  The specification's value is  *)
(* the end of a chain of 2^31 or more steps, each needing the one before   *)
(* (or, for scrypt, of more storage than there is), so there cannot be a   *)
(* reply yet.                                                              *)
(***************************************************************************)
Huge ==
  /\ Ev.op \in {"pbkdf2.huge", "salsa.huge", "scrypt.huge"}
  /\ IF Is("scrypt.huge")
     THEN ScryptErrors(Ev.rr, Ev.nn, Ev.pp) = {}       \* so it may not be refused
     ELSE Ev.cc[1] > 0 \/ Ev.cc[2] > 0 \/ Ev.cc[3] >= 32768
  /\ Returned /\ Ev.done = 0
  /\ Same
\* other objects came, did their work and went: these here are as they were
Noise == Is("noise") /\ Returned /\ Same

---------------------------------------------------------------------------
(***************************************************************************)
(* Memory, in bytes: kept, the most there was after any of the calls; peak *)
(* the most during one; left, what remained when all objects were gone.    *)
(* What the specification holds is tiny (HoldsAtMost).  The code may keep  *)
(* some more, but an amount that knows nothing of how many calls were made *)
(* or how much data there was in all.                                      *)
(***************************************************************************)
Slack == 65536
FunctionKinds == {"churn", "pbkdf2", "salsa", "scrypt", "scrypt.refuse"}
HeldBy == [sha |-> "sha", hmac |-> "hmac", aes |-> "aes"] @@
          [k \in {"cipher", "cipher.msgs", "cipher.keys", "cipher.none"} |-> "cipher"] @@
          [k \in {"decipher", "decipher.msgs", "decipher.keys", "decipher.none", "decipher.bad"} |-> "decipher"]
\* objects that live on keep room for a few of the largest pieces; functions keep nothing
MayKeep == Slack + IF Ev.kind \in FunctionKinds THEN 0 ELSE HoldsAtMost[HeldBy[Ev.kind]] + 8 * Ev.top
MayUse ==
  CASE Ev.kind = "scrypt"        -> Slack + 24 * Ev.top + 4 * 128 * Ev.params[1] * (Ev.params[2] + Ev.params[3])
    [] Ev.kind = "scrypt.refuse" -> Slack
    [] OTHER                     -> Slack + 24 * Ev.top
Memory ==
  /\ Is("mem") /\ Returned
  /\ Ev.kind = "scrypt.refuse" \/ Ev.calls > 0
  /\ Ev.kept <= MayKeep /\ Ev.peak <= MayUse /\ Ev.left <= Slack
  /\ Same

---------------------------------------------------------------------------
(***************************************************************************)
(* Running time.  Lot b is no more work of any sort than lot a (Cost), so  *)
(* it may not take many times as long.  us is processor time, the least of *)
(* some trials.                                                            *)
(***************************************************************************)
Co == INSTANCE Cost
Times == 8
TimeSlack == 20000
Timing ==
  /\ Is("cost") /\ Returned
  /\ LET sa == Co!Steps(Ev.kind, Ev.a.q)
         sb == Co!Steps(Ev.kind, Ev.b.q)
     IN  \A i \in 1..Len(sa) : Ev.b.calls * sb[i] <= Ev.a.calls * sa[i]
  /\ Ev.b.us \div Times <= Ev.a.us + TimeSlack \div Times
  /\ Same

Inductive == Long \/ CbcStreamed \/ ScryptVast \/ Memory \/ Timing \/ Huge \/ Noise \/ Many \/ PbkdfWitness \/ AesShared \/ ScryptShared \/ ChainBulk \/ AesRekey \/ ScryptWitness \/ ShaBulk \/ HmacBulk \/ PbkdfBlocks \/ PbkdfSteps \/ SalsaSteps \/ SalsaBulk \/ CipherBulk

---------------------------------------------------------------------------
\* an error reply renders as some text
Rendered == IF Ev.r = "ok" THEN TRUE ELSE Ev.text > 0

Consume == More /\ Rendered /\ (Call \/ Class \/ Inductive) /\ l' = l + 1 /\ UNCHANGED tid
Done == ~ More /\ UNCHANGED vars
TraceNext == Consume \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars

---------------------------------------------------------------------------
\* shown with a rejected session

AnyOf(replies) == IF Cardinality(replies) = 1 THEN Cbc!The(replies) ELSE << "one of", replies >>
Wanted ==
  CASE Is("sha.digest")     -> Ok(Sha!Stream!Digest(objs[Ev.o].st))
    [] Is("hmac.digest")    -> Ok(Mac!Digest(objs[Ev.o].st))
    [] Is("aes.init")       -> Cbc!InitReply(Ev.key)
    [] Is("cipher.init")    -> Cbc!InitReply(Ev.key)
    [] Is("decipher.init")  -> Cbc!InitReply(Ev.key)
    [] Is("aes.enc")        -> IF objs[Ev.o].key = <<>> THEN Err("NotInitialized") ELSE Ok(AesF!Encrypt(objs[Ev.o].key, Ev.data))
    [] Is("aes.dec")        -> IF objs[Ev.o].key = <<>> THEN Err("NotInitialized") ELSE Ok(AesF!Decrypt(objs[Ev.o].key, Ev.data))
    [] Is("cipher.write")   -> AnyOf({y[1] : y \in UNION {Cbc!CipherWrite(s, Ev.data) : s \in objs[Ev.o].st}})
    [] Is("cipher.flush")   -> AnyOf({y[1] : y \in UNION {Cbc!CipherFlush(s) : s \in objs[Ev.o].st}})
    [] Is("decipher.write") -> AnyOf({y[1] : y \in UNION {Cbc!DecipherWrite(s, Ev.data) : s \in objs[Ev.o].st}})
    [] Is("decipher.flush") -> AnyOf({y[1] : y \in UNION {Cbc!DecipherFlush(s) : s \in objs[Ev.o].st}})
    [] Is("pbkdf2")         -> Ok(Kdf!Derive(Ev.pw, Ev.salt, Ev.c, Ev.len))
    [] Is("salsa20")        -> Ok(Salsa!Salsa20(Ev.data, Ev.n))
    [] Is("scrypt")         -> IF ScryptErrors(Ev.rr, Ev.nn, Ev.pp) # {}
                               THEN << "one of", ScryptErrors(Ev.rr, Ev.nn, Ev.pp) >>
                               ELSE IF Ev.checked = 1
                                    THEN Ok(ScryptKey(IntOf(Ev.rr), IntOf(Ev.nn), IntOf(Ev.pp), Ev.pw, Ev.salt, Len(Ev.before)))
                                    ELSE "ok"
    [] Is("sha.class")      -> Ok(Sha!Sha256(Ev.data))
    [] Is("hmac.class")     -> Ok(Mac!Hmac(Ev.key, Ev.data))
    [] Is("cipher.class")   -> WholeCipher(Ev.key, Ev.iv, Ev.data)
    [] Is("decipher.class") -> WholeDecipher(Ev.key, Ev.iv, Ev.data)
    [] Is("cost") -> << "at most, in microseconds", Times * Ev.a.us + TimeSlack >>
    [] Is("mem") -> << "kept at most", MayKeep, "peak at most", MayUse, "left at most", Slack >>
    [] Ev.op \in ManyOps -> << "the first sample judged wrong", CHOOSE k \in 1..(Len(Ev.smp) + 1) : k > Len(Ev.smp) \/ ~ SampleOK(Ev.smp[k]) >>
    [] OTHER -> "ok"

Shown == [tid |-> tid, l |-> l,
          want |-> IF More /\ ~ ENABLED Consume THEN ToJson(Wanted) ELSE ""]
=============================================================================
