-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* How much work each call is: applications of the primitive it is built   *)
(* from (a compression, a block cipher, a double round ...), as a function *)
(* of sizes and parameters alone - not of what an object or the process    *)
(* did before.  The step machines of MC_HashStream, MC_Channel, MC_Pbkdf2  *)
(* and MC_Scrypt are shown to take just so many steps (invariants Work);   *)
(* Trace compares running times of the code on equal amounts of work.      *)
(***************************************************************************)
EXTENDS Naturals

Ceil(a, b) == (a + b - 1) \div b

\* compressions for a message of n bytes: the message, one byte and the length field in blocks of bl
Compressions(n, bl, field) == Ceil(n + 1 + field, bl)
\* cipher blocks for a message of n bytes: padding always adds at least a byte
CipherBlocks(n, bl) == (n \div bl) + 1
\* applications of the pseudorandom function
Iterations(c, len, hlen) == c * Ceil(len, hlen)
\* applications of BlockMix
Mixes(N, p) == 2 * N * p

Sha(n) == Compressions(n, 64, 8)
Hmac(kl, n) == (IF kl > 64 THEN Sha(kl) ELSE 0) + 1 + Sha(n) + 3
\* the salt is part of the first hash of each block only; the key may be prepared again each time
Pbkdf2(pl, sl, c, len) ==
  LET l == Ceil(len, 32) IN l * Hmac(pl, sl + 4) + (c - 1) * l * Hmac(pl, 32)
Salsa(len, n) == (len \div 64) * (n + 1)
Cipher(n) == CipherBlocks(n, 16)

Writes(n, piece) == IF piece = 0 THEN 0 ELSE Ceil(n, piece)

\* Steps of one run of a kind with parameters q, as a tuple: work of different sorts is not added up.
\* sha/hmac/cipher/decipher: << bytes, piece, ... >>, one object and one message each
Steps(kind, q) ==
  CASE kind = "sha"            -> << Sha(q[1]), Writes(q[1], q[2]) + 2 >>
    [] kind = "hmac"           -> << Hmac(q[3], q[1]), Writes(q[1], q[2]) + 2 >>
    [] kind = "pbkdf2"         -> << Pbkdf2(q[1], q[2], q[3], q[4]), 1 >>
    [] kind = "salsa"          -> << Salsa(q[1], q[2]), 1 >>
    [] kind = "scrypt"         -> << Mixes(q[2], q[3]) * 2 * q[1] * 5,                      \* Salsa20/8 = 4 double rounds
                                     Pbkdf2(q[4], q[5], 1, 128 * q[1] * q[3]) + Pbkdf2(q[4], 128 * q[1] * q[3], 1, 32) >>
    [] kind = "scrypt.refuse"  -> << 1 >>
    [] kind = "aes"            -> << 1, q[1] >>                                             \* one key, q[1] blocks
    [] kind \in {"cipher", "decipher"}               -> << 1, Cipher(q[1]), Writes(q[1], q[2]) + 2 >>
    \* one object, q[3] messages of q[1] bytes
    [] kind \in {"cipher.msgs", "decipher.msgs"}     -> << 1, q[3] * Cipher(q[1]), q[3] * (Writes(q[1], q[2]) + 1) + 1 >>
    \* one object, q[3] times a key and q[1] bytes
    [] kind \in {"cipher.keys", "decipher.keys"}     -> << q[3], q[3] * Cipher(q[1]), q[3] * (Writes(q[1], q[2]) + 1) >>
    \* one object without a key, q[1] bytes refused in pieces of q[2]; failed flushes, q[1] of them
    [] kind \in {"cipher.none", "decipher.none"}     -> << Writes(q[1], q[2]) >>
    [] kind = "decipher.bad"   -> << 1, q[1] + 1 >>
=============================================================================
