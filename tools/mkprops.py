#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "SHA-256 digests are the FIPS 180-4 / RFC 6234 value for every message",
  "For every message, of any length from empty up to and beyond 2^29 bytes (where the bit count no longer fits 32 bits), the digest produced after feeding the message to a fresh hasher is exactly the SHA-256 value of that message.",
  ["inputs"], "all byte strings: every length around every block and padding boundary (0, 55, 56, 63, 64, 119, ...), every content, and lengths whose bit count needs more than 32 bits",
  "Six unit tests hash five distinct short ASCII strings of 3, 56 and 112 bytes; no test hashes an empty message, a 55/63/64-byte message, non-ASCII bytes or anything longer than two blocks.",
  ["src/sha256.rs"],
  [("padding, two-block overflow case, 64-bit length field", "SHA256::digest"), ("message schedule and 64 rounds", "SHA256::process_block"), ("wrapping addition", "wrapping_sum! in src/common.rs")],
  ["SHA256::digest return value"],
  [("h", "chaining value", "SHA256.h"), ("buffer", "partial block", "SHA256.buffer"), ("length", "bytes seen so far", "SHA256.length")])
prop("C02", "SHA-256 depends only on the bytes fed, not on how they are split",
  "However a message is divided into successive update calls (single bytes, empty pieces, pieces that end, start or straddle block boundaries, pieces of many blocks), the digest equals that of the whole message fed in one call.",
  ["histories", "inputs"], "all messages and all finite partitions of each into update calls, including empty ones",
  "Two tests split one short message into 3 or 5 pieces; the offset-in-block x piece-length space (64 offsets, pieces shorter than, equal to, and longer than a block) is not sampled.",
  ["src/sha256.rs"],
  [("byte-at-a-time buffer fill and flush at 64", "SHA256::update")],
  ["SHA256::update / SHA256::digest"],
  [("buffer", "partial block", "SHA256.buffer"), ("length", "position in stream", "SHA256.length")])
prop("C03", "HMAC-SHA256 is the RFC 2104 value for every key, message and chunking",
  "For every key (empty, shorter than, exactly, or longer than the 64-byte hash block) and every message fed in any pieces, the digest of a fresh HMAC object is the RFC 2104 HMAC-SHA256 of that key and message.",
  ["inputs", "histories"], "all keys of every length, all messages of every length, all partitions into update calls",
  "Seven vectors use keys of 4, 8, 20, 25 and 131 bytes only: the 63/64/65 boundary, empty keys and empty messages are never tried.",
  ["src/hmac.rs", "src/sha256.rs"],
  [("long-key hashing, ipad/opad blocks", "HMac::new"), ("inner then outer hash", "HMac::digest")],
  ["HMac::digest return value"],
  [("inner/outer", "two hash streams primed with the padded key", "HMac.inner, HMac.outer")])
prop("C04", "PBKDF2 fills the whole output with the RFC 2898 derived key",
  "For every password, salt, positive iteration count and output length, the key-derivation call overwrites every byte of the output buffer with the RFC 2898 PBKDF2-HMAC-SHA256 derived key, whatever the buffer held before, including output lengths that are zero, not a multiple of 32, or so long that the block index needs more than one, two or three bytes.",
  ["inputs"], "all passwords, salts, iteration counts >= 1, output lengths and prior buffer contents",
  "Two vectors, both with 64-byte outputs and c = 1 or 80000; a partial last block, single-block outputs and block indices above 2 (outside scrypt) or 512 are never exercised.",
  ["src/pbkdf2.rs", "src/hmac.rs"],
  [("block loop, 4-byte big-endian block index, U/T iteration, truncated copy of the last block", "pbkdf2_sha256")],
  ["out slice of pbkdf2_sha256"],
  [("t,u", "running XOR and last PRF value of the current block", "pbkdf2_sha256 locals")])
prop("C05", "Salsa20 core output is exact for every input block and round count",
  "For every input whose length is a multiple of 64 bytes and every number of double-rounds (including zero and counts above 255), each 64-byte output block is the Salsa20 hash of the corresponding input block: input words plus the words after that many double-rounds, little-endian, modulo 2^32; all of the output is overwritten whatever it held before.",
  ["inputs"], "all 64-byte blocks (and concatenations of them), all double-round counts, all prior output contents",
  "Four salsa20 vectors, all one block long with few round counts; carries, odd or zero round counts, multi-block inputs and dirty output buffers are not sampled.",
  ["src/salsa20.rs", "src/common.rs"],
  [("quarterround/rowround/columnround/doubleround", "src/salsa20.rs"), ("word conversion and feed-forward", "salsa20")],
  ["output slice of salsa20"])
prop("C06", "scrypt derives the RFC 7914 key for every valid parameter set",
  "For every valid (r, N, p), passphrase, salt and output length, derivation succeeds and overwrites the whole output with the RFC 7914 scrypt key, independent of what the buffer held and of earlier derivations made with the same object.",
  ["inputs", "configurations"], "all valid (r, N, p) combinations, all passphrases, salts, output lengths, all prior buffer contents, repeated use of one object",
  "Four end-to-end vectors use only (1,16,1), (8,1024,16), (8,16384,1), (8,1048576,1) with 64-byte outputs; other r, N = 2, p > 1 with r = 1, short or odd output lengths and repeated derivation are never tried.",
  ["src/scrypt.rs", "src/pbkdf2.rs", "src/salsa20.rs"],
  [("PBKDF2 expand, ROMix per lane, PBKDF2 compress", "Scrypt::derive"), ("fill V then data-dependent mixing", "Scrypt::ro_mix"), ("Salsa20/8 chain and even/odd shuffle", "Scrypt::block_mix")],
  ["Scrypt::derive result and out slice"],
  [("v", "table of N earlier X values", "ro_mix local"), ("x", "current 2r-block state", "ro_mix local")])
prop("C07", "scrypt rejects every out-of-range parameter and leaves the output alone",
  "Derivation is accepted exactly when r >= 1, N is a power of two with 2 <= N < 2^(16 r), and 1 <= p <= (2^32-1)/(4 r); in every other case it returns an error naming a parameter that is out of range and the bound it breaks (too small, too large, or not a power of two), without panicking and without modifying the output buffer.",
  ["configurations", "inputs"], "all triples of machine-word r, N, p, including 0, 1, non-powers of two, values near 2^16r, 2^30, 2^32 and the machine-word maximum, with products that overflow",
  "No test passes an invalid parameter; none of the error paths is exercised.",
  ["src/scrypt.rs"],
  [("parameter checks before any work", "Scrypt::derive")],
  ["Scrypt::derive result and out slice"])
prop("C08", "AES block encryption is the FIPS 197 value for all keys and blocks",
  "For every 128-, 192- or 256-bit key and every 16-byte block, encryption returns the FIPS 197 AES ciphertext block, and decryption of any block returns the FIPS 197 inverse-cipher value.",
  ["inputs"], "all keys of the three sizes, all 16-byte blocks",
  "Four vectors, three of them one plaintext with a counting key per size; table entries, round constants and key-schedule paths not reached by those inputs are unchecked, and decryption is only run on those ciphertexts.",
  ["src/aes.rs"],
  [("S-box tables", "SBOX, INV_SBOX"), ("key schedule", "expand_key"), ("rounds", "AES::encrypt, AES::decrypt")],
  ["AES::encrypt / AES::decrypt return values"],
  [("round_keys", "expanded key", "AES.round_keys"), ("round_count", "10, 12 or 14", "AES.round_count")])
prop("C09", "AES decryption and encryption are mutually inverse under one key",
  "Under any one key, decrypting the encryption of a block and encrypting the decryption of a block both return the original block, so encryption is a bijection on blocks; the calls never change the object, so repeating one gives the same answer.",
  ["inputs", "histories"], "all keys of the three sizes, all blocks, all interleavings of encrypt and decrypt calls on one object",
  "Round trips are only run for three key/plaintext pairs; the inverse-step unit tests use one 4x4 block.",
  ["src/aes.rs"],
  [("inverse tables and inverse steps in reverse order", "AESDecrypt, AES::decrypt")],
  ["AES::encrypt / AES::decrypt return values"])
prop("C10", "Key setup: bad sizes rejected, no use before a key, re-keying is complete",
  "AES, Cipher and Decipher objects accept exactly 16-, 24- and 32-byte keys and report an invalid key size otherwise; until a key has been accepted no block is ever processed and the operation reports that the object is not initialized; a rejected key leaves any earlier key in force, and an accepted key replaces the earlier one completely for all later blocks, whatever its size was.",
  ["histories", "inputs"], "all sequences of init (every key length, valid or not) and encrypt/decrypt/write/flush calls on one object",
  "No test initializes twice, passes a bad key length, or uses an object before init.",
  ["src/aes.rs", "src/aes_cbc.rs"],
  [("length match then expand", "AES::init"), ("round key presence test", "AES::encrypt, AES::decrypt"), ("delegation", "Cipher::init, Decipher::init")],
  ["Result of init/encrypt/decrypt/write/flush"],
  [("round_keys", "None until a key is accepted", "AES.round_keys")])
prop("C11", "CBC Cipher emits exactly CBC(PKCS#7(message)), block by block, any chunking",
  "For every key, IV, message and partition into writes, each write returns exactly the ciphertext of the blocks completed by it (never withholding a complete block, never emitting a partial one) and flush returns exactly one final block, so that the concatenation is the AES-CBC encryption of the PKCS#7-padded message.",
  ["inputs", "histories"], "all keys, IVs, messages and partitions into write calls (including empty writes and writes of many blocks)",
  "Three vectors, each written in one call, with 5-, 15- and 36-byte messages; no exact multiple of 16, no empty message, no split writes.",
  ["src/aes_cbc.rs", "src/pkcs7.rs", "src/aes.rs"],
  [("buffering of the partial block", "Pad::write"), ("padding", "Pad::flush"), ("chaining", "Cipher::encrypt_block")],
  ["Cipher::write / Cipher::flush return values"],
  [("pad.storage", "bytes of the incomplete block (0..15)", "Pad.storage"), ("iv", "previous ciphertext block", "Cipher.iv")])
prop("C12", "CBC Decipher inverts Cipher for every message and every chunking",
  "For every key, IV and message, feeding the Cipher's output to a Decipher with the same key and IV in any pieces yields, over the writes and a successful flush, exactly the original message; at every point the cleartext released so far is the decryption of all complete blocks received except the last one, which is held back until more data or flush.",
  ["inputs", "histories"], "all keys, IVs, messages, and all independent partitions of plaintext and ciphertext into calls",
  "Three round trips, each with the ciphertext in one write; split ciphertext, held-back blocks across writes and exact multiples of the block size are not tried at this level.",
  ["src/aes_cbc.rs", "src/pkcs7.rs", "src/aes.rs"],
  [("ciphertext re-blocking", "Decipher.buffer (Pad::write)"), ("hold back last block", "Unpad::write"), ("chaining", "Decipher::write")],
  ["Decipher::write / Decipher::flush return values"],
  [("buffer.storage", "incomplete ciphertext block", "Decipher.buffer"), ("unpad.storage", "held-back cleartext block", "Decipher.unpad"), ("iv", "previous ciphertext block", "Decipher.iv")])
prop("C13", "Decipher flush accepts exactly well-formed endings and leaks nothing otherwise",
  "Flush succeeds exactly when the ciphertext received since the last message boundary is a positive whole number of blocks whose decryption ends in valid PKCS#7 padding (1 to 16 equal bytes of that value); otherwise it reports an unfinished block (length not a positive multiple of 16) or invalid padding, releases no cleartext, and repeating it gives the same error.",
  ["inputs", "histories"], "all ciphertexts: all lengths, all 256 final byte values, every position of a corrupted padding byte, all chunkings, and repeated flushes",
  "Two unit tests of the private padding helper try one short input each; final byte 0, final byte above the block size, every corrupted position, and trailing partial ciphertext are never tried.",
  ["src/pkcs7.rs", "src/aes_cbc.rs"],
  [("length test, range test, accumulated comparison", "Unpad::flush"), ("error mapping", "Decipher::flush")],
  ["Decipher::flush result"],
  [("unpad.storage", "held-back block", "Unpad.storage"), ("buffer.storage", "trailing partial ciphertext", "Decipher.buffer")])
prop("C14", "Flush ends a message cleanly; streams chain on to the next message",
  "After a successful flush, a Cipher or Decipher holds nothing of the finished message except the last ciphertext block, which becomes the IV of the next one: any number of messages enciphered one after another with one Cipher is the same as each enciphered alone with the chained IV, and one Decipher fed the messages in turn (flushing at each boundary) recovers each exactly.",
  ["histories"], "all sequences of messages (including empty ones) through one Cipher and one Decipher, with all chunkings",
  "Every test drops the object after one flush.",
  ["src/aes_cbc.rs", "src/pkcs7.rs"],
  [("storage cleared on flush", "Pad::flush, Unpad::flush"), ("iv updated per block", "Cipher::encrypt_block, Decipher::write")],
  ["Cipher/Decipher write and flush return values across messages"],
  [("iv", "chaining block carried over", "Cipher.iv, Decipher.iv")])
prop("C15", "Results depend only on an object's own inputs; instances never interfere",
  "Any interleaving of calls on any number of objects and of stand-alone derivation calls, on one thread or many, gives each object exactly the results it would give alone, and the same call with the same inputs always gives the same result whatever was computed before or at the same time.",
  ["histories", "schedules", "programs"], "all interleavings of call sequences over several objects, all thread placements, all earlier histories (related keys, passwords, salts and buffers reused)",
  "Each test makes fresh objects, runs one computation and drops them; tests never compare a computation against itself after others.",
  ["src/sha256.rs", "src/hmac.rs", "src/pbkdf2.rs", "src/salsa20.rs", "src/scrypt.rs", "src/aes.rs", "src/aes_cbc.rs"],
  [("all state lives in the object; constant tables are immutable", "all modules")],
  ["return values of every public call"])
prop("C16", "Every in-contract call returns; failures are typed errors, never panics",
  "For every object state and every in-contract argument, each public call returns normally: it never panics, overflows, aborts, reads or writes outside its slices, or fails to terminate; calls that can fail do so only with their documented error kinds, and each error renders as non-empty text.",
  ["inputs", "histories"], "all public calls in all reachable object states with all in-contract arguments, with overflow checks on",
  "Tests run a few fixed inputs per call, almost all on the success path.",
  ["src/aes.rs", "src/aes_cbc.rs", "src/pkcs7.rs", "src/scrypt.rs", "src/salsa20.rs", "src/sha256.rs", "src/hmac.rs", "src/pbkdf2.rs"],
  [("Result types", "AESError, DecipherError, UnpadError, ScryptError"), ("slice arithmetic", "all modules")],
  ["normal return of every public call; Display of errors"])

prop("C17", "Memory in use stays bounded and is given back",
  "However many calls an object takes, it keeps between calls at most a fixed amount of memory plus a small multiple of the largest single piece it was given, and once objects are dropped or stand-alone calls have returned, all but a fixed one-time amount is given back. While a call runs, its working memory does not grow with PBKDF2 iterations or Salsa20 rounds, and is at most a small multiple of its input and output sizes, plus, for scrypt, of 128*r*(N+p). A scrypt call that is refused for its parameters claims no memory for the work it does not do.",
  ["histories", "inputs"], "all sequences of calls of any length on every kind of object, all repetitions of stand-alone calls, all iteration and round counts and scrypt parameters",
  "No test measures memory; each makes a handful of calls on short inputs and ends, so a leak or a buffer that keeps growing passes.",
  ["src/sha256.rs", "src/hmac.rs", "src/pbkdf2.rs", "src/salsa20.rs", "src/scrypt.rs", "src/aes.rs", "src/aes_cbc.rs", "src/pkcs7.rs"],
  [("partial blocks kept, whole ones handed on", "SHA256::update, Pad::write, Unpad::write"), ("scratch buffers local to the call", "pbkdf2, ro_mix, block_mix"), ("parameters checked before buffers are made", "Scrypt::derive")],
  ["bytes allocated by the process during and after calls"],
  [("storage", "bytes of at most one block (two in Decipher)", "SHA256.block, Pad.storage, Unpad.storage"), ("round_keys", "one key schedule", "AES.round_keys")])

prop("C18", "The time taken grows no faster than the work asked for",
  "The running time of a call is at most proportional to the work its arguments ask for - bytes hashed, enciphered or deciphered, iterations times output blocks for PBKDF2, rounds times blocks for Salsa20, r*N*p for scrypt - and does not depend on what the object or the process did before: not on the length of the message so far, the number of messages, keys or earlier calls. A scrypt call that is refused for its parameters takes a short time whatever their size.",
  ["inputs", "histories"], "all sizes, parameters, ways of cutting messages into pieces, and earlier histories, within a constant factor",
  "No test measures time, and their inputs are too small for a cost that grows with the square of something to be felt.",
  ["src/sha256.rs", "src/hmac.rs", "src/pbkdf2.rs", "src/salsa20.rs", "src/scrypt.rs", "src/aes.rs", "src/aes_cbc.rs", "src/pkcs7.rs"],
  [("each byte handled once", "SHA256::update, Pad::write, Unpad::write"), ("loops of c, rounds, 2N", "pbkdf2_sha256, salsa20, Scrypt::ro_mix"), ("parameters checked first", "Scrypt::derive")],
  ["processor time of public calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
