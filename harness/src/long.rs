//! Keys, passwords and salts of millions or billions of bytes.  TLC cannot hash them; the record has the state the
//! specification's hasher is in after them - chaining value, number of blocks, rest - and, in its place, sampled
//! compressions of the chain that leads there, the first and the last among them.  From that state on TLC computes.

use crate::bulk::list;
use crate::json::{put_bytes, Rec, Reply};
use crate::vast::some;
use crate::witness::{compress, constants, words, Sha, SHA_IV};
use crate::{die, guarded, num, reply_of, unhex, OutBuf, Rng};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::scrypt::Scrypt;

fn barr(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

/// n bytes: random ones, or (many of them) zeros with some others in between, which need no memory where they are zero
fn content(n: usize, seed: u64) -> Vec<u8> {
    let mut rng = Rng::new(seed);
    if n < 1 << 28 {
        return rng.bytes(n);
    }
    let mut v = vec![0u8; n];
    for _ in 0..5000 {
        let at = rng.next() as usize % (n - 8);
        rng.fill(&mut v[at..at + 8]);
    }
    rng.fill(&mut v[n - 100..]);
    rng.fill(&mut v[..200]);
    v
}

/// long WHAT n seed other len c r N p     (c: iterations; other: the message, salt or password, whichever is short)
pub fn step(rec: &mut Rec, w: &[&str]) -> Reply {
    let (what, n, seed, other, len, c) = (w[1], num(w[2]) as usize, num(w[3]), unhex(w[4]), num(w[5]) as usize, num(w[6]));
    let (r, nn, p) = (num(w[7]), num(w[8]), num(w[9]));
    rec.text("what", what).bytes("other", &other).num("len", len as u64).num("c", c);
    rec.num("r_", r).num("n_", nn).num("p_", p);
    let long = content(n, seed);
    let mut out = OutBuf::new(len, 0x3C);
    let rep = guarded(|| match what {
        "hmac.key" => {
            let mut m = HMac::new(&long);
            m.update(&other);
            out.slice().copy_from_slice(&m.digest());
            Reply::ok(vec![])
        }
        "pbkdf2.pw" => {
            pbkdf2_sha256(&long, &other, c as usize, out.slice());
            Reply::ok(vec![])
        }
        "pbkdf2.salt" => {
            pbkdf2_sha256(&other, &long, c as usize, out.slice());
            Reply::ok(vec![])
        }
        "scrypt.pw" => reply_of(Scrypt::new(r as usize, nn as usize, p as usize).derive(&long, &other, out.slice()).map(|_| vec![])),
        "scrypt.salt" => reply_of(Scrypt::new(r as usize, nn as usize, p as usize).derive(&other, &long, out.slice()).map(|_| vec![])),
        _ => die!("long {}", what),
    });
    let rep = out.reply(rep);

    // a salt comes after the block of the key
    let salted = what.ends_with("salt");
    let mut first = vec![];
    if salted {
        first = if other.len() > 64 { Sha::of(&other) } else { other.clone() };
        first.resize(64, 0);
        first.iter_mut().for_each(|x| *x ^= 0x36);
    }
    let nblk = (first.len() + n) / 64;
    let want = some(&mut Rng::new(seed ^ 0x55), nblk as u64, 12);
    let (mut h, k) = (SHA_IV, constants());
    let mut steps = vec![];
    for (i, b) in first.chunks_exact(64).chain(long.chunks_exact(64)).enumerate() {
        let before = h;
        compress(&mut h, b, &k);
        if want.binary_search(&(i as u64)).is_ok() {
            steps.push(format!("{{\"i\":{},\"h\":{},\"b\":{},\"n\":{}}}", i, barr(&words(&before)), barr(b), barr(&words(&h))));
        }
    }
    rec.num("nblk", nblk as u64).bytes("h", &words(&h)).bytes("rest", &long[n / 64 * 64..]);
    rec.raw("steps", &list(&steps, |x| x.clone()));
    rep
}
