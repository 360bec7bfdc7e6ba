//! Witnesses: computations too long for TLC, carried out here independently of the crate, with
//! sampled steps recorded so that TLC checks the steps against the specification and the
//! crate's result against the witness's.

use crate::json::{put_bytes, Rec, Reply};
use crate::{guarded, num, reply_of, unhex, OutBuf, Rng};
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::scrypt::Scrypt;

// ------------------------------------------------------------------ SHA-256

pub struct Sha {
    h: [u32; 8],
    buf: Vec<u8>,
    total: u64,
}

pub const SHA_IV: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];

/// fractional bits of the cube roots of the first 64 primes, by integer root extraction
pub fn constants() -> [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    *K.get_or_init(cube_roots)
}

fn cube_roots() -> [u32; 64] {
    let mut k = [0u32; 64];
    let (mut p, mut i) = (2u128, 0);
    while i < 64 {
        if (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0) {
            // floor(cbrt(p * 2^96)) mod 2^32
            let target = p << 96;
            let (mut lo, mut hi) = (0u128, 1u128 << 36);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if mid * mid * mid <= target {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            k[i] = lo as u32;
            i += 1;
        }
        p += 1;
    }
    k
}

pub fn compress(h: &mut [u32; 8], b: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = u32::from_be_bytes([b[4 * t], b[4 * t + 1], b[4 * t + 2], b[4 * t + 3]]);
    }
    for t in 16..64 {
        let (x, y) = (w[t - 15], w[t - 2]);
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for t in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

pub fn words(h: &[u32; 8]) -> Vec<u8> {
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub type Step = (Vec<u8>, Vec<u8>, Vec<u8>);

impl Sha {
    pub fn new() -> Sha {
        Sha { h: SHA_IV, buf: vec![], total: 0 }
    }
    pub fn padding(total: u64) -> Vec<u8> {
        let mut p = vec![0x80u8];
        while (total + p.len() as u64) % 64 != 56 {
            p.push(0);
        }
        p.extend((total * 8).to_be_bytes());
        p
    }
    pub fn update(&mut self, d: &[u8]) {
        let k = constants();
        self.total += d.len() as u64;
        self.buf.extend_from_slice(d);
        let n = self.buf.len() / 64 * 64;
        for b in self.buf[..n].chunks(64) {
            compress(&mut self.h, b, &k);
        }
        self.buf.drain(..n);
    }
    pub fn digest(mut self) -> Vec<u8> {
        let p = Sha::padding(self.total);
        self.update(&p);
        words(&self.h)
    }
    pub fn of(d: &[u8]) -> Vec<u8> {
        let mut s = Sha::new();
        s.update(d);
        s.digest()
    }
    /// The digest of `total` bytes of the repeated page, with sampled compression steps.
    pub fn witness(total: u64, pg: &[u8], seed: u64) -> (Vec<u8>, Vec<Step>) {
        let k = constants();
        let mut rng = Rng::new(seed);
        let nblk = total / 64;
        let tail = Sha::padding(total);
        let rest = (total % 64) as usize;
        let at = |pos: u64| pg[(pos % pg.len() as u64) as usize];
        let mut ends: Vec<u8> = (0..rest).map(|i| at(nblk * 64 + i as u64)).collect();
        ends.extend(tail);
        let all = nblk + (ends.len() / 64) as u64;
        let mut want: Vec<u64> = (0..24).map(|_| rng.next() % all).collect();
        want.extend([0, all - 1]);
        want.sort();
        want.dedup();
        let mut h = SHA_IV;
        let mut steps = vec![];
        let mut blk = [0u8; 64];
        let mut next = 0;
        for i in 0..all {
            if i < nblk {
                let off = ((i * 64) % pg.len() as u64) as usize;
                if off + 64 <= pg.len() {
                    blk.copy_from_slice(&pg[off..off + 64]);
                } else {
                    for j in 0..64 {
                        blk[j] = at(i * 64 + j as u64);
                    }
                }
            } else {
                let o = ((i - nblk) * 64) as usize;
                blk.copy_from_slice(&ends[o..o + 64]);
            }
            let before = h;
            compress(&mut h, &blk, &k);
            if next < want.len() && want[next] == i {
                next += 1;
                steps.push((words(&before), blk.to_vec(), words(&h)));
            }
        }
        (words(&h), steps)
    }
}

// ------------------------------------------------------------------ HMAC, PBKDF2

/// HMAC-SHA256 under one key: the hash states after the two key blocks.
pub struct Prf {
    pub inner: [u32; 8],
    outer: [u32; 8],
}

impl Prf {
    pub fn new(key: &[u8]) -> Prf {
        let mut blk = [0u8; 64];
        if key.len() > 64 {
            blk[..32].copy_from_slice(&Sha::of(key));
        } else {
            blk[..key.len()].copy_from_slice(key);
        }
        let after = |x: u8| {
            let b: Vec<u8> = blk.iter().map(|k| k ^ x).collect();
            let mut h = SHA_IV;
            compress(&mut h, &b, &constants());
            h
        };
        Prf { inner: after(0x36), outer: after(0x5c) }
    }
    fn finish(h: [u32; 8], d: &[u8]) -> Vec<u8> {
        let mut s = Sha { h, buf: vec![], total: 64 };
        s.update(d);
        s.digest()
    }
    pub fn of(&self, d: &[u8]) -> Vec<u8> {
        Prf::finish(self.outer, &Prf::finish(self.inner, d))
    }
    /// of a 32-byte text, as the iterations of PBKDF2 need it
    fn next(&self, u: &mut [u8; 32], k: &[u32; 64]) {
        let mut b = [0u8; 64];
        b[32] = 0x80;
        b[62] = 3; // 96 bytes are 768 bits
        b[..32].copy_from_slice(u);
        let mut h = self.inner;
        compress(&mut h, &b, k);
        for i in 0..8 {
            b[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
        }
        h = self.outer;
        compress(&mut h, &b, k);
        for i in 0..8 {
            u[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
        }
    }
    /// block i of the derived key, and the iterates numbered in `want`, each with the next one
    pub fn block(&self, salt: &[u8], c: u64, i: u32, want: &[u64]) -> (Vec<u8>, Vec<(u64, Vec<u8>, Vec<u8>)>) {
        let k = constants();
        let mut m = salt.to_vec();
        m.extend(i.to_be_bytes());
        let mut u = [0u8; 32];
        u.copy_from_slice(&self.of(&m));
        let mut t = u;
        let mut steps = vec![];
        for j in 1..c {
            let before = u;
            self.next(&mut u, &k);
            if !want.is_empty() && want.contains(&j) {
                steps.push((j, before.to_vec(), u.to_vec()));
            }
            for q in 0..32 {
                t[q] ^= u[q];
            }
        }
        (t.to_vec(), steps)
    }
}

pub fn pbkdf2(pw: &[u8], salt: &[u8], c: u64, len: usize) -> Vec<u8> {
    let prf = Prf::new(pw);
    let mut out = vec![];
    let mut i = 1;
    while out.len() < len {
        out.extend(prf.block(salt, c, i, &[]).0);
        i += 1;
    }
    out.truncate(len);
    out
}

// ------------------------------------------------------------------ AES

fn gf(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}

struct Tables {
    s: [u8; 256],
    inv: [u8; 256],
    by: [[u8; 256]; 16],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { s: [0; 256], inv: [0; 256], by: [[0; 256]; 16] };
        for x in 0..=255u8 {
            let y = (0..=255u8).find(|y| gf(x, *y) == 1).unwrap_or(0);
            let s = y ^ y.rotate_left(1) ^ y.rotate_left(2) ^ y.rotate_left(3) ^ y.rotate_left(4) ^ 0x63;
            t.s[x as usize] = s;
            t.inv[s as usize] = x;
            for k in 0..16u8 {
                t.by[k as usize][x as usize] = gf(x, k);
            }
        }
        t
    })
}

pub struct Aes(pub Vec<[u8; 4]>);

impl Aes {
    pub fn new(key: &[u8]) -> Option<Aes> {
        let t = tables();
        let nk = match key.len() {
            16 | 24 | 32 => key.len() / 4,
            _ => return None,
        };
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nk + 7) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [x[1], x[2], x[3], x[0]];
            }
            if i % nk == 0 || (nk > 6 && i % nk == 4) {
                for b in x.iter_mut() {
                    *b = t.s[*b as usize];
                }
            }
            if i % nk == 0 {
                x[0] ^= rc;
                rc = gf(rc, 2);
            }
            let y = w[i - nk];
            w.push([x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]]);
        }
        Some(Aes(w))
    }
    pub fn key(&self, st: &mut [u8; 16], round: usize) {
        for i in 0..16 {
            st[i] ^= self.0[4 * round + i / 4][i % 4];
        }
    }
    fn mix(st: &mut [u8; 16], m: [usize; 4]) {
        let t = tables();
        for c in 0..4 {
            let x = [st[4 * c], st[4 * c + 1], st[4 * c + 2], st[4 * c + 3]];
            for r in 0..4 {
                st[4 * c + r] = (0..4).fold(0, |a, k| a ^ t.by[m[(k + 4 - r) % 4]][x[k] as usize]);
            }
        }
    }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = tables();
        let last = self.0.len() / 4 - 1;
        let mut st = *b;
        self.key(&mut st, 0);
        for r in 1..=last {
            let x = st;
            for i in 0..16 {
                st[i] = t.s[x[(i + 4 * (i % 4)) % 16] as usize];
            }
            if r < last {
                Aes::mix(&mut st, [2, 3, 1, 1]);
            }
            self.key(&mut st, r);
        }
        st
    }
    pub fn decrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = tables();
        let last = self.0.len() / 4 - 1;
        let mut st = *b;
        for r in (1..=last).rev() {
            self.key(&mut st, r);
            if r < last {
                Aes::mix(&mut st, [14, 11, 13, 9]);
            }
            let x = st;
            for i in 0..16 {
                st[(i + 4 * (i % 4)) % 16] = t.inv[x[i] as usize];
            }
        }
        self.key(&mut st, 0);
        st
    }
}

impl Aes {
    pub fn rounds(&self) -> usize {
        self.0.len() / 4 - 1
    }
    /// The block whose encryption passes through this state in that round (0: before the first):
    /// after the round key (0), before it (1), or before the columns of the next round are mixed (2).
    pub fn back(&self, x: &[u8; 16], round: usize, place: usize) -> [u8; 16] {
        let t = tables();
        let mut st = *x;
        if place == 1 {
            self.key(&mut st, round);
        } else if place == 2 {
            for i in 0..16 {
                st[(i + 4 * (i % 4)) % 16] = t.inv[x[i] as usize];
            }
        }
        for r in (1..=round).rev() {
            self.key(&mut st, r);
            if r < self.rounds() {
                Aes::mix(&mut st, [14, 11, 13, 9]);
            }
            let y = st;
            for i in 0..16 {
                st[(i + 4 * (i % 4)) % 16] = t.inv[y[i] as usize];
            }
        }
        self.key(&mut st, 0);
        st
    }
    /// The key whose schedule ends in these words (those before the last nk are worked out).
    pub fn key_from(mut w: Vec<[u8; 4]>, nk: usize) -> Vec<u8> {
        let t = tables();
        let mut rc = vec![1u8];
        for _ in 0..16 {
            rc.push(gf(rc[rc.len() - 1], 2));
        }
        for i in (nk..w.len()).rev() {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [x[1], x[2], x[3], x[0]];
            }
            if i % nk == 0 || (nk > 6 && i % nk == 4) {
                for b in x.iter_mut() {
                    *b = t.s[*b as usize];
                }
            }
            if i % nk == 0 {
                x[0] ^= rc[i / nk - 1];
            }
            let y = w[i];
            w[i - nk] = [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]];
        }
        w[..nk].concat()
    }
}

// ------------------------------------------------------------------ CBC streams

/// What Cipher and Decipher answer, as in spec/CbcStream.tla (a refused call keeps what is left over).
pub struct Stream {
    pub cipher: bool,
    pub key: Option<Aes>,
    pub iv: [u8; 16],
    pub pend: Vec<u8>,
    held: Vec<u8>,
}

pub type Answer = (&'static str, Vec<u8>);

impl Stream {
    pub fn new(cipher: bool, iv: [u8; 16]) -> Stream {
        Stream { cipher, key: None, iv, pend: vec![], held: vec![] }
    }
    pub fn init(&mut self, key: &[u8]) -> Answer {
        match Aes::new(key) {
            None => ("InvalidKeySize", vec![]),
            k => {
                self.key = k;
                ("ok", vec![])
            }
        }
    }
    pub fn write(&mut self, d: &[u8]) -> Answer {
        self.pend.extend_from_slice(d);
        let n = self.pend.len() / 16 * 16;
        if n > 0 && self.key.is_none() {
            self.pend.drain(..n);
            return ("NotInitialized", vec![]);
        }
        let all: Vec<u8> = self.pend.drain(..n).collect();
        let mut out = std::mem::take(&mut self.held);
        for b in all.chunks(16) {
            let mut x = [0u8; 16];
            x.copy_from_slice(b);
            let k = self.key.as_ref().unwrap();
            if self.cipher {
                (0..16).for_each(|i| x[i] ^= self.iv[i]);
                self.iv = k.encrypt(&x);
                out.extend(self.iv);
            } else {
                let mut y = k.decrypt(&x);
                (0..16).for_each(|i| y[i] ^= self.iv[i]);
                self.iv = x;
                out.extend(y);
            }
        }
        if !self.cipher && !out.is_empty() {
            self.held = out.split_off(out.len() - 16);
        }
        ("ok", out)
    }
    pub fn flush(&mut self) -> Answer {
        if self.cipher {
            if self.key.is_none() {
                self.pend.clear();
                return ("NotInitialized", vec![]);
            }
            let n = 16 - self.pend.len();
            return self.write(&vec![n as u8; n]);
        }
        if !self.pend.is_empty() || self.held.is_empty() {
            return ("UnfinishedBlock", vec![]);
        }
        let n = self.held[15] as usize;
        if n == 0 || n > 16 || self.held[16 - n..].iter().any(|b| *b as usize != n) {
            return ("InvalidPadding", vec![]);
        }
        let mut out = std::mem::take(&mut self.held);
        out.truncate(16 - n);
        ("ok", out)
    }
}

// ------------------------------------------------------------------ Salsa20, scrypt

pub fn salsa(x: &[u8], rounds: u64) -> Vec<u8> {
    x.chunks(64).flat_map(|c| unlane(&[core(lane(c)[0], rounds)])).collect()
}

/// states after the double-rounds numbered in `want`, each with the next one, by `core` too
pub fn salsa_steps(x: &[u8], rounds: u64, want: &[u64]) -> (Vec<u8>, Vec<(u64, Vec<u8>, Vec<u8>)>) {
    let x0 = lane(x)[0];
    let mut z = x0;
    let mut steps = vec![];
    let mut want: Vec<u64> = want.iter().cloned().filter(|w| *w < rounds).collect();
    want.sort();
    want.dedup();
    let mut at = 0;
    for w in want {
        for _ in at..w {
            double_round(&mut z);
        }
        let before = z;
        double_round(&mut z);
        at = w + 1;
        steps.push((w, unlane(&[before]), unlane(&[z])));
    }
    for _ in at..rounds {
        double_round(&mut z);
    }
    for i in 0..16 {
        z[i] = z[i].wrapping_add(x0[i]);
    }
    (unlane(&[z]), steps)
}

pub fn scrypt_key(r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    let b = pbkdf2(pw, salt, 1, 128 * r * p);
    let mut mixed = vec![];
    for lb in b.chunks(128 * r) {
        let mut x = lane(lb);
        let mut v = vec![];
        for _ in 0..n {
            let y = block_mix(&x);
            v.push(x);
            x = y;
        }
        for _ in 0..n {
            let j = x[2 * r - 1][0] as usize % n;
            for (a, b) in x.iter_mut().zip(&v[j]) {
                for k in 0..16 {
                    a[k] ^= b[k];
                }
            }
            x = block_mix(&x);
        }
        mixed.extend(unlane(&x));
    }
    pbkdf2(pw, &mixed, 1, len)
}

pub type Blk = [u32; 16];

pub fn double_round(x: &mut Blk) {
    let qr = |x: &mut Blk, a: usize, b: usize, c: usize, d: usize| {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    };
    qr(x, 0, 4, 8, 12);
    qr(x, 5, 9, 13, 1);
    qr(x, 10, 14, 2, 6);
    qr(x, 15, 3, 7, 11);
    qr(x, 0, 1, 2, 3);
    qr(x, 5, 6, 7, 4);
    qr(x, 10, 11, 8, 9);
    qr(x, 15, 12, 13, 14);
}

/// The 32 assignments of a double-round, each of which can be undone by itself.
pub mod inv_double_round_part {
    use super::Blk;
    const QUARTERS: [[usize; 4]; 8] = [
        [0, 4, 8, 12], [5, 9, 13, 1], [10, 14, 2, 6], [15, 3, 7, 11],
        [0, 1, 2, 3], [5, 6, 7, 4], [10, 11, 8, 9], [15, 12, 13, 14],
    ];
    /// (word changed, the two words added)
    pub const STEPS: [(usize, usize, usize); 32] = steps();
    const fn steps() -> [(usize, usize, usize); 32] {
        let mut t = [(0, 0, 0); 32];
        let mut k = 0;
        while k < 8 {
            let [a, b, c, d] = QUARTERS[k];
            t[4 * k] = (b, a, d);
            t[4 * k + 1] = (c, b, a);
            t[4 * k + 2] = (d, c, b);
            t[4 * k + 3] = (a, d, c);
            k += 1;
        }
        t
    }
    pub fn undo(x: &mut Blk, k: usize) {
        let (z, a, b) = STEPS[k];
        x[z] ^= x[a].wrapping_add(x[b]).rotate_left([7, 9, 13, 18][k % 4]);
    }
}

pub fn core(x0: Blk, rounds: u64) -> Blk {
    let mut x = x0;
    for _ in 0..rounds {
        double_round(&mut x);
    }
    for i in 0..16 {
        x[i] = x[i].wrapping_add(x0[i]);
    }
    x
}

fn salsa8(b: &mut Blk) {
    *b = core(*b, 4);
}

pub fn block_mix(b: &[Blk]) -> Vec<Blk> {
    let n = b.len();
    let mut out = vec![[0u32; 16]; n];
    let mut x = b[n - 1];
    for (i, e) in b.iter().enumerate() {
        for j in 0..16 {
            x[j] ^= e[j];
        }
        salsa8(&mut x);
        out[if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 }] = x;
    }
    out
}

pub fn lane(b: &[u8]) -> Vec<Blk> {
    b.chunks(64)
        .map(|c| {
            let mut x = [0u32; 16];
            for i in 0..16 {
                x[i] = u32::from_le_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
            }
            x
        })
        .collect()
}

pub fn unlane(l: &[Blk]) -> Vec<u8> {
    l.iter().flat_map(|b| b.iter().flat_map(|w| w.to_le_bytes())).collect()
}

fn barr(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

/// scrypt.witness r N p pw salt len samples seed
pub fn scrypt(rec: &mut Rec, w: &[&str]) -> Reply {
    let (r, n, p) = (num(w[1]), num(w[2]), num(w[3]));
    let (pw, salt, len) = (unhex(w[4]), unhex(w[5]), num(w[6]) as usize);
    let (samples, seed) = (num(w[7]) as usize, num(w[8]));
    rec.limbs("rr", r).limbs("nn", n).limbs("pp", p).bytes("pw", &pw).bytes("salt", &salt);
    rec.num("len", len as u64);

    let mut out = OutBuf::new(len, 0x3C);
    let rep = guarded(|| {
        let sc = Scrypt::new(r as usize, n as usize, p as usize);
        reply_of(sc.derive(&pw, &salt, out.slice()).map(|_| vec![]))
    });
    let rep = out.reply(rep);

    let mut b = vec![0u8; (p * 128 * r) as usize];
    let first = guarded(|| {
        pbkdf2_sha256(&pw, &salt, 1, &mut b); // TLC derives this by itself too
        Reply::ok(vec![])
    });
    if first.r != "ok" {
        return first;
    }
    rec.bytes("b", &b);
    let mut rng = Rng::new(seed);
    let mut mixed = vec![];
    let (mut fill, mut mix) = (vec![], vec![]);
    for (li, lb) in b.chunks((128 * r) as usize).enumerate() {
        let mut pick = |ends: bool| -> Vec<u64> {
            let mut v: Vec<u64> = (0..samples).map(|_| rng.next() % n).collect();
            if ends {
                v.extend([0, n - 1]);
            }
            v
        };
        let (wf, wm) = (pick(true), pick(true));
        let mut x = lane(lb);
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let y = block_mix(&x);
            if wf.contains(&i) {
                fill.push(format!("{{\"lane\":{},\"i\":{},\"x\":{},\"y\":{}}}", li, i, barr(&unlane(&x)), barr(&unlane(&y))));
            }
            v.push(x);
            x = y;
        }
        for i in 0..n {
            let last = &x[x.len() - 1];
            let j = ((last[0] as u64 | (last[1] as u64) << 32) % n) as usize;
            let t: Vec<Blk> = x
                .iter()
                .zip(v[j].iter())
                .map(|(a, b)| {
                    let mut c = *a;
                    for k in 0..16 {
                        c[k] ^= b[k];
                    }
                    c
                })
                .collect();
            let y = block_mix(&t);
            if wm.contains(&i) {
                mix.push(format!(
                    "{{\"lane\":{},\"i\":{},\"x\":{},\"j\":{},\"v\":{},\"y\":{}}}",
                    li, i, barr(&unlane(&x)), j, barr(&unlane(&v[j])), barr(&unlane(&y))
                ));
            }
            x = y;
        }
        mixed.extend(unlane(&x));
    }
    rec.raw("fill", &format!("[{}]", fill.join(",")));
    rec.raw("mix", &format!("[{}]", mix.join(",")));
    rec.bytes("mixed", &mixed);
    rep
}
