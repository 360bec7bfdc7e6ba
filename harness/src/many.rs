//! Random calls by the hundred thousand.  Each result is compared with a witness's; what goes
//! into the record, for TLC to judge, is a few results picked at random and every result that
//! differs from the witness's (up to a few).  So the witness only chooses where TLC looks.

use crate::bulk::list;
use crate::json::{put_bytes, Rec, Reply};
use crate::craft;
use crate::witness::{self, compress, constants, Aes, Prf, Sha, Stream, SHA_IV};
use crate::{die, failed, guarded, iv16, num, reply_of, Args, OutBuf, Rng};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::error::Error;
use std::fmt::Debug;

/// Contents: mostly random, otherwise of some shape, or made from what was used before.
pub struct Source {
    pub rng: Rng,
    pool: Vec<Vec<u8>>,
}

impl Source {
    pub fn new(seed: u64) -> Source {
        Source { rng: Rng::new(seed), pool: vec![] }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.rng.below(n)
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.rng.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.below(26) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![self.below(256) as u8; n],
            3 => {
                let a = self.below(256);
                let d = self.of(&[1usize, 2, 17, 255]);
                (0..n).map(|i| (a + i * d) as u8).collect()
            }
            4 => (0..n).map(|_| [0, 1, 2, 3, 15, 16, 17, 127, 128, 255][self.rng.below(10)]).collect(),
            5 => {
                let mut w = vec![];
                while w.len() < n {
                    let x: u32 = self.of(&[0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff, 0x1_0000, 0x00ff_00ff]);
                    w.extend(if self.below(2) == 0 { x.to_be_bytes() } else { x.to_le_bytes() });
                }
                w.truncate(n);
                w
            }
            6 => {
                let mut w = vec![0; n];
                if n > 0 {
                    let i = self.below(n);
                    w[i] = 1 << self.below(8);
                }
                w
            }
            7 | 8 => {
                let k = self.below(n + 1); // zeros at one end
                let mut w = self.rng.bytes(n);
                if self.below(2) == 0 {
                    w[..k].fill(0);
                } else {
                    w[k..].fill(0);
                }
                w
            }
            9 => {
                let k = self.of(&[1usize, 2, 4, 8, 16, 32, 64]); // a repeated unit
                let u = self.rng.bytes(k);
                u.iter().cycle().take(n).cloned().collect()
            }
            10 => (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyz 0123456789"[self.rng.below(37)]).collect(),
            11 => {
                let k = self.of(&[1u8, 2, 4, 8]); // few bits
                let m = self.rng.bytes(n);
                m.iter().map(|x| x & k.wrapping_mul(0x11)).collect()
            }
            12..=15 if !self.pool.is_empty() => {
                let i = self.below(self.pool.len()); // nearly the same as before
                let mut w = self.pool[i].clone();
                self.nearly(&mut w);
                let more = if self.below(2) == 0 { vec![0; n] } else { self.rng.bytes(n) };
                w.extend(more);
                w.truncate(n);
                w
            }
            _ => self.rng.bytes(n),
        };
        v.truncate(n);
        if self.pool.len() < 32 {
            self.pool.push(v.clone());
        } else {
            let i = self.below(32);
            self.pool[i] = v.clone();
        }
        v
    }
    /// a change that a short cut through the contents may not see
    pub fn nearly(&mut self, w: &mut [u8]) {
        let n = w.len();
        if n < 2 {
            return;
        }
        let (i, d) = (self.below(n), 1 + self.below(255) as u8);
        // another place: anywhere, next to it, or some words further
        let j = match self.below(3) {
            0 => self.below(n),
            1 => (i + 1) % n,
            _ => (i + self.of(&[2usize, 4, 8, 16, 32, n / 2])) % n,
        };
        match self.below(10) {
            0 => w[i] ^= 1 << self.below(8),
            1 => w.reverse(),
            2 => w.rotate_left(1 + self.below(n - 1)),
            3 => w.swap(i, j),
            4 if i != j => {
                w[i] ^= d;
                w[j] ^= d;
            }
            5 if i != j => {
                w[i] = w[i].wrapping_add(d);
                w[j] = w[j].wrapping_sub(d);
            }
            6 if n > 16 => {
                let m = self.rng.bytes(n - 16); // only the ends are the same
                w[8..n - 8].copy_from_slice(&m);
            }
            7 => {
                let k = self.below(n);
                let m = self.rng.bytes(n - k);
                w[k..].copy_from_slice(&m);
            }
            8 => {
                let k = self.below(n);
                let m = self.rng.bytes(k);
                w[..k].copy_from_slice(&m);
            }
            _ => {}
        }
    }
    pub fn block(&mut self) -> [u8; 16] {
        iv16(&self.bytes(16))
    }
    /// a length, small or next to a multiple of the block size
    pub fn len(&mut self, top: usize) -> usize {
        match self.below(4) {
            0 => {
                let k = self.of(&[16usize, 32, 55, 56, 64, 119, 120, 128, 192, 256]);
                (k + self.below(3)).saturating_sub(1).min(top)
            }
            1 => self.below(20).min(top),
            _ => self.below(top + 1),
        }
    }
    pub fn key(&mut self) -> Vec<u8> {
        let n = self.of(&[16usize, 24, 32]);
        if self.below(5) == 0 {
            return craft::aes_key(self);
        }
        self.bytes(n)
    }
    /// a message of about n bytes with blocks worked out backwards, for a hash that begins at h
    fn message(&mut self, n: usize, mut h: [u32; 8]) -> Vec<u8> {
        let mut m = vec![];
        while m.len() + 64 <= n {
            let blk = if self.below(3) > 0 { craft::sha_block(self, &h) } else { self.bytes(64) };
            compress(&mut h, &blk, &constants());
            m.extend(blk);
        }
        // the last block has room for chosen words before the padding
        let blk = craft::sha_block(self, &h);
        m.extend(&blk[..n - m.len()]);
        m
    }
    pub fn pieces(&mut self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut left = n;
        let top = 1 + self.below(n + 1);
        if self.below(3) > 0 {
            while left > 0 {
                let k = self.below(top + 1).min(left);
                v.push(k);
                left -= k;
            }
        } else {
            v.push(n);
        }
        v
    }
}

fn b(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

/// a reply's error text must not be empty; an empty one is a reply of its own
fn name(r: &Reply) -> String {
    if r.r != "ok" && r.r != "panic" && r.text == 0 {
        format!("untold{}", r.r)
    } else {
        r.r.clone()
    }
}

struct Picked {
    smp: Vec<String>,
    odd: usize,
}

impl Picked {
    /// one result; `same` tells whether the witness agrees
    fn add(&mut self, pick: bool, same: bool, f: impl FnOnce() -> String) {
        if !same {
            self.odd += 1;
        }
        if (!same && self.odd <= 4) || pick {
            let s = f();
            if same {
                self.smp.push(s);
            } else {
                self.smp.insert(0, s);
            }
        }
    }
}

fn ok32(r: &Reply, want: &[u8]) -> bool {
    r.r == "ok" && r.out == want
}

fn err<E: Debug + Error>(e: E) -> Reply {
    failed(e)
}

/// X.many count seed samples
pub fn step(rec: &mut Rec, args: &mut Args, w: &[&str]) -> Reply {
    let (count, seed, samples) = (num(w[1]) as usize, num(w[2]), num(w[3]) as usize);
    rec.num("count", count as u64);
    let mut s = Source::new(seed);
    let mut got = Picked { smp: vec![], odd: 0 };
    let mut choose = Rng::new(seed ^ 0x5555);
    for i in 0..count {
        let pick = i < samples.min(2) || choose.below(count) < samples;
        args.move_to(i / 3); // now and then the next call's data lie where the last one's did
        match w[0] {
            "sha.many" => {
                let top = if s.below(40) == 0 { 3000 } else { 300 };
                let n = s.len(top);
                let m = if s.below(3) == 0 { s.message(n, SHA_IV) } else { s.bytes(n) };
                let cuts = s.pieces(n);
                let d = args.put(0, &m);
                let r = guarded(|| {
                    let mut h = SHA256::new();
                    let mut at = 0;
                    for k in &cuts {
                        h.update(&d[at..at + k]);
                        at += k;
                    }
                    Reply::ok(h.digest().to_vec())
                });
                let same = ok32(&r, &Sha::of(&m));
                got.add(pick, same, || format!("{{\"m\":{},\"r\":\"{}\",\"out\":{}}}", b(&m), r.r, b(&r.out)));
            }
            "hmac.many" => {
                let (n, kl) = (s.len(260), s.len(150));
                let key = s.bytes(kl);
                let m = if s.below(3) == 0 { s.message(n, Prf::new(&key).inner) } else { s.bytes(n) };
                let cuts = s.pieces(n);
                let (d, k) = args.two(&m, &key);
                let r = guarded(|| {
                    let mut h = HMac::new(k);
                    let mut at = 0;
                    for k in &cuts {
                        h.update(&d[at..at + k]);
                        at += k;
                    }
                    Reply::ok(h.digest().to_vec())
                });
                let same = ok32(&r, &Prf::new(&key).of(&m));
                got.add(pick, same, || {
                    format!("{{\"key\":{},\"m\":{},\"r\":\"{}\",\"out\":{}}}", b(&key), b(&m), r.r, b(&r.out))
                });
            }
            "pbkdf2.many" => {
                let (pl, sl) = (s.len(100), s.len(100));
                let len = s.len(140);
                let (pw, salt) = (s.bytes(pl), s.bytes(sl));
                let c = if s.below(30) == 0 { 1 + s.below(40) } else { 1 + s.below(4) } as u64;
                let pat = s.of(&[0u8, 255, 165, 1]);
                let mut out = OutBuf::new(len, pat);
                let (p, q) = args.two(&pw, &salt);
                let r = guarded(|| {
                    pbkdf2_sha256(p, q, c as usize, out.slice());
                    Reply::ok(vec![])
                });
                let r = out.reply(r);
                let same = ok32(&r, &witness::pbkdf2(&pw, &salt, c, len));
                got.add(pick, same, || {
                    format!(
                        "{{\"pw\":{},\"salt\":{},\"c\":{},\"len\":{},\"r\":\"{}\",\"out\":{}}}",
                        b(&pw), b(&salt), c, len, r.r, b(&r.out)
                    )
                });
            }
            "salsa.many" => {
                let k = if s.below(4) == 0 { s.below(6) } else { 1 };
                let n = if s.below(20) == 0 { s.below(300) } else { s.below(11) };
                let x = if s.below(2) == 0 {
                    (0..k).flat_map(|_| craft::salsa_block(&mut s, n)).collect()
                } else {
                    s.bytes(64 * k)
                };
                let mut out = OutBuf::new(x.len(), s.of(&[0u8, 255, 165, 1]));
                let d = args.put(0, &x);
                let r = guarded(|| {
                    salsa20(d, n, out.slice());
                    Reply::ok(vec![])
                });
                let r = out.reply(r);
                let same = ok32(&r, &witness::salsa(&x, n as u64));
                got.add(pick, same, || format!("{{\"x\":{},\"n\":{},\"r\":\"{}\",\"out\":{}}}", b(&x), n, r.r, b(&r.out)));
            }
            "scrypt.many" => {
                let (r, n) = (s.of(&[1usize, 1, 1, 2, 2, 3, 4]), s.of(&[2usize, 2, 4, 4, 8, 16]));
                let p = s.of(&[1usize, 1, 1, 2, 3]);
                let (r, n, p) = match s.below(250) {
                    0 => (5 + s.below(40), 2, p),
                    1 => (r, n, 4 + s.below(40)),
                    2 => (r, 1 << s.below(if r == 1 { 10 } else { 11 }).max(1), 1),
                    3 if !pick => (1 + s.below(300), 2, 1),
                    4 if !pick => (1, 2, 1 + s.below(300)),
                    _ => (r, n, p),
                };
                let (pl, sl, len) = (s.len(80), s.len(80), s.len(100));
                let (pw, salt) = (s.bytes(pl), s.bytes(sl));
                let mut out = OutBuf::new(len, s.of(&[0u8, 255, 165, 1]));
                let (x, y) = args.two(&pw, &salt);
                let rep = guarded(|| reply_of(Scrypt::new(r, n, p).derive(x, y, out.slice()).map(|_| vec![])));
                let rep = out.reply(rep);
                let same = ok32(&rep, &witness::scrypt_key(r, n, p, &pw, &salt, len));
                got.add(pick, same, || {
                    format!(
                        "{{\"r_\":{},\"n_\":{},\"p_\":{},\"pw\":{},\"salt\":{},\"len\":{},\"r\":\"{}\",\"out\":{}}}",
                        r, n, p, b(&pw), b(&salt), len, name(&rep), b(&rep.out)
                    )
                });
            }
            "scrypt.refuse" => {
                let mut some = || -> u64 {
                    match s.below(6) {
                        0 => s.below(20) as u64,
                        1 => 1 << s.below(64),
                        2 => {
                            let k = s.below(64);
                            s.rng.next() >> k
                        }
                        3 => (1u64 << s.below(64)).wrapping_add(s.below(5) as u64).wrapping_sub(2),
                        4 => ((1u64 << 30) / (1 + s.below(40) as u64)).wrapping_add(s.below(5) as u64).wrapping_sub(2),
                        _ => s.of(&[0u64, 1, 2, 4, 8, 16, 1 << 15, 1 << 16, 1 << 32, 1 << 48, u64::MAX]),
                    }
                };
                let (r, n, p) = (some(), some(), some());
                let least = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
                let mut errs = vec![];
                if r == 0 {
                    errs.extend(least(&["RIsTooSmall"]));
                }
                if n < 2 {
                    errs.extend(least(&["NIsTooSmall"]));
                } else if n & (n - 1) != 0 {
                    errs.extend(least(&["NIsNotAPowerOfTwo"]));
                }
                if p == 0 {
                    errs.extend(least(&["PIsTooSmall"]));
                }
                if r < 4 && n as u128 >> (16 * r) != 0 {
                    errs.extend(least(&["NIsTooLarge"]));
                }
                if r > 0 && p as u128 * r as u128 > (1 << 30) - 1 {
                    errs.extend(least(&["PIsTooLarge"]));
                }
                if errs.is_empty() {
                    continue;
                }
                let len = s.len(40);
                let mut out = OutBuf::new(len, s.of(&[0u8, 255, 165, 1]));
                let before = out.bytes();
                let rep = guarded(|| {
                    reply_of(Scrypt::new(r as usize, n as usize, p as usize).derive(b"pw", b"salt", out.slice()).map(|_| vec![]))
                });
                let rep = out.reply(rep);
                let same = errs.contains(&name(&rep)) && rep.out == before;
                let limbs = |v: u64| format!("[{},{},{},{}]", v >> 48, (v >> 32) & 0xffff, (v >> 16) & 0xffff, v & 0xffff);
                got.add(pick, same, || {
                    format!(
                        "{{\"rr\":{},\"nn\":{},\"pp\":{},\"before\":{},\"r\":\"{}\",\"out\":{}}}",
                        limbs(r), limbs(n), limbs(p), b(&before), name(&rep), b(&rep.out)
                    )
                });
            }
            "aes.many" => {
                let key = s.key();
                let wit = Aes::new(&key).unwrap();
                let mut blocks: Vec<[u8; 16]> = vec![];
                for _ in 0..16 {
                    let x = match s.below(4) {
                        0 => s.block(),
                        1 if !blocks.is_empty() => wit.encrypt(&blocks[s.below(blocks.len())]),
                        _ => craft::aes_block(&mut s, &wit),
                    };
                    blocks.push(if s.below(3) == 0 { wit.encrypt(&x) } else { x });
                }
                let k = args.put(0, &key);
                let mut e = vec![];
                let mut d = vec![];
                let r = guarded(|| {
                    let mut aes = AES::new();
                    if let Err(x) = aes.init(k) {
                        return err(x);
                    }
                    for x in &blocks {
                        match (aes.encrypt(x), aes.decrypt(x)) {
                            (Ok(p), Ok(q)) => {
                                e.push(p);
                                d.push(q);
                            }
                            (Err(x), _) | (_, Err(x)) => return err(x),
                        }
                    }
                    Reply::ok(vec![])
                });
                let j = (0..blocks.len())
                    .find(|j| e.get(*j) != Some(&wit.encrypt(&blocks[*j])) || d.get(*j) != Some(&wit.decrypt(&blocks[*j])));
                let same = r.r == "ok" && j.is_none();
                let j = j.unwrap_or(0);
                let at = |v: &Vec<[u8; 16]>| v.get(j).map(|x| x.to_vec()).unwrap_or_default();
                got.add(pick, same, || {
                    format!(
                        "{{\"key\":{},\"b\":{},\"r\":\"{}\",\"e\":{},\"d\":{}}}",
                        b(&key), b(&blocks[j]), name(&r), b(&at(&e)), b(&at(&d))
                    )
                });
            }
            "cipher.many" | "decipher.many" => {
                let iv = s.block();
                let (log, same) = history(&mut s, args, w[0] == "cipher.many", iv, w.get(4) == Some(&"wild"));
                got.add(pick, same, || format!("{{\"iv\":{},\"calls\":[{}]}}", b(&iv), log.join(",")));
            }
            x => die!("unknown op {}", x),
        }
    }
    args.scrub();
    rec.raw("smp", &list(&got.smp, |x| x.clone()));
    Reply::ok(vec![])
}

enum Obj {
    C(Cipher),
    D(Decipher),
}

/// n bytes for a Cipher, so that blocks, as given or as enciphered, are those seen before or chosen ones
fn echoes(s: &mut Source, wit: &Stream, iv: [u8; 16], n: usize) -> Vec<u8> {
    let mut data: Vec<u8> = vec![];
    let mut part = wit.pend.clone();
    let (mut prev, mut plain, mut input) = (wit.iv, iv, iv);
    while data.len() < n {
        let mut x = match (&wit.key, s.below(7)) {
            (_, 0) => plain,
            (_, 1) => iv,
            (_, 2) => s.block(),
            (Some(k), 3) => k.encrypt(&prev),
            (Some(k), 4) => craft::aes_block(s, k),
            (_, 5) => input,
            _ => [0; 16],
        };
        if s.below(4) > 0 {
            (0..16).for_each(|i| x[i] ^= prev[i]);
        }
        data.extend(&x[part.len()..]);
        x[..part.len()].copy_from_slice(&part);
        part.clear();
        plain = x;
        (0..16).for_each(|i| input[i] = x[i] ^ prev[i]);
        prev = wit.key.as_ref().map_or(prev, |k| k.encrypt(&input));
    }
    data.truncate(n);
    data
}

/// A random history of one Cipher or Decipher; `wild` ones also use bad keys and no key.
fn history(s: &mut Source, args: &mut Args, cipher: bool, iv: [u8; 16], wild: bool) -> (Vec<String>, bool) {
    let mut wit = Stream::new(cipher, iv);
    let mut obj = if cipher { Obj::C(Cipher::new(iv)) } else { Obj::D(Decipher::new(iv)) };
    let mut log = vec![];
    let mut all_same = true;
    let mut queue: Vec<u8> = vec![]; // ciphertext still to be given to the Decipher
    let mut prev = iv;
    let mut key: Option<Aes> = None;
    let calls = 3 + s.below(12);
    for i in 0..calls {
        let first = i == 0 && !(wild && s.below(3) == 0);
        let act = if first { 0 } else { s.below(if wild { 10 } else { 40 }) };
        let (op, data): (&str, Vec<u8>) = if act == 0 {
            let k = if wild && s.below(3) == 0 {
                let n = s.below(70);
                s.bytes(n)
            } else {
                s.key()
            };
            key = Aes::new(&k).or(key);
            ("init", k)
        } else if s.below(3) == 0 {
            ("flush", vec![])
        } else if cipher {
            let n = s.len(70);
            ("write", if s.below(3) == 0 { echoes(s, &wit, iv, n) } else { s.bytes(n) })
        } else {
            if queue.len() < 16 {
                let n = s.below(4);
                for last in (0..=n).rev() {
                    let mut x = s.block();
                    if last == 0 {
                        let k = 1 + s.below(16);
                        match s.below(10) {
                            0 => x[15] = s.of(&[0u8, 17, 18, 128, 255]),
                            1 => {
                                x[16 - k..].fill(k as u8);
                                let j = 15 - s.below(k);
                                x[j] ^= 1 << s.below(8);
                            }
                            2 => {
                                x[16 - k..].fill(k as u8);
                                let (i, j) = (15 - s.below(k), 15 - s.below(k));
                                let d = s.below(256) as u8;
                                x[i] ^= d;
                                x[j] ^= d;
                            }
                            3 => {}
                            _ => x[16 - k..].fill(k as u8),
                        }
                    }
                    if let Some(k) = &key {
                        if last == 0 || s.below(3) > 0 {
                            (0..16).for_each(|q| x[q] ^= prev[q]);
                            x = k.encrypt(&x);
                        } else {
                            x = match s.below(6) {
                                0 => prev,
                                1 => iv,
                                2 => k.encrypt(&prev),
                                3 => k.decrypt(&prev),
                                4 => k.encrypt(&craft::aes_block(s, k)),
                                _ => x,
                            };
                        }
                        prev = x; // without a key the block will be refused
                    }
                    queue.extend(x);
                }
            }
            let n = match s.below(4) {
                0 => s.len(40),
                1 => queue.len(),
                _ => {
                    let less = if s.below(4) == 0 { s.below(16) } else { 0 };
                    ((queue.len() / 16).min(1 + s.below(4)) * 16).saturating_sub(less)
                }
            };
            let n = n.min(queue.len());
            ("write", queue.drain(..n).collect())
        };
        let d = args.put(i % 2, &data);
        let r = guarded(|| match (op, &mut obj) {
            ("init", Obj::C(x)) => reply_of(x.init(d).map(|_| vec![])),
            ("init", Obj::D(x)) => reply_of(x.init(d).map(|_| vec![])),
            ("write", Obj::C(x)) => reply_of(x.write(d)),
            ("write", Obj::D(x)) => reply_of(x.write(d)),
            (_, Obj::C(x)) => reply_of(x.flush()),
            (_, Obj::D(x)) => reply_of(x.flush()),
        });
        let want = match op {
            "init" => wit.init(&data),
            "write" => wit.write(&data),
            _ => wit.flush(),
        };
        let r_name = name(&r);
        log.push(format!("{{\"a\":\"{}\",\"data\":{},\"r\":\"{}\",\"out\":{}}}", op, b(&data), r_name, b(&r.out)));
        if r_name != want.0 || r.out != want.1 {
            all_same = false;
            break;
        }
    }
    (log, all_same)
}

/// noise LIVE CHURN SEED: what the rest of a program does meanwhile.  CHURN objects of every kind
/// come and go, LIVE of each stay until the end, and the functions are called; the session's own
/// objects are not touched.
pub fn noise(rec: &mut Rec, w: &[&str]) -> Reply {
    let (live, churn, seed) = (num(w[1]) as usize, num(w[2]) as usize, num(w[3]));
    rec.num("live", live as u64).num("churn", churn as u64);
    let mut s = Source::new(seed);
    let keys: Vec<Vec<u8>> = (0..4).map(|_| s.key()).collect();
    let mut kept: Vec<(SHA256, HMac, AES, Cipher, Decipher)> = vec![];
    guarded(|| {
        for k in 0..churn {
            let iv = [k as u8; 16];
            let key = &keys[k % 4];
            let (mut a, mut b, mut c) = (SHA256::new(), HMac::new(&iv[..k % 17]), AES::new());
            let (mut d, mut e) = (Cipher::new(iv), Decipher::new(iv));
            a.update(&iv[..k % 16]);
            b.update(&iv[..k % 13]);
            if k % 3 != 0 {
                let _ = (c.init(key), d.init(key), e.init(key));
            }
            let _ = (c.encrypt(&iv), d.write(&iv[..k % 17]), e.write(&iv[..k % 15]));
            if k % 2 == 0 {
                a.digest();
                b.digest();
                let _ = (c.decrypt(&iv), d.flush(), e.flush());
            }
            if k < live {
                kept.push((a, b, c, d, e));
            }
            if k % 64 == 0 {
                let mut out = [0u8; 64];
                pbkdf2_sha256(&iv[..k % 11], &iv, 1 + k % 2, &mut out[..k % 60]);
                salsa20(&[k as u8; 64], k % 5, &mut out);
                let _ = Scrypt::new(k % 3, 4, 1).derive(&iv, key, &mut out);
            }
        }
        Reply::ok(vec![])
    })
}
