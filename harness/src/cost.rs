//! What calls cost.  Two lots of calls that the specification says are the same amount of work,
//! cut differently or made at another point of a history, and the processor time each took.

use crate::json::{Rec, Reply};
use crate::witness::Stream;
use crate::{die, guarded, num, Rng};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;

/// processor time of this thread, in microseconds
fn now() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) } != 0 {
        die!("no clock");
    }
    t.sec as u64 * 1_000_000 + t.nsec as u64 / 1000
}

/// a lot took far too long: its record will be refused, so the lots after it are not worth their time
static OVER: AtomicBool = AtomicBool::new(false);

const TOP: usize = 1 << 23;

struct Lot<'a> {
    kind: &'a str,
    calls: usize,
    q: Vec<usize>,
    data: &'a [u8],
    /// ciphertext of the bytes at the beginning of data, ending in padding, for the key and IV below
    cipher: Vec<u8>,
}

const IV: [u8; 16] = [7; 16];
const KEY: [u8; 32] = [9; 32];

fn enciphered(data: &[u8]) -> Vec<u8> {
    let mut s = Stream::new(true, IV);
    s.init(&KEY);
    let mut v = s.write(data).1;
    v.extend(s.flush().1);
    v
}

/// pieces of a message
fn cut(m: &[u8], piece: usize) -> std::slice::Chunks<'_, u8> {
    m.chunks(piece.max(1))
}

impl Lot<'_> {
    fn new<'a>(kind: &'a str, calls: usize, q: Vec<usize>, data: &'a [u8]) -> Lot<'a> {
        let cipher = if matches!(kind, "decipher" | "decipher.msgs" | "decipher.keys") { enciphered(&data[..q[0]]) } else { vec![] };
        Lot { kind, calls, q, data, cipher }
    }

    /// the calls; contents differ from one to the next.  What they return goes into the sum.
    fn run(&self, age: &mut usize, times: usize) -> u64 {
        let mut sum = 0u64;
        let q = &self.q;
        let mut out = vec![0u8; 64];
        for _ in 0..times {
            *age += 1;
            let id = (*age as u64).to_le_bytes();
            let from = *age * 4099 % (1 << 20);
            let mut key = KEY;
            key[..8].copy_from_slice(&id);
            match self.kind {
                "sha" => {
                    let mut x = SHA256::new();
                    x.update(&[]);
                    for d in cut(&self.data[from..from + q[0]], q[1]) {
                        x.update(d);
                    }
                    sum += x.digest()[0] as u64;
                }
                "hmac" => {
                    let mut x = HMac::new(&self.data[from + 1..from + 1 + q[2]]);
                    for d in cut(&self.data[from..from + q[0]], q[1]) {
                        x.update(d);
                    }
                    sum += x.digest()[0] as u64;
                }
                "pbkdf2" => {
                    out.resize(q[3], 0);
                    pbkdf2_sha256(&self.data[from..from + q[0]], &self.data[from + 1..from + 1 + q[1]], q[2], &mut out);
                    sum += out[0] as u64;
                }
                "salsa" => {
                    out.resize(q[0], 0);
                    salsa20(&self.data[from..from + q[0]], q[1], &mut out);
                    sum += out[0] as u64;
                }
                "scrypt" => {
                    out.resize(32, 0);
                    let r = Scrypt::new(q[0], q[1], q[2]).derive(&self.data[from..from + q[3]], &self.data[from + 1..from + 1 + q[4]], &mut out);
                    if r.is_err() {
                        die!("scrypt refused");
                    }
                    sum += out[0] as u64;
                }
                "scrypt.refuse" => {
                    out.resize(32, 0);
                    // 64-bit parameters are given as powers of two and something more
                    let big = |i: usize| if q[i] >= 100 { (1usize << (q[i] - 100)) + q[i + 1] } else { q[i] };
                    let r = Scrypt::new(big(0), big(2), big(4)).derive(&key, &id, &mut out);
                    sum += r.is_err() as u64;
                }
                "aes" => {
                    let mut x = AES::new();
                    drop(x.init(&key));
                    let mut b = IV;
                    for i in 0..q[0] {
                        b = if i % 3 == 0 { x.decrypt(&b) } else { x.encrypt(&b) }.unwrap_or(b);
                    }
                    sum += b[0] as u64;
                }
                "cipher" | "cipher.msgs" | "cipher.keys" => {
                    let mut x = Cipher::new(IV);
                    drop(x.init(&key));
                    for k in 0..q.get(2).cloned().unwrap_or(1) {
                        if self.kind == "cipher.keys" {
                            key[8] ^= k as u8;
                            drop(x.init(&key[..[16, 24, 32][k % 3]]));
                        }
                        for d in cut(&self.data[from..from + q[0]], q[1]) {
                            sum += x.write(d).map_or(0, |v| v.len() as u64);
                        }
                        sum += x.flush().map_or(0, |v| v[0] as u64);
                    }
                }
                "decipher" | "decipher.msgs" | "decipher.keys" => {
                    let mut x = Decipher::new(IV);
                    drop(x.init(&KEY));
                    for k in 0..q.get(2).cloned().unwrap_or(1) {
                        if self.kind == "decipher.keys" {
                            key[8] ^= k as u8;
                            drop(x.init(&key[..[16, 24, 32][k % 3]]));
                        }
                        for d in cut(&self.cipher, q[1]) {
                            sum += x.write(d).map_or(0, |v| v.len() as u64);
                        }
                        sum += x.flush().map_or(0, |v| v.len() as u64);
                    }
                }
                "cipher.none" => {
                    let mut x = Cipher::new(IV);
                    for d in cut(&self.data[from..from + q[0]], q[1]) {
                        sum += x.write(d).is_err() as u64;
                    }
                }
                "decipher.none" => {
                    let mut x = Decipher::new(IV);
                    for d in cut(&self.data[from..from + q[0]], q[1]) {
                        sum += x.write(d).is_err() as u64;
                    }
                }
                // ends that are no padding
                "decipher.bad" => {
                    let mut x = Decipher::new(IV);
                    drop(x.init(&key));
                    for i in 0..q[0] {
                        sum += x.flush().is_err() as u64;
                        if i % 2 == 0 {
                            sum += x.write(&self.data[from..from + 16]).map_or(0, |v| v.len() as u64);
                        }
                    }
                }
                k => die!("unknown kind {}", k),
            }
        }
        sum
    }
}

/// cost KIND seed before CALLS q.. / CALLS q..: the second lot, after as many of its calls as
/// `before` says, is to take about as long as the first
pub fn step(rec: &mut Rec, w: &[&str]) -> Reply {
    let (kind, seed, before) = (w[1], num(w[2]), num(w[3]) as usize);
    let lots: Vec<Vec<usize>> =
        w[4..].split(|x| *x == "/").map(|l| l.iter().map(|x| num(x) as usize).collect()).collect();
    let data = Rng::new(seed).bytes(TOP + 2048);
    let second = if OVER.load(Relaxed) { &lots[0] } else { &lots[1] };
    let (a, b) = (Lot::new(kind, lots[0][0], lots[0][1..].to_vec(), &data), Lot::new(kind, second[0], second[1..].to_vec(), &data));
    let (mut ta, mut tb, mut sum, mut trials) = (u64::MAX, u64::MAX, 0, 0);
    let rep = guarded(|| {
        let mut age = seed as usize % 100_000;
        // the processor's noise only ever adds, so the least of some trials; no more once it is plain
        while trials < 6 {
            let t = now();
            sum += a.run(&mut age, a.calls);
            ta = ta.min(now() - t);
            if trials == 0 {
                sum += b.run(&mut age, before);
            }
            let t = now();
            sum += b.run(&mut age, b.calls);
            tb = tb.min(now() - t);
            trials += 1;
            let far = tb > 16 * ta + 2_000_000 || (trials >= 3 && tb > 12 * ta + 200_000);
            if far {
                OVER.store(true, Relaxed);
            }
            if tb <= 2 * ta || far {
                break;
            }
        }
        Reply::ok(vec![])
    });
    let lot = |l: &Lot, t: u64| {
        let q: Vec<String> = l.q.iter().map(|x| x.to_string()).collect();
        format!("{{\"calls\":{},\"q\":[{}],\"us\":{}}}", l.calls, q.join(","), t.min(2_000_000_000))
    };
    rec.text("kind", kind).num("before", before as u64).num("trials", trials).num("sum", sum % 1_000_000_000);
    rec.raw("a", &lot(&a, ta)).raw("b", &lot(&b, tb));
    rep
}
