//! What the crate keeps.  An allocator that counts: bytes allocated and not given back, and the
//! most there ever were, between `start` and `stop`.

use crate::json::{Rec, Reply};
use crate::many::Source;
use crate::witness::Stream;
use crate::{die, guarded, num, reply_of};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

fn count(d: isize) {
    if ON.load(Relaxed) {
        let now = LIVE.fetch_add(d, Relaxed) + d;
        if d > 0 {
            PEAK.fetch_max(now, Relaxed);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

fn start() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    ON.store(true, Relaxed);
}
fn live() -> isize {
    LIVE.load(Relaxed)
}
fn stop() -> (isize, isize) {
    ON.store(false, Relaxed);
    (live(), PEAK.load(Relaxed))
}

/// the most kept after any call
struct Kept(isize);
impl Kept {
    fn look(&mut self) {
        self.0 = self.0.max(live());
    }
}

/// mem KIND calls top seed: so many calls with pieces of at most top bytes.  Sessions that do this
/// must have the process to themselves (mode seq).
pub fn step(rec: &mut Rec, w: &[&str]) -> Reply {
    let (kind, calls, top, seed) = (w[1], num(w[2]) as usize, num(w[3]) as usize, num(w[4]));
    let mut s = Source::new(seed);
    let data = s.rng.bytes(top);
    let keys: Vec<Vec<u8>> = [16, 24, 32, 16].iter().map(|n| s.rng.bytes(*n)).collect();
    let bad = s.rng.bytes(33);
    // lengths and choices are drawn first, so that nothing of this program is counted
    let plan: Vec<(usize, usize)> = (0..calls).map(|_| (s.below(top + 1), s.below(1 << 16))).collect();
    // a message whose end deciphers to padding wherever it begins
    let iv = [7u8; 16];
    let mut enc = Stream::new(true, iv);
    enc.init(&keys[0]);
    let mut whole = enc.write(&data).1;
    whole.extend(enc.flush().1);
    let mut out = vec![0u8; top.max(64)];
    let (pw, salt) = (s.rng.bytes(20), s.rng.bytes(20));
    let limbs: Vec<u64> = [0u64, 1, 2, 3, 1 << 20, 1 << 32, (1 << 32) + 1, 1 << 45, 1 << 63, u64::MAX].to_vec();
    let mut kept = Kept(0);
    let mut total: u64 = 0;
    start();
    let rep = guarded(|| {
        match kind {
            "sha" => {
                let mut x = SHA256::new();
                for (n, _) in &plan {
                    x.update(&data[..*n]);
                    total += *n as u64;
                    kept.look();
                }
                x.digest();
                kept.look();
            }
            "hmac" => {
                let mut x = HMac::new(&keys[0]);
                for (n, _) in &plan {
                    x.update(&data[..*n]);
                    total += *n as u64;
                    kept.look();
                }
                x.digest();
                kept.look();
            }
            "aes" => {
                let mut x = AES::new();
                for (_, c) in &plan {
                    match c % 8 {
                        0 => drop(x.init(&keys[c / 8 % 4])),
                        1 => drop(x.init(&bad[..c / 8 % 34 / 17 * 17])),
                        k if k % 2 == 0 => drop(x.encrypt(&iv)),
                        _ => drop(x.decrypt(&iv)),
                    }
                    kept.look();
                }
            }
            // one long message; many messages; many keys; no key
            "cipher" | "cipher.msgs" | "cipher.keys" | "cipher.none" => {
                let mut x = Cipher::new(iv);
                if kind != "cipher.none" {
                    drop(x.init(&keys[0]));
                }
                for (n, c) in &plan {
                    match (kind, c % 4) {
                        ("cipher.msgs", 0) | ("cipher.msgs", 1) | ("cipher.none", 0) => drop(x.flush()),
                        ("cipher.keys", 0) => drop(x.init(&keys[c / 8 % 4])),
                        ("cipher.keys", 1) => drop(x.init(&bad[..c / 8 % 34 / 17 * 17])),
                        _ => drop(x.write(&data[..*n])),
                    }
                    total += *n as u64;
                    kept.look();
                }
            }
            "decipher" | "decipher.bad" | "decipher.keys" | "decipher.none" => {
                let mut x = Decipher::new(iv);
                if kind != "decipher.none" {
                    drop(x.init(&keys[0]));
                }
                for (n, c) in &plan {
                    match (kind, c % 4) {
                        ("decipher.bad", 0) | ("decipher.bad", 1) | ("decipher.none", 0) => drop(x.flush()),
                        ("decipher.keys", 0) => drop(x.init(&keys[c / 8 % 4])),
                        ("decipher.keys", 1) => drop(x.init(&bad[..c / 8 % 34 / 17 * 17])),
                        _ => drop(x.write(&data[..*n])),
                    }
                    total += *n as u64;
                    kept.look();
                }
            }
            "decipher.msgs" => {
                let mut x = Decipher::new(iv);
                drop(x.init(&keys[0]));
                for (n, _) in &plan {
                    drop(x.write(&whole[..(*n).min(whole.len())]));
                    drop(x.write(&whole[(*n).min(whole.len())..]));
                    drop(x.flush());
                    total += whole.len() as u64;
                    kept.look();
                }
            }
            // objects that come and go
            "churn" => {
                for (n, c) in &plan {
                    let d = &data[..*n];
                    let key = &keys[c / 8 % 4];
                    match c % 5 {
                        0 => {
                            let mut x = SHA256::new();
                            x.update(d);
                            if c & 64 != 0 {
                                x.digest();
                            }
                        }
                        1 => {
                            let mut x = HMac::new(d);
                            x.update(d);
                            if c & 64 != 0 {
                                x.digest();
                            }
                        }
                        2 => {
                            let mut x = AES::new();
                            drop(x.init(key));
                            drop((x.encrypt(&iv), x.decrypt(&iv)));
                        }
                        3 => {
                            let mut x = Cipher::new(iv);
                            drop(x.init(key));
                            drop(x.write(d));
                            if c & 64 != 0 {
                                drop(x.flush());
                            }
                        }
                        _ => {
                            let mut x = Decipher::new(iv);
                            drop(x.init(key));
                            drop(x.write(d));
                            if c & 64 != 0 {
                                drop(x.flush());
                            }
                        }
                    }
                    total += *n as u64;
                    kept.look();
                }
            }
            "pbkdf2" => {
                let c = num(w[5]) as usize;
                for (n, k) in &plan {
                    pbkdf2_sha256(&data[..*k % (top + 1)], &salt, c, &mut out[..*n]);
                    kept.look();
                }
            }
            "salsa" => {
                let c = num(w[5]) as usize;
                for (n, _) in &plan {
                    let n = n / 64 * 64;
                    salsa20(&data[..n], c, &mut out[..n]);
                    kept.look();
                }
            }
            "scrypt" => {
                let sc = Scrypt::new(num(w[5]) as usize, num(w[6]) as usize, num(w[7]) as usize);
                for (n, k) in &plan {
                    let r = sc.derive(&data[..*k % (top + 1)], &salt, &mut out[..*n]);
                    if let Err(e) = r {
                        return reply_of::<dumb_crypto::scrypt::ScryptError>(Err(e));
                    }
                    kept.look();
                }
            }
            "scrypt.refuse" => {
                for (n, k) in &plan {
                    // out of range in p, in N, in r, in turn; the others in range, as large as they come
                    let big = limbs[4 + k / 8 % 6] as usize;
                    let (r, m, p) = match k % 6 {
                        0 => (1 << 20, 1 << 30, 0),
                        1 => (1 << 20, (1 << 30) - 1, 1),
                        2 => (0, 1 << 30, 1 << 20),
                        3 => (1 << 20, 1 << 30, big.max(1 << 32)),
                        4 => (big.max(1 << 32), 2, 1),
                        _ => (1, 1 << 20, 1),
                    };
                    if Scrypt::new(r, m, p).derive(&pw, &salt, &mut out[..*n]).is_ok() {
                        return Reply { r: "accepted".into(), out: vec![], text: 1 };
                    }
                    kept.look();
                }
            }
            x => die!("unknown kind {}", x),
        }
        Reply::ok(vec![])
    });
    let (left, peak) = stop();
    let cap = |x: isize| x.clamp(0, 2_000_000_000) as u64;
    rec.text("kind", kind).num("calls", calls as u64).num("top", top as u64).num("total", total.min(2_000_000_000));
    rec.num("kept", cap(kept.0)).num("peak", cap(peak)).num("left", cap(left));
    rec.raw("params", &format!("[{}]", w[5..].join(",")));
    rep
}
