//! One message of a great many blocks through one Cipher or Decipher, without keeping it.

use crate::bulk::{list, size};
use crate::json::{put_bytes, Rec, Reply};
use crate::{die, failed, guarded, iv16, num, unhex, witness, Rng};
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use std::time::{Duration, Instant};

fn barr(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

/// Blocks worth looking at: around the counts that fill a number of bits, as blocks, bytes or bits.
fn notable(i: u64, marks: &[u64]) -> bool {
    marks.iter().any(|m| i + 2 >= *m && i <= *m + 1)
}

enum One {
    C(Cipher),
    D(Decipher),
}

impl One {
    fn write(&mut self, d: &[u8]) -> Result<Vec<u8>, Reply> {
        match self {
            One::C(c) => c.write(d).map_err(failed),
            One::D(c) => c.write(d).map_err(failed),
        }
    }
    fn flush(&mut self) -> Result<Vec<u8>, Reply> {
        match self {
            One::C(c) => c.flush().map_err(failed),
            One::D(c) => c.flush().map_err(failed),
        }
    }
}

struct Log {
    cipher: bool,
    wit: witness::Aes,
    prev: [u8; 16],     // the ciphertext block before
    at: u64,            // blocks put out
    win: Vec<String>,
    off: Vec<String>,
    marks: Vec<u64>,
}

impl Log {
    /// A block that went in and the one that came out for it.
    fn block(&mut self, given: &[u8], got: &[u8], look: bool) {
        let (p, c) = if self.cipher { (given, got) } else { (got, given) };
        let mark = notable(self.at, &self.marks);
        if look || mark {
            let mut x = iv16(p);
            (0..16).for_each(|k| x[k] ^= self.prev[k]);
            let odd = self.wit.encrypt(&x)[..] != *c;
            if mark && self.win.len() < 120 || odd && self.off.len() < 3 {
                let s = format!("{{\"i\":{},\"p\":{},\"prev\":{},\"c\":{}}}", self.at, barr(p), barr(&self.prev), barr(c));
                if odd { self.off.push(s) } else { self.win.push(s) }
            }
        }
        self.prev = iv16(c);
        self.at += 1;
    }
}

pub fn step(rec: &mut Rec, w: &[&str]) -> Reply {
    // stream KIND key iv blocks rest seed top seconds
    let cipher = match w[1] {
        "cipher" => true,
        "decipher" => false,
        x => die!("unknown kind {}", x),
    };
    let (key, iv, want, rest, seed) = (unhex(w[2]), unhex(w[3]), num(w[4]), num(w[5]) as usize, num(w[6]));
    let (top, limit) = (num(w[7]) as usize, Duration::from_secs(num(w[8])));
    let mut rng = Rng::new(seed);
    let page = rng.bytes(2 * top + 64);
    let mut marks: Vec<u64> = vec![1];
    for k in 12..40u32 {
        marks.extend(&[1u64 << k, 3u64 << k]);
    }
    let mut log = Log { cipher, wit: witness::Aes::new(&key).unwrap(), prev: iv16(&iv), at: 0, win: vec![], off: vec![], marks };
    let mut early: Vec<u64> = vec![];
    let mut blocks = 0u64; // whole blocks of the message
    let mut ends: Vec<String> = vec![];
    let rep = guarded(|| {
        let mut one = if cipher {
            let mut c = Cipher::new(iv16(&iv));
            if let Err(e) = c.init(&key) {
                return failed(e);
            }
            One::C(c)
        } else {
            let mut c = Decipher::new(iv16(&iv));
            if let Err(e) = c.init(&key) {
                return failed(e);
            }
            One::D(c)
        };
        let began = Instant::now();
        // bytes given and not answered for yet; a Decipher holds one block back
        let mut wait: Vec<u8> = vec![];
        let mut fed = 0u64;
        while fed < 16 * want && began.elapsed() < limit {
            let k = std::cmp::min(size(&mut rng, top) as u64, 16 * want - fed) as usize;
            let from = rng.below(top);
            let d = &page[from..from + k];
            let got = match one.write(d) {
                Ok(v) => v,
                Err(e) => return e,
            };
            fed += k as u64;
            wait.extend_from_slice(d);
            let due = if cipher { fed / 16 } else { (fed / 16).saturating_sub(1) };
            if (log.at * 16 + got.len() as u64) != due * 16 {
                if early.len() < 3 {
                    early.push(fed / 16);
                }
                return Reply::ok(vec![]);
            }
            let n = got.len() / 16;
            for i in 0..n {
                let look = i < 8 || i + 8 >= n;
                log.block(&wait[16 * i..16 * i + 16], &got[16 * i..16 * i + 16], look);
            }
            wait.drain(..16 * n);
        }
        // the end of the message, and a short one after it
        let mut fill = (fed % 16) as usize;
        for round in 0..2u64 {
            let mut tail = rng.bytes(if round == 0 { 16 - fill + rest } else { 40 });
            if round == 0 {
                blocks = (fed + tail.len() as u64) / 16;
            }
            let len = fill + tail.len();
            let pad = 16 - len % 16;
            let all = if cipher {
                let mut v = wait.clone();
                v.extend_from_slice(&tail);
                v.extend(vec![pad as u8; pad]);
                v
            } else {
                // a last block that holds its padding
                let mut v = wait.clone();
                v.extend_from_slice(&tail);
                v.truncate(v.len() / 16 * 16);
                let whole = v.len() - wait.len();
                let back = if v.len() >= 16 { iv16(&v[v.len() - 16..]) } else { log.prev };
                let mut x = [pad as u8; 16];
                x[..16 - pad].copy_from_slice(&rng.bytes(16 - pad));
                (0..16).for_each(|k| x[k] ^= back[k]);
                let last = log.wit.encrypt(&x);
                v.extend_from_slice(&last);
                tail.truncate(whole);
                tail.extend_from_slice(&last);
                v
            };
            let mut got = match one.write(&tail) {
                Ok(v) => v,
                Err(e) => return e,
            };
            match one.flush() {
                Ok(v) => got.extend(v),
                Err(e) => return e,
            }
            ends.push(format!("{{\"prev\":{},\"in\":{},\"out\":{}}}", barr(&log.prev), barr(&all), barr(&got)));
            log.prev = if cipher { if got.len() >= 16 { iv16(&got[got.len() - 16..]) } else { log.prev } } else { iv16(&all[all.len() - 16..]) };
            wait.clear();
            fill = 0;
        }
        Reply::ok(vec![])
    });
    rec.text("kind", w[1]).bytes("key", &key).bytes("iv", &iv).num("blocks", blocks).num("rest", rest as u64);
    let mut win = std::mem::take(&mut log.off);
    win.extend(std::mem::take(&mut log.win));
    rec.raw("win", &list(&win, |b| b.clone()));
    rec.raw("ends", &list(&ends, |b| b.clone()));
    rec.raw("early", &list(&early, |k| k.to_string()));
    rep
}
