//! Compound observations: many executions condensed into one record (see "Classes" and
//! "Inductive observations" in /verif/spec/Trace.tla).

use crate::die;
use crate::json::{put_bytes, Rec, Reply};
use crate::witness::{self, Sha};
#[allow(unused_imports)] // IsNot answers for types that are not
use crate::{failed, guarded, iv16, num, partitions, reply_of, unhex, Args, Is, IsNot, OutBuf, Rng};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::sync::{Barrier, Mutex};

pub fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    let t: Vec<String> = v.iter().map(f).collect();
    format!("[{}]", t.join(","))
}

fn barr(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

fn early(at: usize) -> Reply {
    Reply { r: format!("emission{}", at), out: vec![], text: 1 }
}

/// Feed `data` in the given pieces; the outcome is (reply kind of the last call, all output).
fn class_run(op: &str, a: &[u8], b: &[u8], data: &[u8], pieces: &[usize], args: &mut Args) -> Reply {
    guarded(|| {
        let mut at = 0;
        match op {
            "sha.class" | "hmac.class" => {
                let mut sha = SHA256::new();
                let mut mac = HMac::new(a);
                for k in pieces {
                    let d = args.put(0, &data[at..at + k]);
                    if op == "sha.class" {
                        sha.update(d)
                    } else {
                        mac.update(d)
                    }
                    args.scrub();
                    at += k;
                }
                Reply::ok(if op == "sha.class" { sha.digest() } else { mac.digest() }.to_vec())
            }
            "cipher.class" => {
                let mut c = Cipher::new(iv16(b));
                if let Err(e) = c.init(a) {
                    return failed(e);
                }
                let mut out = vec![];
                for k in pieces {
                    let d = args.put(0, &data[at..at + k]);
                    match c.write(d) {
                        Ok(v) => out.extend(v),
                        Err(e) => return failed(e),
                    }
                    args.scrub();
                    at += k;
                    if out.len() != at / 16 * 16 {
                        return early(at); // a block withheld, or a partial one emitted
                    }
                }
                match c.flush() {
                    Ok(v) => out.extend(v),
                    Err(e) => return failed(e),
                }
                Reply::ok(out)
            }
            _ => {
                let mut c = Decipher::new(iv16(b));
                if let Err(e) = c.init(a) {
                    return failed(e);
                }
                let mut out = vec![];
                for k in pieces {
                    let d = args.put(0, &data[at..at + k]);
                    match c.write(d) {
                        Ok(v) => out.extend(v),
                        Err(e) => return failed(e),
                    }
                    args.scrub();
                    at += k;
                    if out.len() != (at / 16 * 16).saturating_sub(16) {
                        return early(at); // all complete blocks but the last one
                    }
                }
                match c.flush() {
                    Ok(v) => {
                        out.extend(v);
                        Reply::ok(out)
                    }
                    Err(e) => {
                        let again = match c.flush() {
                            Ok(_) => Reply { r: "accepted-on-repeat".into(), out: vec![], text: 1 },
                            Err(e2) => failed(e2),
                        };
                        let first = failed(e);
                        let r = if again.r == first.r { first.r } else { format!("{}-then-{}", first.r, again.r) };
                        Reply { r, out, text: first.text }
                    }
                }
            }
        }
    })
}

fn class(rec: &mut Rec, args: &mut Args, op: &str, a: &[u8], b: &[u8], data: &[u8], seed: u64) -> Reply {
    let mut outs: Vec<Reply> = vec![];
    let mut n = 0u64;
    let mut text = 1;
    for p in partitions(data.len(), seed) {
        let mut r = class_run(op, a, b, data, &p, args);
        n += 1;
        if r.r != "ok" {
            text = std::cmp::min(text, r.text);
            r.text = 0;
        }
        if !outs.contains(&r) {
            outs.push(r);
        }
    }
    rec.num("n", n);
    rec.raw("outs", &list(&outs, |o| o.json()));
    if text == 0 {
        return Reply { r: "silent-error".into(), out: vec![], text: 0 };
    }
    Reply::ok(vec![])
}

/// Contents of a long message: `pattern` 0 is zeros, otherwise a repeated 1 MiB-and-a-bit page.
fn page(pattern: u64, chunk: usize) -> Vec<u8> {
    let n = std::cmp::max(1 << 20, chunk) + if pattern % 2 == 0 { 24 } else { 64 };
    if pattern == 0 {
        vec![0; n]
    } else {
        Rng::new(pattern).bytes(n)
    }
}

/// A length of at least 1: small, next to a multiple of a power of two, or anything to `top`.
pub fn size(rng: &mut Rng, top: usize) -> usize {
    let k = match rng.below(4) {
        0 => 1 + rng.below(70),
        1 => rng.below(top) + 1,
        _ => {
            let bits = (usize::BITS - std::cmp::min(top, 1 << 26).leading_zeros()) as usize;
            let unit = 1usize << rng.below(bits);
            let near = [0isize, 0, 1, -1, 15, 16, 16, 17, -15, -16, -17][rng.below(11)];
            std::cmp::max(1, (unit * (1 + rng.below(4))) as isize + near) as usize
        }
    };
    std::cmp::min(k, top)
}

/// Call `f` with the message's bytes in pieces of about `chunk`.
fn pour<F: FnMut(&[u8])>(total: u64, pg: &[u8], chunk: usize, mut f: F) {
    let mut at = 0u64;
    while at < total {
        let off = (at % pg.len() as u64) as usize;
        let k = std::cmp::min((total - at) as usize, std::cmp::min(chunk, pg.len() - off));
        f(&pg[off..off + k]);
        at += k as u64;
    }
}

fn sha_bulk(rec: &mut Rec, w: &[&str]) -> Reply {
    // sha.bulk nblk rest pattern chunk onecall witness tail
    let (nblk, rest, pattern, chunk) = (num(w[1]), num(w[2]), num(w[3]), num(w[4]) as usize);
    let (onecall, witness, tail) = (w[5] == "1", w[6] == "1", unhex(w[7]));
    let total = nblk * 64 + rest;
    let pad = Sha::padding(total);
    rec.num("nblk", nblk).num("rest", rest).bytes("pad", &pad).bytes("tail", &tail);
    let pg = page(pattern, chunk);
    let run = |ext: bool, chunk: usize| {
        guarded(|| {
            let mut s = SHA256::new();
            pour(total, &pg, chunk, |d| s.update(d));
            if ext {
                s.update(&pad);
                s.update(&tail);
            }
            Reply::ok(s.digest().to_vec())
        })
    };
    // the whole message in one call (only zeros need no memory)
    let one = || {
        guarded(|| {
            let big = vec![0u8; total as usize];
            let mut s = SHA256::new();
            s.update(&big);
            Reply::ok(s.digest().to_vec())
        })
    };
    let (d1, d2, d3, wit) = std::thread::scope(|sc| {
        let a = sc.spawn(|| run(false, chunk));
        let b = sc.spawn(|| run(true, 1 << 20));
        let c = sc.spawn(|| if onecall && pattern == 0 { Some(one()) } else { None });
        let d = sc.spawn(|| if witness { Some(Sha::witness(total, &pg, pattern + 7)) } else { None });
        (a.join().unwrap(), b.join().unwrap(), c.join().unwrap(), d.join().unwrap())
    });
    let mut d1s = vec![d1];
    if let Some(d3) = d3 {
        if d3 != d1s[0] {
            d1s.push(d3);
        }
    }
    if d2.r != "ok" || d1s.iter().any(|d| d.r != "ok") {
        return Reply::panic();
    }
    rec.raw("d1", &list(&d1s, |d| barr(&d.out))).bytes("d2", &d2.out);
    match wit {
        None => rec.raw("wit", "[]").raw("steps", "[]"),
        Some((h, steps)) => rec.raw("wit", &list(&[h], |h| barr(h))).raw(
            "steps",
            &list(&steps, |s| format!("{{\"h\":{},\"b\":{},\"n\":{}}}", barr(&s.0), barr(&s.1), barr(&s.2))),
        ),
    };
    Reply::ok(vec![])
}

fn hmac_bulk(rec: &mut Rec, w: &[&str]) -> Reply {
    // hmac.bulk key n pattern
    let (key, n, pattern) = (unhex(w[1]), num(w[2]), num(w[3]));
    let mut kb = if key.len() > 64 { Sha::of(&key).to_vec() } else { key.clone() };
    kb.resize(64, 0);
    let ipad: Vec<u8> = kb.iter().map(|x| x ^ 0x36).collect();
    rec.bytes("key", &key).num("n", n).bytes("ipad", &ipad);
    let pg = page(pattern, if n < 1 << 24 { 0 } else { (1 << 23) + 64 });
    let mut outs: Vec<Reply> = vec![];
    for chunk in [4099, pg.len(), 61] {
        if chunk == 61 && n > 1 << 22 {
            continue;
        }
        let rep = guarded(|| {
            let mut m = HMac::new(&key);
            pour(n, &pg, chunk, |d| m.update(d));
            Reply::ok(m.digest().to_vec())
        });
        if !outs.contains(&rep) {
            outs.push(rep);
        }
    }
    let mut inner = Sha::new();
    inner.update(&ipad);
    pour(n, &pg, 1 << 20, |d| inner.update(d));
    rec.bytes("din", &inner.digest());
    rec.raw("outs", &list(&outs, |o| o.json()));
    Reply::ok(vec![])
}

/// One Cipher and one Decipher taken through `count` messages.
fn chain_bulk(rec: &mut Rec, w: &[&str]) -> Reply {
    // chain.bulk key iv count seed windows [longest]
    let top = w.get(6).map_or(0, |x| num(x) as usize);
    let wit = witness::Aes::new(&unhex(w[1])).unwrap();
    let mut off: Vec<String> = vec![]; // blocks that an independent computation does not share
    let (key, iv, count, seed, windows) = (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]), num(w[5]) as usize);
    rec.bytes("key", &key).bytes("iv", &iv).num("count", count);
    let mut rng = Rng::new(seed);
    let mut bad: Vec<u64> = vec![];
    let mut log: Vec<(u64, Vec<u8>, Vec<u8>, Vec<u8>)> = vec![]; // message number, padded, previous block, ciphertext
    let rep = guarded(|| {
        let mut c = Cipher::new(iv16(&iv));
        let mut d = Decipher::new(iv16(&iv));
        if let Err(e) = c.init(&key).and_then(|_| d.init(&key)) {
            return failed(e);
        }
        let mut prev = iv.clone();
        for k in 0..count {
            let msg = match k % 5 {
                _ if top > 0 => {
                    let n = size(&mut rng, top) - 1;
                    rng.bytes(n)
                }
                0 => vec![],
                1 => rng.bytes(16),
                _ => {
                    let n = rng.below(50);
                    rng.bytes(n)
                }
            };
            let cut = rng.below(msg.len() + 1);
            let mut out = vec![];
            for part in [&msg[..cut], &msg[cut..]] {
                match c.write(part) {
                    Ok(v) => out.extend(v),
                    Err(e) => return failed(e),
                }
            }
            match c.flush() {
                Ok(v) => out.extend(v),
                Err(e) => return failed(e),
            }
            let cut = rng.below(out.len() + 1);
            let mut clear = vec![];
            for part in [&out[..cut], &out[cut..]] {
                match d.write(part) {
                    Ok(v) => clear.extend(v),
                    Err(e) => return failed(e),
                }
            }
            match d.flush() {
                Ok(v) => clear.extend(v),
                Err(_) => bad.push(k),
            }
            let whole = (msg.len() / 16 + 1) * 16;
            if (clear != msg || out.len() != whole) && bad.len() < 5 {
                bad.push(k);
            }
            if out.len() != whole || bad.len() >= 5 {
                break;
            }
            let mut last = iv16(&prev);
            for (i, got) in out.chunks(16).enumerate() {
                let mut p = msg[16 * i..std::cmp::min(16 * i + 16, msg.len())].to_vec();
                p.resize(16, (whole - msg.len()) as u8);
                let mut x = iv16(&p);
                (0..16).for_each(|k| x[k] ^= last[k]);
                if wit.encrypt(&x)[..] != *got && off.len() < 3 {
                    off.push(format!("{{\"k\":{},\"i\":{},\"p\":{},\"prev\":{},\"c\":{}}}", k, i, barr(&p), barr(&last), barr(got)));
                }
                last = iv16(got);
            }
            let near = [255, 256, 257, 65534, 65535, 65536, 65537].contains(&k);
            if msg.len() > 200 {
                // too long to be shown
            } else if k < 2 || k + 2 >= count || near || rng.below(count as usize) < windows {
                let mut padded = msg.clone();
                padded.resize(whole, (whole - msg.len()) as u8);
                log.push((k, padded, prev.clone(), out.clone()));
            }
            prev = out[out.len() - 16..].to_vec();
        }
        Reply::ok(vec![])
    });
    rec.raw("bad", &list(&bad, |k| k.to_string()));
    rec.raw("off", &list(&off, |x| x.clone()));
    rec.raw(
        "msgs",
        &list(&log, |m| format!("{{\"k\":{},\"p\":{},\"prev\":{},\"c\":{}}}", m.0, barr(&m.1), barr(&m.2), barr(&m.3))),
    );
    rep
}

/// One AES object given `count` keys, refused ones among them, each compared with a fresh object.
fn rekey_bulk(rec: &mut Rec, w: &[&str]) -> Reply {
    // aes.rekey count seed windows
    let (count, seed, windows) = (num(w[1]), num(w[2]), num(w[3]) as usize);
    rec.num("count", count);
    let mut src = crate::many::Source::new(seed);
    let mut rng = Rng::new(seed + 1);
    let mut bad: Vec<u64> = vec![];
    let mut log: Vec<(Vec<u8>, [u8; 16], [u8; 16], [u8; 16])> = vec![];
    let rep = guarded(|| {
        let mut one = AES::new();
        let mut key: Vec<u8> = vec![];
        for k in 0..count {
            let good;
            match rng.below(8) {
                0 if k > 0 => {
                    // a refused key
                    let n = [0, 1, 8, 15, 17, 31, 33, 40, 48, 64][rng.below(10)];
                    let junk = rng.bytes(n);
                    good = one.init(&junk).is_err();
                }
                1 if k > 0 => {
                    src.nearly(&mut key); // a key that differs a little
                    good = one.init(&key).is_ok();
                }
                2 if k > 0 => {
                    let n = [16, 24, 32][rng.below(3)]; // one that begins alike
                    let more = rng.bytes(32);
                    key.extend(more);
                    key.truncate(n);
                    good = one.init(&key).is_ok();
                }
                _ => {
                    let n = [16, 24, 32][rng.below(3)];
                    key = rng.bytes(n);
                    good = one.init(&key).is_ok();
                }
            }
            let mut fresh = AES::new();
            let good = good && fresh.init(&key).is_ok();
            let b = iv16(&rng.bytes(16));
            let (e, d) = (one.encrypt(&b), one.decrypt(&b));
            let good = good && e == fresh.encrypt(&b) && d == fresh.decrypt(&b);
            match (e, d) {
                (Ok(e), Ok(d)) if good => {
                    if k < 2 || k + 2 >= count || rng.below(count as usize) < windows {
                        log.push((key.clone(), b, e, d));
                    }
                }
                _ => {
                    if bad.len() < 5 {
                        bad.push(k);
                    }
                }
            }
        }
        Reply::ok(vec![])
    });
    rec.raw("bad", &list(&bad, |k| k.to_string()));
    rec.raw(
        "keys",
        &list(&log, |m| format!("{{\"key\":{},\"b\":{},\"e\":{},\"d\":{}}}", barr(&m.0), barr(&m.1), barr(&m.2), barr(&m.3))),
    );
    rep
}

fn pbkdf(pw: &[u8], salt: &[u8], c: u64, len: usize, pat: u8) -> Reply {
    let mut out = OutBuf::new(len, pat);
    let rep = guarded(|| {
        pbkdf2_sha256(pw, salt, c as usize, out.slice());
        Reply::ok(vec![])
    });
    out.reply(rep)
}

/// An object used by reference from several threads; only when its type allows that.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

fn at_once<R: Send>(may: bool, threads: usize, work: &dyn Fn(usize) -> R) -> Vec<R> {
    if !may {
        return (0..threads).map(work).collect();
    }
    let w = Share(work);
    let gate = Barrier::new(threads);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (w, gate) = (&w, &gate);
                sc.spawn(move || {
                    gate.wait();
                    (w.0)(t)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

pub fn step(rec: &mut Rec, args: &mut Args, w: &[&str]) -> Reply {
    match w[0] {
        "sha.class" => {
            let data = unhex(w[1]);
            rec.bytes("data", &data);
            class(rec, args, w[0], &[], &[], &data, num(w[2]))
        }
        "hmac.class" => {
            let (key, data) = (unhex(w[1]), unhex(w[2]));
            rec.bytes("key", &key).bytes("data", &data);
            class(rec, args, w[0], &key, &[], &data, num(w[3]))
        }
        "cipher.class" | "decipher.class" => {
            let (key, iv, data) = (unhex(w[1]), unhex(w[2]), unhex(w[3]));
            rec.bytes("key", &key).bytes("iv", &iv).bytes("data", &data);
            class(rec, args, w[0], &key, &iv, &data, num(w[4]))
        }
        "sha.bulk" => sha_bulk(rec, w),
        "hmac.bulk" => hmac_bulk(rec, w),
        "chain.bulk" => chain_bulk(rec, w),
        "aes.rekey" => rekey_bulk(rec, w),
        "pbkdf2.prefix" => {
            let (pw, salt, c, len) = (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]));
            rec.bytes("pw", &pw).bytes("salt", &salt).num("c", c).num("len", len);
            let full = pbkdf(&pw, &salt, c, len as usize, 0x5A);
            let mut bad = vec![];
            for k in 0..len as usize {
                let r = pbkdf(&pw, &salt, c, k, if k % 3 == 0 { 0 } else { (k * 5) as u8 | 1 });
                if r.r != "ok" || r.out[..] != full.out[..k.min(full.out.len())] {
                    bad.push(k);
                }
            }
            rec.raw("bad", &list(&bad, |k| k.to_string()));
            full
        }
        "pbkdf2.blocks" => {
            // pw salt c total idx,idx,...   the blocks of one derived key of `total` bytes
            let (pw, salt, c, total) = (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]) as usize);
            rec.bytes("pw", &pw).bytes("salt", &salt).num("c", c).num("len", total as u64);
            let mut out = vec![0xC3u8; total + 64];
            let rep = guarded(|| {
                pbkdf2_sha256(&pw, &salt, c as usize, &mut out[..total]);
                Reply::ok(vec![])
            });
            let mut blk = vec![];
            for i in w[5].split(',').map(|x| num(x) as usize) {
                let from = (i - 1) * 32;
                if from >= total {
                    die!("block {} of {}", i, total);
                }
                let to = std::cmp::min(from + 32, total);
                blk.push(format!("{{\"i\":{},\"b\":{}}}", i, barr(&out[from..to])));
            }
            rec.raw("blk", &list(&blk, |b| b.clone()));
            // every block, by an independent computation
            let bad = Mutex::new(vec![]);
            let prf = witness::Prf::new(&pw);
            let per = (out[..total].chunks(32).count() / 8 + 1) * 32;
            std::thread::scope(|sc| {
                for (part, piece) in out[..total].chunks(per).enumerate() {
                    let (bad, prf, salt) = (&bad, &prf, &salt);
                    sc.spawn(move || {
                        for (k, got) in piece.chunks(32).enumerate() {
                            let i = part * (per / 32) + k + 1;
                            if prf.block(salt, c, i as u32, &[]).0[..got.len()] != *got {
                                let mut b = bad.lock().unwrap();
                                if b.len() < 4 {
                                    b.push(i);
                                }
                            }
                        }
                    });
                }
            });
            let bad = bad.into_inner().unwrap();
            rec.raw("bad", &list(&bad, |i| format!("{{\"i\":{},\"b\":{}}}", i, barr(&out[(i - 1) * 32..(i * 32).min(total)]))));
            if out[total..].iter().any(|x| *x != 0xC3) {
                return Reply { r: "guard".into(), out: vec![], text: 1 };
            }
            rep
        }
        "pbkdf2.witness" => {
            // pw salt c len: a high iteration count, against an independent computation
            let (pw, salt, c, len) = (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]) as usize);
            rec.bytes("pw", &pw).bytes("salt", &salt).num("c", c).num("len", len as u64);
            let prf = witness::Prf::new(&pw);
            let mut rng = Rng::new(c);
            let want: Vec<u64> = (0..8).map(|_| rng.next() % c).chain([1, c - 1]).collect();
            let (rep, blocks) = std::thread::scope(|sc| {
                let (prf, salt, want) = (&prf, &salt, &want);
                let hs: Vec<_> =
                    (1..=(len + 31) / 32).map(|i| sc.spawn(move || prf.block(salt, c, i as u32, want))).collect();
                (pbkdf(&pw, salt, c, len, 0x5A), hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
            });
            let wit: Vec<u8> = blocks.iter().flat_map(|x| x.0.clone()).take(len).collect();
            let steps: Vec<String> = blocks
                .iter()
                .enumerate()
                .flat_map(|(i, x)| {
                    x.1.iter().map(move |s| {
                        format!("{{\"i\":{},\"j\":{},\"u\":{},\"v\":{}}}", i + 1, s.0, barr(&s.1), barr(&s.2))
                    })
                })
                .collect();
            rec.bytes("wit", &wit).raw("steps", &format!("[{}]", steps.join(",")));
            rep
        }
        "pbkdf2.steps" => {
            // pw salt c,c,...   32-byte keys after c-1, c, c+1 iterations (c >= 2)
            let (pw, salt) = (unhex(w[1]), unhex(w[2]));
            rec.bytes("pw", &pw).bytes("salt", &salt);
            let mut steps = vec![];
            for c in w[3].split(',').map(num) {
                let k: Vec<Reply> = (0..3).map(|d| pbkdf(&pw, &salt, c - 1 + d, 32, 0x77)).collect();
                if let Some(r) = k.iter().find(|r| r.r != "ok") {
                    return r.clone();
                }
                steps.push(format!(
                    "{{\"n\":{},\"a\":{},\"b\":{},\"c\":{}}}",
                    c, barr(&k[0].out), barr(&k[1].out), barr(&k[2].out)
                ));
            }
            rec.raw("steps", &list(&steps, |b| b.clone()));
            Reply::ok(vec![])
        }
        "salsa.steps" => {
            let data = unhex(w[1]);
            rec.bytes("data", &data);
            let mut steps = vec![];
            for mut n in w[2].split(',').map(num) {
                let one = |rounds: u64| {
                    let mut out = OutBuf::new(64, 1);
                    let rep = guarded(|| {
                        salsa20(&data, rounds as usize, out.slice());
                        Reply::ok(vec![])
                    });
                    out.reply(rep)
                };
                if n > 1 << 28 {
                    // as far as a couple of minutes go; the record says where that was
                    let t = std::time::Instant::now();
                    one(1 << 24);
                    let per = t.elapsed().as_secs_f64() / (1u64 << 24) as f64;
                    while n > 1 << 25 && per * n as f64 > 200.0 {
                        n >>= 1;
                    }
                }
                let want: Vec<u64> = (0..5).map(|k| n.wrapping_mul(0x9e37_79b9 + k) % n.max(1)).chain([0, n.saturating_sub(1)]).collect();
                let (a, b, (wit, ws)) = std::thread::scope(|sc| {
                    let h = sc.spawn(|| one(n + 1));
                    let g = sc.spawn(|| witness::salsa_steps(&data, n, &want));
                    (one(n), h.join().unwrap(), g.join().unwrap())
                });
                let mut k = vec![];
                for rep in [a, b] {
                    if rep.r != "ok" {
                        return rep;
                    }
                    k.push(rep.out);
                }
                let ws = list(&ws, |x| format!("{{\"u\":{},\"v\":{}}}", barr(&x.1), barr(&x.2)));
                steps.push(format!("{{\"n\":\"{}\",\"a\":{},\"b\":{},\"wit\":{},\"ws\":{}}}", n, barr(&k[0]), barr(&k[1]), barr(&wit), ws));
            }
            rec.raw("steps", &list(&steps, |b| b.clone()));
            Reply::ok(vec![])
        }
        "salsa.bulk" => {
            // seed blocks rounds samples   a long input; each block alone gives the same
            let (blocks, rounds, samples) = (num(w[2]) as usize, num(w[3]), num(w[4]) as usize);
            rec.num("blocks", blocks as u64).num("n", rounds);
            let mut rng = Rng::new(num(w[1]));
            let data = rng.bytes(64 * blocks);
            let mut out = OutBuf::new(64 * blocks, 1);
            let rep = guarded(|| {
                salsa20(&data, rounds as usize, out.slice());
                Reply::ok(vec![])
            });
            if rep.r != "ok" || !out.intact() {
                return if rep.r != "ok" { rep } else { out.reply(rep) };
            }
            let edges: Vec<usize> = (7..32).flat_map(|k| vec![(1 << k) - 1, 1 << k]).collect();
            let got = out.slice();
            let mut bad = vec![];
            let mut log = vec![];
            for i in 0..blocks {
                let (x, y) = (&data[64 * i..64 * i + 64], &got[64 * i..64 * i + 64]);
                let mut single = [0xA5u8; 64];
                salsa20(x, rounds as usize, &mut single);
                if single[..] != *y && bad.len() < 5 {
                    bad.push(i);
                }
                if i == 0 || i + 1 == blocks || edges.binary_search(&i).is_ok() || rng.below(blocks) < samples {
                    log.push(format!("{{\"i\":{},\"x\":{},\"y\":{}}}", i, barr(x), barr(y)));
                }
            }
            rec.raw("bad", &list(&bad, |k| k.to_string())).raw("smp", &list(&log, |b| b.clone()));
            rep
        }
        "aes.law" => {
            let (key, count, seed) = (unhex(w[1]), num(w[2]), num(w[3]));
            rec.bytes("key", &key).num("count", count);
            let mut bad: Vec<u8> = vec![];
            let rep = guarded(|| {
                let mut aes = AES::new();
                if let Err(e) = aes.init(&key) {
                    return failed(e);
                }
                let mut rng = Rng::new(seed);
                let mut b = iv16(&rng.bytes(16));
                for i in 0..count {
                    match i % 4 {
                        0 => b = iv16(&rng.bytes(16)),
                        1 => b = [(i >> 2) as u8; 16],
                        2 => {
                            b = [0; 16];
                            b[(i >> 2) as usize % 16] = (i >> 6) as u8;
                        }
                        _ => b[rng.below(16)] ^= 1 << rng.below(8),
                    }
                    let (e, d) = match (aes.encrypt(&b), aes.decrypt(&b)) {
                        (Ok(e), Ok(d)) => (e, d),
                        _ => {
                            bad = b.to_vec();
                            break;
                        }
                    };
                    let same = aes.decrypt(&e).ok() == Some(b)
                        && aes.encrypt(&d).ok() == Some(b)
                        && aes.encrypt(&b).ok() == Some(e)
                        && aes.decrypt(&b).ok() == Some(d);
                    if !same {
                        bad = b.to_vec();
                        break;
                    }
                }
                Reply::ok(vec![])
            });
            rec.bytes("bad", &bad);
            rep
        }
        "aes.shared" => {
            // key seed threads calls   one object, used by several threads at the same time
            let (key, seed) = (unhex(w[1]), num(w[2]));
            let (threads, calls) = (num(w[3]) as usize, num(w[4]) as usize);
            rec.bytes("key", &key);
            let mut one = AES::new();
            if let Err(e) = one.init(&key) {
                return failed(e);
            }
            let wit = witness::Aes::new(&key).unwrap();
            let one = Share(one);
            let work = |t: usize| {
                let mut rng = Rng::new(seed + 77 * t as u64);
                let few: Vec<[u8; 16]> = (0..4).map(|_| iv16(&rng.bytes(16))).collect();
                let (mut log, mut odd) = (vec![], 0);
                for k in 0..calls {
                    let b = if k % 2 == 0 { few[rng.below(4)] } else { iv16(&rng.bytes(16)) };
                    let enc = rng.below(2) == 1;
                    let r = guarded(|| {
                        let x = if enc { one.0.encrypt(&b) } else { one.0.decrypt(&b) };
                        reply_of(x.map(|v| v.to_vec()))
                    });
                    let want = if enc { wit.encrypt(&b) } else { wit.decrypt(&b) };
                    let same = r.r == "ok" && r.out == want;
                    if !same {
                        odd += 1;
                    }
                    if k < 2 || (!same && odd < 3) {
                        log.push(format!("{{\"t\":{},\"enc\":{},\"b\":{},\"r\":\"{}\",\"out\":{}}}", t, enc as u8, barr(&b), r.r, barr(&r.out)));
                    }
                }
                log
            };
            let log: Vec<String> = at_once(<Is<AES>>::SYNC, threads, &work).concat();
            rec.raw("log", &list(&log, |x| x.clone()));
            Reply::ok(vec![])
        }
        "scrypt.shared" => {
            // r n p seed threads calls
            let (r, n, p, seed) = (num(w[1]), num(w[2]), num(w[3]), num(w[4]));
            let (threads, calls) = (num(w[5]) as usize, num(w[6]) as usize);
            rec.num("r_", r).num("n_", n).num("p_", p);
            let one = Share(Scrypt::new(r as usize, n as usize, p as usize));
            let work = |t: usize| {
                let mut rng = Rng::new(seed + 77 * t as u64);
                let (mut log, mut odd) = (vec![], 0);
                for k in 0..calls {
                    let (pw, salt) = (format!("pw{}", rng.below(3)), format!("salt{}", rng.below(9)));
                    let mut out = OutBuf::new(20 + 16 * (k % 3), 0xA5);
                    let rep = guarded(|| {
                        reply_of(one.0.derive(pw.as_bytes(), salt.as_bytes(), out.slice()).map(|_| vec![]))
                    });
                    let rep = out.reply(rep);
                    let want = witness::scrypt_key(r as usize, n as usize, p as usize, pw.as_bytes(), salt.as_bytes(), 20 + 16 * (k % 3));
                    let same = rep.r == "ok" && rep.out == want;
                    if !same {
                        odd += 1;
                    }
                    if k < 1 || (!same && odd < 3) {
                        log.push(format!(
                            "{{\"t\":{},\"pw\":{},\"salt\":{},\"r\":\"{}\",\"out\":{},\"len\":{}}}",
                            t, barr(pw.as_bytes()), barr(salt.as_bytes()), rep.r, barr(&rep.out), 20 + 16 * (k % 3)
                        ));
                    }
                }
                log
            };
            let log: Vec<String> = at_once(<Is<Scrypt>>::SYNC, threads, &work).concat();
            rec.raw("log", &list(&log, |x| x.clone()));
            Reply::ok(vec![])
        }
        "cipher.bulk" => {
            // key iv n seed windows maxpiece
            let (key, iv, n, seed) = (unhex(w[1]), unhex(w[2]), num(w[3]) as usize, num(w[4]));
            let (windows, top) = (num(w[5]) as usize, num(w[6]) as usize);
            rec.bytes("key", &key).bytes("iv", &iv).num("n", n as u64);
            let mut rng = Rng::new(seed);
            let msg = rng.bytes(n);
            let mut out: Vec<u8> = vec![];
            let mut early: Vec<usize> = vec![];
            let mut back = 0u64;
            let rep = guarded(|| {
                let mut c = Cipher::new(iv16(&iv));
                let mut d = Decipher::new(iv16(&iv));
                if let Err(e) = c.init(&key).and_then(|_| d.init(&key)) {
                    return failed(e);
                }
                let mut at = 0;
                while at < n {
                    let k = std::cmp::min(n - at, if top < 200 { rng.below(top) + 1 } else { size(&mut rng, top) });
                    match c.write(&msg[at..at + k]) {
                        Ok(v) => out.extend(v),
                        Err(e) => return failed(e),
                    }
                    at += k;
                    if out.len() != at / 16 * 16 && early.len() < 3 {
                        early.push(at);
                    }
                }
                match c.flush() {
                    Ok(v) => out.extend(v),
                    Err(e) => return failed(e),
                }
                let mut clear: Vec<u8> = vec![];
                let mut at = 0;
                while at < out.len() {
                    let k = std::cmp::min(out.len() - at, if top < 200 { rng.below(top) + 1 } else { size(&mut rng, top) });
                    match d.write(&out[at..at + k]) {
                        Ok(v) => clear.extend(v),
                        Err(e) => return failed(e),
                    }
                    at += k;
                    if clear.len() != (at / 16 * 16).saturating_sub(16) && early.len() < 3 {
                        early.push(at);
                    }
                }
                match d.flush() {
                    Ok(v) => clear.extend(v),
                    Err(e) => return failed(e),
                }
                back = (clear == msg) as u64;
                Reply::ok(vec![])
            });
            let mut win = vec![];
            let last = n / 16;
            let padded: Vec<u8> = msg.iter().cloned().chain(vec![(16 - n % 16) as u8; 16 - n % 16]).collect();
            for k in 0..windows {
                let i = match k {
                    0 => 0,
                    1 => last,
                    2 => last.saturating_sub(1),
                    _ => rng.below(last + 1),
                };
                if out.len() >= (i + 1) * 16 {
                    let prev = if i == 0 { &iv[..] } else { &out[(i - 1) * 16..i * 16] };
                    win.push(format!(
                        "{{\"i\":{},\"p\":{},\"prev\":{},\"c\":{}}}",
                        i, barr(&padded[i * 16..i * 16 + 16]), barr(prev), barr(&out[i * 16..i * 16 + 16])
                    ));
                }
            }
            // every block, by an independent computation
            let wit = witness::Aes::new(&key).unwrap();
            let mut prev = iv16(&iv);
            let mut off: Vec<String> = vec![];
            for (i, b) in padded.chunks(16).enumerate() {
                let mut x = iv16(b);
                (0..16).for_each(|k| x[k] ^= prev[k]);
                let got = out.get(16 * i..16 * i + 16).unwrap_or(&[]);
                if wit.encrypt(&x)[..] != *got && off.len() < 2 {
                    off.push(format!("{{\"i\":{},\"p\":{},\"prev\":{},\"c\":{}}}", i, barr(b), barr(&prev), barr(got)));
                }
                if got.len() < 16 {
                    break;
                }
                prev = iv16(got);
            }
            off.extend(win);
            let win = off;
            rec.raw("win", &list(&win, |b| b.clone()));
            rec.raw("early", &list(&early, |k| k.to_string()));
            rec.num("total", out.len() as u64).num("back", back);
            rep
        }
        x => die!("unknown op {}", x),
    }
}
