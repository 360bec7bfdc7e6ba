//! scrypt with r or p too large for TLC to evaluate a lane or the lanes: an independent computation gives the
//! key, and TLC checks sampled pieces of it - blocks of the first PBKDF2 pass, whole lanes or single applications
//! of the mixing function with their places, compressions of the last pass - and its end.

use crate::bulk::list;
use crate::json::{put_bytes, Rec, Reply};
use crate::witness::{block_mix, compress, constants, core, lane, pbkdf2, unlane, words, Blk, Sha, SHA_IV};
use crate::{guarded, num, reply_of, unhex, OutBuf, Rng};
use dumb_crypto::scrypt::Scrypt;

fn barr(v: &[u8]) -> String {
    let mut s = String::new();
    put_bytes(&mut s, v);
    s
}

/// Some numbers below n: the ends, those next to powers of 2^8, and random ones.
pub fn some(rng: &mut Rng, n: u64, random: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, n - 1];
    for k in &[8u32, 15, 16, 24] {
        v.extend(&[(1u64 << k) - 1, 1 << k]);
    }
    v.extend((0..random).map(|_| rng.next() % n));
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

fn xor(a: &Blk, b: &Blk) -> Blk {
    let mut c = *a;
    (0..16).for_each(|k| c[k] ^= b[k]);
    c
}

/// scrypt.vast r N p pw salt len seed
pub fn scrypt(rec: &mut Rec, w: &[&str]) -> Reply {
    let (r, n, p) = (num(w[1]), num(w[2]), num(w[3]));
    let (pw, salt, len, seed) = (unhex(w[4]), unhex(w[5]), num(w[6]) as usize, num(w[7]));
    rec.limbs("rr", r).limbs("nn", n).limbs("pp", p).bytes("pw", &pw).bytes("salt", &salt).num("len", len as u64);
    let mut out = OutBuf::new(len, 0x3C);
    let rep = guarded(|| {
        let sc = Scrypt::new(r as usize, n as usize, p as usize);
        reply_of(sc.derive(&pw, &salt, out.slice()).map(|_| vec![]))
    });
    let rep = out.reply(rep);

    let mut rng = Rng::new(seed);
    let size = (128 * r) as usize;
    let b = pbkdf2(&pw, &salt, 1, size * p as usize);
    let bs: Vec<String> = some(&mut rng, (b.len() / 32) as u64, 4)
        .iter()
        .map(|i| format!("{{\"i\":{},\"b\":{}}}", i + 1, barr(&b[32 * *i as usize..32 * *i as usize + 32])))
        .collect();
    rec.raw("bs", &list(&bs, |x| x.clone()));

    let whole = r * n <= 16; // TLC evaluates the lane
    let pick = some(&mut rng, p, 4);
    let (mut lanes, mut steps, mut xors, mut js) = (vec![], vec![], vec![], vec![]);
    let mut mixed = Vec::with_capacity(b.len());
    for (li, lb) in b.chunks(size).enumerate() {
        let look = pick.contains(&(li as u64));
        let mut x = lane(lb);
        let mut v: Vec<Vec<Blk>> = vec![];
        for i in 0..2 * n {
            if i >= n {
                let last = x[x.len() - 1];
                let j = (last[0] as u64 | (last[1] as u64) << 32) % n;
                let t: Vec<Blk> = x.iter().zip(&v[j as usize]).map(|(a, b)| xor(a, b)).collect();
                if look && !whole {
                    js.push(format!("{{\"x\":{},\"j\":{}}}", barr(&unlane(&[last])), j));
                    for k in some(&mut rng, 2 * r, 1) {
                        let k = k as usize;
                        xors.push(format!("{{\"a\":{},\"v\":{},\"x\":{}}}", barr(&unlane(&[x[k]])), barr(&unlane(&[v[j as usize][k]])), barr(&unlane(&[t[k]]))));
                    }
                }
                x = t;
            }
            let y = block_mix(&x);
            if look && !whole {
                let place = |k: u64| if k % 2 == 0 { k / 2 } else { r + k / 2 };
                for k in some(&mut rng, 2 * r, 1) {
                    let prev = if k == 0 { x[x.len() - 1] } else { y[place(k - 1) as usize] };
                    let got = core(xor(&prev, &x[k as usize]), 4);
                    let at = if y[place(k) as usize] == got { place(k) } else { u32::MAX as u64 / 4 };
                    steps.push(format!("{{\"k\":{},\"prev\":{},\"x\":{},\"y\":{},\"at\":{}}}", k, barr(&unlane(&[prev])), barr(&unlane(&[x[k as usize]])), barr(&unlane(&[got])), at));
                }
            }
            if i < n {
                v.push(x);
            }
            x = y;
        }
        let done = unlane(&x);
        if look && whole {
            lanes.push(format!("{{\"in\":{},\"out\":{}}}", barr(lb), barr(&done)));
        }
        mixed.extend(done);
    }
    rec.raw("lanes", &list(&lanes, |x| x.clone()));
    rec.raw("steps", &list(&steps, |x| x.clone()));
    rec.raw("xors", &list(&xors, |x| x.clone()));
    rec.raw("js", &list(&js, |x| x.clone()));

    // the inner hash of the last pass
    let mut kb = if pw.len() > 64 { Sha::of(&pw) } else { pw.clone() };
    kb.resize(64, 0);
    let mut msg: Vec<u8> = kb.iter().map(|x| x ^ 0x36).collect();
    msg.extend(&mixed);
    msg.extend(&[0, 0, 0, 1]);
    let pad = Sha::padding(msg.len() as u64);
    msg.extend(pad);
    let (mut h, k) = (SHA_IV, constants());
    let all = (msg.len() / 64) as u64;
    let want = some(&mut rng, all, 4);
    let mut hash = vec![];
    for (i, blk) in msg.chunks(64).enumerate() {
        let before = words(&h);
        compress(&mut h, blk, &k);
        if want.binary_search(&(i as u64)).is_ok() {
            hash.push(format!("{{\"i\":{},\"h\":{},\"blk\":{},\"to\":{}}}", i, barr(&before), barr(blk), barr(&words(&h))));
        }
    }
    rec.raw("hash", &list(&hash, |x| x.clone()));
    rep
}
