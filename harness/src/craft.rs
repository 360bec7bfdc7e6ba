//! Inputs worked out backwards, so that a value in the middle of a computation is a chosen one:
//! a word that carries, a column that repeats, a block that is the one before.  Each step of these
//! computations can be undone, so any state in the middle belongs to some input.

use crate::many::Source;
use crate::witness::{constants, inv_double_round_part, Aes, Blk};

const WORDS: [u32; 12] = [
    0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe, 0xffff, 0x1_0000, 0xffff_0000, 0x00ff_00ff,
];

fn word(s: &mut Source) -> u32 {
    match s.below(8) {
        0 => s.rng.next() as u32,
        1 => 1 << s.below(32),
        2 => !(1 << s.below(32)),
        3 => (s.below(256) as u32).wrapping_mul(0x0101_0101),
        _ => s.of(&WORDS),
    }
}

// ------------------------------------------------------------------ SHA-256

fn ssig0(x: u32) -> u32 {
    x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3)
}
fn ssig1(x: u32) -> u32 {
    x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10)
}

/// A block for a hash whose chaining value is h.
pub fn sha_block(s: &mut Source, h: &[u32; 8]) -> Vec<u8> {
    let mut w = [0u32; 64];
    for x in w.iter_mut() {
        *x = s.rng.next() as u32;
    }
    if s.below(2) == 0 {
        // sixteen words of the schedule, some of them chosen, and the schedule run backwards
        let at = s.below(49);
        for _ in 0..=s.below(16) {
            let k = at + s.below(16);
            w[k] = word(s);
        }
        for t in (16..at + 16).rev() {
            w[t - 16] = w[t].wrapping_sub(ssig0(w[t - 15])).wrapping_sub(w[t - 7]).wrapping_sub(ssig1(w[t - 2]));
        }
    } else {
        // in some of the first rounds, a word that makes a sum or a new register a chosen one
        let k = constants();
        let mut v = *h;
        let often = 1 + s.below(4);
        for t in 0..16 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let base = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            if s.below(often) == 0 {
                let x = if s.below(4) == 0 { v[s.below(8)] } else { word(s) };
                w[t] = match s.below(5) {
                    0 => x.wrapping_sub(base),                                   // T1
                    1 => x.wrapping_sub(base).wrapping_sub(t2),                  // a
                    2 => x.wrapping_sub(base).wrapping_sub(v[3]),                // e
                    3 => x.wrapping_sub(k[t]),                                   // K + W
                    _ => x,
                };
            }
            let t1 = base.wrapping_add(w[t]);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
    }
    w[..16].iter().flat_map(|x| x.to_be_bytes()).collect()
}

// ------------------------------------------------------------------ Salsa20

/// A block that is in a chosen state after some double-rounds, or part of one.
pub fn salsa_block(s: &mut Source, rounds: usize) -> Vec<u8> {
    let mut x: Blk = [0; 16];
    for w in x.iter_mut() {
        *w = s.rng.next() as u32;
    }
    let parts = if rounds == 0 { 0 } else { s.below(32 * rounds.min(20) + 1) };
    match s.below(3) {
        0 => {
            for _ in 0..=s.below(16) {
                x[s.below(16)] = word(s);
            }
        }
        1 => {
            // a sum of two words
            for _ in 0..=s.below(4) {
                let (i, j) = (s.below(16), s.below(16));
                let v = word(s);
                if i != j {
                    x[j] = v.wrapping_sub(x[i]);
                }
            }
        }
        _ => {
            // the very sum the next step takes
            let (_, a, d) = inv_double_round_part::STEPS[parts % 32];
            let v = word(s);
            x[d] = v.wrapping_sub(x[a]);
        }
    }
    for k in (0..parts).rev() {
        inv_double_round_part::undo(&mut x, k % 32);
    }
    x.iter().flat_map(|w| w.to_le_bytes()).collect()
}

// ------------------------------------------------------------------ AES

/// A state of columns with some structure.
pub fn state(s: &mut Source) -> [u8; 16] {
    let mut x = [0u8; 16];
    let keep = s.below(4);
    let mut last = [0u8; 4];
    for c in 0..4 {
        let mut col = [0u8; 4];
        match s.below(8) {
            0 => {}
            1 => col = [s.below(256) as u8; 4],
            2 => col[s.below(4)] = s.below(256) as u8,
            3 => col = [255; 4],
            4 => {
                let (a, b) = (s.below(256) as u8, s.below(256) as u8);
                col = s.of(&[[a, b, a, b], [a, a, b, b], [a, b, b, a]]);
            }
            5 => {
                for b in col.iter_mut() {
                    *b = s.of(&[0, 1, 2, 0x1b, 0x52, 0x63, 0x7f, 0x80, 0x81, 0xff]);
                }
            }
            _ => s.rng.fill(&mut col),
        }
        if c > 0 && keep == 0 {
            col = last;
        }
        last = col;
        x[4 * c..4 * c + 4].copy_from_slice(&col);
    }
    x
}

/// a block whose encryption passes through a structured state
pub fn aes_block(s: &mut Source, key: &Aes) -> [u8; 16] {
    let x = state(s);
    let round = s.below(key.rounds() + 1);
    let place = s.below(3);
    key.back(&x, round, place)
}

/// A key some of whose round key words are chosen ones.
pub fn aes_key(s: &mut Source) -> Vec<u8> {
    let nk = s.of(&[4usize, 6, 8]);
    let total = 4 * (nk + 7);
    let at = s.below(total - nk + 1);
    let mut w: Vec<[u8; 4]> = vec![[0; 4]; at + nk];
    for x in w[at..].iter_mut() {
        s.rng.fill(x);
    }
    for _ in 0..=s.below(nk) {
        let k = at + s.below(nk);
        w[k] = if s.below(3) == 0 && k > at { w[k - 1] } else { word(s).to_be_bytes() };
    }
    Aes::key_from(w, nk)
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::witness::*;

    #[test]
    fn undone() {
        let mut s = Source::new(5);
        for _ in 0..200 {
            let mut x: Blk = [0; 16];
            for w in x.iter_mut() {
                *w = s.rng.next() as u32;
            }
            let mut y = x;
            double_round(&mut y);
            for k in (0..32).rev() {
                inv_double_round_part::undo(&mut y, k);
            }
            assert_eq!(x, y);
            let k = Aes::new(&s.key()).unwrap();
            let st = state(&mut s);
            for r in 0..=k.rounds() {
                let p = k.back(&st, r, 0);
                if r == k.rounds() {
                    assert_eq!(k.encrypt(&p), st);
                }
                if r == 0 {
                    let mut q = st;
                    k.key(&mut q, 0);
                    assert_eq!(p, q);
                }
            }
            // the same key again from any stretch of its schedule
            let key = s.key();
            let (nk, a) = (key.len() / 4, Aes::new(&key).unwrap());
            for at in 0..=a.0.len() - nk {
                let mut w = vec![[0u8; 4]; at + nk];
                w[at..].copy_from_slice(&a.0[at..at + nk]);
                assert_eq!(Aes::key_from(w, nk), key);
            }
        }
    }
}
