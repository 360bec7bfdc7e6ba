//! Executes plans (call histories) against the real crate and records every call with its
//! arguments and its reply, one JSON line per session.  It decides nothing: the records are
//! judged by TLC against /verif/spec/Trace.tla.
//!
//! A line may begin with `@t`: the session's thread t makes that call (in mode relay:N, where N
//! sessions go on at once); other modes ignore it.
//!
//! A session that begins with `mesh` is many short histories run in an order of their own.
//!
//! usage: harness --plan FILE --out FILE [--mode seq|rev|threads:N|relay:N]

mod bulk;
mod cost;
mod craft;
mod huge;
mod json;
mod long;
mod many;
mod mem;
mod stream;
mod vast;
mod witness;

use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use json::{Rec, Reply};
use std::collections::HashMap;
use std::error::Error;
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[global_allocator]
static MEMORY: mem::Counting = mem::Counting;

/// A plan that makes no sense is this framework's fault, not the crate's: exit 3.
#[macro_export]
macro_rules! die {
    ($($a:tt)*) => {{
        eprintln!("harness: {}", format!($($a)*));
        std::process::exit(3)
    }};
}

pub enum Obj {
    Sha(SHA256),
    Hmac(HMac),
    Aes(AES),
    Cipher(Cipher),
    Decipher(Decipher),
}

/// A failed call: the innermost variant name of its error, and how much text the error renders as.
pub fn failed<E: Debug + Error>(e: E) -> Reply {
    let d = format!("{:?}", e);
    let name: String = d
        .rsplit('(')
        .next()
        .unwrap_or("")
        .chars()
        .filter(|c| c.is_ascii_alphanumeric() || *c == '_')
        .collect();
    #[allow(deprecated)]
    let described = e.description().trim().len();
    let text = std::cmp::min(described, e.to_string().trim().len());
    Reply { r: if name == "ok" || name.is_empty() { "unnamed".into() } else { name }, out: vec![], text }
}

pub fn reply_of<E: Debug + Error>(r: Result<Vec<u8>, E>) -> Reply {
    match r {
        Ok(v) => Reply::ok(v),
        Err(e) => failed(e),
    }
}

/// Run one call; a panic is a reply too.
pub fn guarded<F: FnOnce() -> Reply>(f: F) -> Reply {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Reply::panic())
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let b = s.as_bytes();
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => die!("bad hex"),
    };
    b.chunks(2).map(|p| (v(p[0]) << 4) | v(p[1])).collect()
}

pub fn num(s: &str) -> u64 {
    s.parse().unwrap_or_else(|_| die!("bad number {}", s))
}

pub fn iv16(v: &[u8]) -> [u8; 16] {
    let mut a = [0u8; 16];
    a.copy_from_slice(v);
    a
}

/// Deterministic filler (xorshift64*), for contents the plan gives by seed.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&x[..n]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

/// The memory arguments are passed from.  It is reused between calls, so equal addresses carry
/// different contents, and its alignment varies with the session.
pub struct Args {
    buf: [Vec<u8>; 2],
    off: usize,
}
impl Args {
    fn new(off: usize) -> Args {
        Args { buf: [vec![0xEE; 8192], vec![0xEE; 8192]], off }
    }
    pub fn put(&mut self, slot: usize, data: &[u8]) -> &[u8] {
        let at = self.at(slot);
        let need = at + data.len();
        if self.buf[slot].len() < need {
            self.buf[slot].resize(need + 64, 0xEE);
        }
        self.buf[slot][at..need].copy_from_slice(data);
        &self.buf[slot][at..need]
    }
    pub fn move_to(&mut self, k: usize) {
        self.off = k % 16;
    }
    /// where a slot's data begins: the two need not be aligned alike
    fn at(&self, slot: usize) -> usize {
        if slot == 0 { self.off } else { (self.off * 3 + 5) % 16 }
    }
    pub fn two(&mut self, a: &[u8], b: &[u8]) -> (&[u8], &[u8]) {
        self.put(0, a);
        self.put(1, b);
        (
            &self.buf[0][self.at(0)..self.at(0) + a.len()],
            &self.buf[1][self.at(1)..self.at(1) + b.len()],
        )
    }
    /// overwrite what was passed, as a caller that reuses its buffer does
    pub fn scrub(&mut self) {
        for b in self.buf.iter_mut() {
            for x in b.iter_mut().take(4096) {
                *x = 0xEE;
            }
        }
    }
}

/// An output buffer with earlier contents, guard bytes around it, and an alignment of its own.
pub struct OutBuf {
    all: Vec<u8>,
    from: usize,
    len: usize,
}
const GUARD: usize = 40;
impl OutBuf {
    pub fn new(len: usize, pattern: u8) -> OutBuf {
        let mut all = vec![0xA5; len + 2 * GUARD];
        let from = GUARD - 8 + (len / 64 * 3 + len + pattern as usize) % 16;
        for (i, x) in all[from..from + len].iter_mut().enumerate() {
            *x = if pattern == 1 { (i as u8).wrapping_mul(37).wrapping_add(11) } else { pattern };
        }
        OutBuf { all, from, len }
    }
    pub fn slice(&mut self) -> &mut [u8] {
        let (a, n) = (self.from, self.len);
        &mut self.all[a..a + n]
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.all[self.from..self.from + self.len].to_vec()
    }
    pub fn intact(&self) -> bool {
        self.all[..self.from].iter().chain(&self.all[self.from + self.len..]).all(|x| *x == 0xA5)
    }
    pub fn reply(&self, rep: Reply) -> Reply {
        if rep.r == "panic" {
            return rep;
        }
        let mut rep = rep;
        if !self.intact() {
            rep.r = "guard".into();
            rep.text = 1;
        }
        rep.out = self.bytes();
        rep
    }
}

/// Ways of cutting n bytes into pieces.
pub fn partitions(n: usize, seed: u64) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![n], vec![1; n], vec![], vec![0, n, 0]];
    v[2] = (0..n).flat_map(|_| vec![0, 1]).chain(vec![0, 0]).collect();
    for i in 0..=n {
        if n <= 700 || i % 16 < 2 || i % 16 == 15 {
            v.push(vec![i, n - i]);
        }
    }
    for k in [2usize, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 127, 128, 129] {
        let mut p = vec![k; n / k];
        p.push(n % k);
        v.push(p);
    }
    let mut rng = Rng::new(seed);
    for _ in 0..24 {
        let mut p = vec![];
        let mut left = n;
        let top = 1 + rng.below(90);
        while left > 0 {
            let k = std::cmp::min(left, rng.below(top + 1));
            p.push(k);
            left -= k;
        }
        v.push(p);
    }
    v
}

struct Sess {
    objs: HashMap<u64, Obj>,
    scrypts: HashMap<(u64, u64, u64), Scrypt>,
    args: Args,
    ev: Vec<String>,
    dead: bool,
}

impl Sess {
    fn record(&mut self, mut rec: Rec, rep: Reply) {
        rec.reply(&rep);
        if rep.r == "panic" {
            self.dead = true; // what a panicking call leaves behind is not looked at
        }
        self.ev.push(rec.end());
        self.args.scrub();
    }

    fn step(&mut self, w: &[&str]) {
        let op = w[0];
        let mut rec = Rec::new(op);
        match op {
            "sha.new" | "aes.new" => {
                let o = num(w[1]);
                rec.num("o", o);
                let dflt = w.len() > 2 && w[2] == "default";
                let obj = catch_unwind(|| match (op, dflt) {
                    ("sha.new", false) => Obj::Sha(SHA256::new()),
                    ("sha.new", true) => Obj::Sha(SHA256::default()),
                    (_, false) => Obj::Aes(AES::new()),
                    (_, true) => Obj::Aes(AES::default()),
                });
                self.created(o, obj, rec);
            }
            "hmac.new" => {
                let (o, key) = (num(w[1]), unhex(w[2]));
                rec.num("o", o).bytes("key", &key);
                let k = self.args.put(0, &key);
                let obj = catch_unwind(AssertUnwindSafe(|| Obj::Hmac(HMac::new(k))));
                self.created(o, obj, rec);
            }
            "cipher.new" | "decipher.new" => {
                let (o, iv) = (num(w[1]), unhex(w[2]));
                rec.num("o", o).bytes("iv", &iv);
                let ivv = iv16(&iv);
                let obj = catch_unwind(|| {
                    if op == "cipher.new" {
                        Obj::Cipher(Cipher::new(ivv))
                    } else {
                        Obj::Decipher(Decipher::new(ivv))
                    }
                });
                self.created(o, obj, rec);
            }
            "sha.update" | "hmac.update" | "cipher.write" | "decipher.write" => {
                let (o, data) = (num(w[1]), unhex(w[2]));
                rec.num("o", o).bytes("data", &data);
                let d = self.args.put(0, &data);
                let obj = self.objs.get_mut(&o).unwrap_or_else(|| die!("no object for {}", op));
                let rep = guarded(|| match obj {
                    Obj::Sha(x) => {
                        x.update(d);
                        Reply::ok(vec![])
                    }
                    Obj::Hmac(x) => {
                        x.update(d);
                        Reply::ok(vec![])
                    }
                    Obj::Cipher(x) => reply_of(x.write(d)),
                    Obj::Decipher(x) => reply_of(x.write(d)),
                    _ => die!("wrong object for {}", op),
                });
                self.record(rec, rep);
            }
            "sha.digest" | "hmac.digest" | "cipher.flush" | "decipher.flush" => {
                let o = num(w[1]);
                rec.num("o", o);
                let obj = self.objs.get_mut(&o).unwrap_or_else(|| die!("no object for {}", op));
                let rep = guarded(|| match obj {
                    Obj::Sha(x) => Reply::ok(x.digest().to_vec()),
                    Obj::Hmac(x) => Reply::ok(x.digest().to_vec()),
                    Obj::Cipher(x) => reply_of(x.flush()),
                    Obj::Decipher(x) => reply_of(x.flush()),
                    _ => die!("wrong object for {}", op),
                });
                self.record(rec, rep);
            }
            "aes.init" | "cipher.init" | "decipher.init" => {
                let (o, key) = (num(w[1]), unhex(w[2]));
                rec.num("o", o).bytes("key", &key);
                let k = self.args.put(1, &key);
                let obj = self.objs.get_mut(&o).unwrap_or_else(|| die!("no object for {}", op));
                let rep = guarded(|| {
                    let r = match obj {
                        Obj::Aes(x) => x.init(k),
                        Obj::Cipher(x) => x.init(k),
                        Obj::Decipher(x) => x.init(k),
                        _ => die!("wrong object for {}", op),
                    };
                    reply_of(r.map(|_| vec![]))
                });
                self.record(rec, rep);
            }
            "aes.enc" | "aes.dec" => {
                let (o, data) = (num(w[1]), unhex(w[2]));
                rec.num("o", o).bytes("data", &data);
                let b = iv16(&data);
                let obj = self.objs.get(&o).unwrap_or_else(|| die!("no object for {}", op));
                let rep = guarded(|| match obj {
                    Obj::Aes(x) if op == "aes.enc" => reply_of(x.encrypt(&b).map(|v| v.to_vec())),
                    Obj::Aes(x) => reply_of(x.decrypt(&b).map(|v| v.to_vec())),
                    _ => die!("wrong object for {}", op),
                });
                self.record(rec, rep);
            }
            "pbkdf2" => {
                let (pw, salt, c, len, pat) =
                    (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]), num(w[5]));
                rec.bytes("pw", &pw).bytes("salt", &salt).num("c", c).num("len", len);
                let mut out = OutBuf::new(len as usize, pat as u8);
                let (p, s) = self.args.two(&pw, &salt);
                let rep = guarded(|| {
                    pbkdf2_sha256(p, s, c as usize, out.slice());
                    Reply::ok(vec![])
                });
                let rep = out.reply(rep);
                self.record(rec, rep);
            }
            "salsa20" => {
                let (data, n, pat) = (unhex(w[1]), num(w[2]), num(w[3]));
                rec.bytes("data", &data).num("n", n);
                let mut out = OutBuf::new(data.len(), pat as u8);
                let d = self.args.put(0, &data);
                let rep = guarded(|| {
                    salsa20(d, n as usize, out.slice());
                    Reply::ok(vec![])
                });
                let rep = out.reply(rep);
                self.record(rec, rep);
            }
            "scrypt" => {
                let (r, n, p) = (num(w[1]), num(w[2]), num(w[3]));
                let (pw, salt, len, pat, checked) =
                    (unhex(w[4]), unhex(w[5]), num(w[6]), num(w[7]), num(w[8]));
                rec.limbs("rr", r).limbs("nn", n).limbs("pp", p);
                rec.bytes("pw", &pw).bytes("salt", &salt).num("checked", checked);
                let mut out = OutBuf::new(len as usize, pat as u8);
                rec.bytes("before", &out.bytes());
                let sc = self
                    .scrypts
                    .entry((r, n, p))
                    .or_insert_with(|| Scrypt::new(r as usize, n as usize, p as usize));
                let (a, b) = self.args.two(&pw, &salt);
                let rep = guarded(|| reply_of(sc.derive(a, b, out.slice()).map(|_| vec![])));
                let rep = out.reply(rep);
                self.record(rec, rep);
            }
            _ => {
                let off = self.args.off;
                let mut args = std::mem::replace(&mut self.args, Args::new(off));
                let rep = if op == "noise" {
                    many::noise(&mut rec, w)
                } else if op == "mem" {
                    mem::step(&mut rec, w)
                } else if op == "stream" {
                    stream::step(&mut rec, w)
                } else if op == "cost" {
                    cost::step(&mut rec, w)
                } else if op.ends_with(".huge") {
                    huge::step(&mut rec, w)
                } else if op == "long" {
                    long::step(&mut rec, w)
                } else if op == "scrypt.vast" {
                    vast::scrypt(&mut rec, w)
                } else if op == "scrypt.witness" {
                    witness::scrypt(&mut rec, w)
                } else if op.ends_with(".many") || op == "scrypt.refuse" {
                    many::step(&mut rec, &mut args, w)
                } else {
                    bulk::step(&mut rec, &mut args, w)
                };
                self.args = args;
                self.record(rec, rep);
            }
        }
    }

    fn created(&mut self, o: u64, obj: std::thread::Result<Obj>, rec: Rec) {
        match obj {
            Ok(x) => {
                self.objs.insert(o, x);
                self.record(rec, Reply::ok(vec![]));
            }
            Err(_) => self.record(rec, Reply::panic()),
        }
    }
}

/// Whether a type may go to, or be used from, another thread.  A crate whose objects may not
/// is used from one thread only.
pub struct Is<T: ?Sized>(std::marker::PhantomData<T>);
pub trait IsNot {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> IsNot for Is<T> {}
impl<T: ?Sized + Send> Is<T> {
    pub const SEND: bool = true;
}
impl<T: ?Sized + Sync> Is<T> {
    pub const SYNC: bool = true;
}
const MOVES: bool = <Is<Obj>>::SEND && <Is<Scrypt>>::SEND;

/// The session passes from thread to thread.  Only used when MOVES.
struct Baton(Sess, usize);
unsafe impl Send for Baton {}

fn words(l: &str) -> (usize, Vec<&str>) {
    let mut w: Vec<&str> = l.split(' ').collect();
    match w[0].strip_prefix('@') {
        Some(t) => {
            let t = num(t) as usize;
            w.remove(0);
            (t, w)
        }
        None => (0, w),
    }
}

fn relay(s: Sess, lines: &[String]) -> Sess {
    let top = lines.iter().map(|l| words(l).0).max().unwrap_or(0);
    let turn = Mutex::new(Baton(s, 0));
    let wake = std::sync::Condvar::new();
    std::thread::scope(|sc| {
        for me in 0..=top {
            let (turn, wake) = (&turn, &wake);
            sc.spawn(move || loop {
                let mut b = turn.lock().unwrap();
                loop {
                    if b.1 >= lines.len() || b.0.dead {
                        wake.notify_all();
                        return;
                    }
                    if words(&lines[b.1]).0 == me {
                        break;
                    }
                    b = wake.wait(b).unwrap();
                }
                let w = words(&lines[b.1]).1;
                b.0.step(&w);
                b.1 += 1;
                wake.notify_all();
            });
        }
    });
    turn.into_inner().unwrap().0
}

/// `mesh SEED`, then short histories with `--` between them: all are run again and again, so that
/// every one directly follows every other and itself, now and then with the earlier one's objects
/// still there.  One record for each history and each different outcome of it.
fn mesh(sid: &str, lines: &[String], k: usize) -> String {
    let mut rng = Rng::new(num(lines[0].split(' ').nth(1).unwrap_or("1")));
    let tasks: Vec<&[String]> = lines[1..].split(|l| l == "--").collect();
    let n = tasks.len();
    // a closed walk along every edge of the complete digraph with loops (Hierholzer)
    let mut next: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let mut v: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                v.swap(i, rng.below(i + 1));
            }
            v
        })
        .collect();
    let (mut stack, mut walk) = (vec![rng.below(n)], vec![]);
    while let Some(&at) = stack.last() {
        match next[at].pop() {
            Some(to) => stack.push(to),
            None => walk.push(stack.pop().unwrap()),
        }
    }
    let mut seen: Vec<Vec<String>> = vec![vec![]; n];
    let mut args = Args::new(k % 16);
    let mut before: Option<Sess> = None;
    for t in walk {
        if rng.below(3) > 0 {
            before = None;
        }
        let mut s = Sess { objs: HashMap::new(), scrypts: HashMap::new(), args, ev: vec![], dead: false };
        for l in tasks[t] {
            if s.dead {
                break;
            }
            s.step(&words(l).1);
        }
        args = std::mem::replace(&mut s.args, Args { buf: [vec![], vec![]], off: 0 });
        let ev = s.ev.join(",");
        if !seen[t].contains(&ev) {
            seen[t].push(ev);
        }
        before = Some(s);
    }
    drop(before);
    let mut out = vec![];
    for (t, evs) in seen.iter().enumerate() {
        for (j, ev) in evs.iter().enumerate() {
            let more = if j == 0 { String::new() } else { format!("~{}", j + 1) };
            out.push(format!("{{\"sid\":\"{}/{}{}\",\"ev\":[{}]}}", sid, t, more, ev));
        }
    }
    out.join("\n")
}

/// Threads that make their first calls, their second calls ... at the same moment.
struct Gates {
    sizes: Vec<usize>, // how many sessions have so many calls
    here: Vec<AtomicUsize>,
}
impl Gates {
    fn of(sessions: &[(String, Vec<String>)]) -> Gates {
        let most = sessions.iter().map(|s| s.1.len()).max().unwrap_or(0);
        Gates {
            sizes: (0..most).map(|k| sessions.iter().filter(|s| s.1.len() > k).count()).collect(),
            here: (0..most).map(|_| AtomicUsize::new(0)).collect(),
        }
    }
    fn wait(&self, k: usize) {
        self.here[k].fetch_add(1, Ordering::SeqCst);
        let mut spins = 0u64;
        while self.here[k].load(Ordering::SeqCst) < self.sizes[k] {
            std::hint::spin_loop();
            spins += 1;
            if spins > 20000 {
                std::thread::yield_now(); // the others may need this core
            }
        }
    }
}

/// Groups of n sessions, each group in a process of its own, begun at once in n threads.
fn fresh(n: usize, sessions: &[(String, Vec<String>)], out: &Mutex<std::fs::File>, name: &str) {
    let me = std::env::current_exe().expect("exe");
    for (g, group) in sessions.chunks(n).enumerate() {
        let (plan, got) = (format!("{}.{}.plan", name, g), format!("{}.{}.out", name, g));
        let text: String = group.iter().map(|(sid, lines)| format!("S {}\n{}\n", sid, lines.join("\n"))).collect();
        std::fs::write(&plan, text).expect("plan");
        let done = std::process::Command::new(&me).args(&["--plan", &plan, "--out", &got, "--mode", "once"]).status().expect("run");
        let lines = std::fs::read_to_string(&got).unwrap_or_default();
        let _ = std::fs::remove_file(&plan);
        let _ = std::fs::remove_file(&got);
        out.lock().unwrap().write_all(lines.as_bytes()).expect("write");
        if !done.success() {
            std::process::exit(done.code().unwrap_or(134));
        }
    }
}

fn run_session(sid: &str, lines: &[String], k: usize, passing: bool, gates: Option<&Gates>) -> String {
    if lines[0].starts_with("mesh ") {
        return mesh(sid, lines, k);
    }
    let mut s = Sess {
        objs: HashMap::new(),
        scrypts: HashMap::new(),
        args: Args::new(k % 16),
        ev: vec![],
        dead: false,
    };
    if passing && MOVES {
        s = relay(s, lines);
    } else {
        for (i, l) in lines.iter().enumerate() {
            let call = words(l).1;
            if let Some(g) = gates {
                g.wait(i);
            }
            if !s.dead {
                s.step(&call);
            }
        }
    }
    format!("{{\"sid\":\"{}\",\"ev\":[{}]}}", sid, s.ev.join(","))
}

fn main() {
    let mut opt: HashMap<String, String> = HashMap::new();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|x| x == "--huge").unwrap_or(false) {
        return huge::child(&a[1..]);
    }
    for p in a.chunks(2) {
        opt.insert(p[0].clone(), p[1].clone());
    }
    let text = std::fs::read_to_string(&opt["--plan"]).expect("plan");
    let out = Mutex::new(std::fs::File::create(&opt["--out"]).expect("out"));
    let mode = opt.get("--mode").cloned().unwrap_or_else(|| "seq".into());

    let mut sessions: Vec<(String, Vec<String>)> = vec![];
    for line in text.lines() {
        if let Some(sid) = line.strip_prefix("S ") {
            sessions.push((sid.to_string(), vec![]));
        } else if !line.is_empty() {
            sessions.last_mut().expect("session").1.push(line.to_string());
        }
    }
    std::panic::set_hook(Box::new(|_| {}));

    if let Some(n) = mode.strip_prefix("fresh:") {
        return fresh(n.parse().unwrap(), &sessions, &out, &opt["--out"]);
    }
    let gates = if mode == "once" { Some(Gates::of(&sessions)) } else { None };

    let emit = |sid: &str, k: usize| {
        let (id, lines) = &sessions[k];
        assert_eq!(sid, id);
        let mut line = run_session(id, lines, k, mode.starts_with("relay:"), gates.as_ref());
        line.push('\n');
        let mut f = out.lock().unwrap();
        f.write_all(line.as_bytes()).expect("write");
    };

    if let Some(n) = mode.strip_prefix("threads:").or_else(|| mode.strip_prefix("relay:")) {
        let n: usize = n.parse().unwrap();
        let next = AtomicUsize::new(0);
        let gate = std::sync::Barrier::new(n);
        std::thread::scope(|sc| {
            for _ in 0..n {
                sc.spawn(|| {
                    gate.wait();
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= sessions.len() {
                            break;
                        }
                        emit(&sessions[k].0, k);
                    }
                });
            }
        });
    } else if mode == "once" {
        std::thread::scope(|sc| {
            for k in 0..sessions.len() {
                let emit = &emit;
                let sessions = &sessions;
                sc.spawn(move || emit(&sessions[k].0, k));
            }
        });
    } else {
        let n = sessions.len();
        for i in 0..n {
            let k = if mode == "rev" { n - 1 - i } else { i };
            emit(&sessions[k].0, k);
        }
    }
}
