//! Computations far too long to finish, begun and given up after a moment.  Each is a chain of at
//! least 2^31 dependent steps (or needs more memory than there is), so that no reply can be had so
//! soon: a reply that comes nevertheless, is not the one to the question that was asked.

use crate::json::{Rec, Reply};
use crate::{die, num, unhex, OutBuf};
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc::channel;
use std::time::{Duration, Instant};

/// Begun on a thread that is left behind.
fn begun<F: FnOnce() -> Vec<u8> + Send + 'static>(patience: u64, f: F) -> (bool, Reply) {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        let _ = tx.send(match r {
            Ok(v) => Reply::ok(v),
            Err(_) => Reply::panic(),
        });
    });
    match rx.recv_timeout(Duration::from_millis(patience)) {
        Ok(r) => (true, r),
        Err(_) => (false, Reply::ok(vec![])),
    }
}

pub fn step(rec: &mut Rec, w: &[&str]) -> Reply {
    match w[0] {
        "pbkdf2.huge" => {
            // pw salt c len patience
            let (pw, salt, c, len) = (unhex(w[1]), unhex(w[2]), num(w[3]), num(w[4]) as usize);
            rec.bytes("pw", &pw).bytes("salt", &salt).limbs("cc", c).num("len", len as u64);
            let (done, rep) = begun(num(w[5]), move || {
                let mut out = OutBuf::new(len, 1);
                pbkdf2_sha256(&pw, &salt, c as usize, out.slice());
                out.bytes()
            });
            rec.num("done", done as u64);
            rep
        }
        "salsa.huge" => {
            // block rounds patience
            let (x, n) = (unhex(w[1]), num(w[2]));
            rec.bytes("data", &x).limbs("cc", n);
            let (done, rep) = begun(num(w[3]), move || {
                let mut out = OutBuf::new(x.len(), 1);
                salsa20(&x, n as usize, out.slice());
                out.bytes()
            });
            rec.num("done", done as u64);
            rep
        }
        "scrypt.huge" => {
            // r n p patience: in a process of its own, which running out of memory may end
            let (r, n, p) = (num(w[1]), num(w[2]), num(w[3]));
            rec.limbs("rr", r).limbs("nn", n).limbs("pp", p);
            let exe = std::env::current_exe().unwrap_or_else(|e| die!("no executable: {}", e));
            let mut child = Command::new(exe)
                .args(["--huge", w[1], w[2], w[3]])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| die!("no child: {}", e));
            let until = Instant::now() + Duration::from_millis(num(w[4]));
            while Instant::now() < until {
                match child.try_wait() {
                    Ok(None) => std::thread::sleep(Duration::from_millis(5)),
                    _ => break,
                }
            }
            let _ = child.kill();
            let out = child.wait_with_output().map(|o| o.stdout).unwrap_or_default();
            let said = String::from_utf8_lossy(&out).trim().to_string();
            rec.text("said", &said);
            rec.num("done", !said.is_empty() as u64);
            Reply::ok(vec![])
        }
        op => die!("unknown operation {}", op),
    }
}

/// The child: says how the call ended, if it does.
pub fn child(a: &[String]) {
    let (r, n, p) = (num(&a[0]), num(&a[1]), num(&a[2]));
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = [0x77u8; 16];
    let res = catch_unwind(AssertUnwindSafe(|| {
        Scrypt::new(r as usize, n as usize, p as usize).derive(b"pw", b"salt", &mut out)
    }));
    match res {
        Ok(Ok(())) => println!("ok"),
        Ok(Err(e)) => println!("{:?}", e),
        Err(_) => {} // asking for more memory than a Vec may have
    }
}
