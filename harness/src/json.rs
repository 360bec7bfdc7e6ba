//! Just enough JSON writing for event records.

pub struct Rec {
    pub s: String,
    first: bool,
}

impl Rec {
    pub fn new(op: &str) -> Rec {
        let mut r = Rec { s: String::from("{"), first: true };
        r.text("op", op);
        r
    }
    fn key(&mut self, k: &str) {
        if !self.first {
            self.s.push(',');
        }
        self.first = false;
        self.s.push('"');
        self.s.push_str(k);
        self.s.push_str("\":");
    }
    pub fn text(&mut self, k: &str, v: &str) -> &mut Rec {
        self.key(k);
        self.s.push('"');
        for c in v.chars() {
            match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '.' | '_' | '-' | ' ' | ':' => self.s.push(c),
                _ => self.s.push('?'),
            }
        }
        self.s.push('"');
        self
    }
    pub fn num(&mut self, k: &str, v: u64) -> &mut Rec {
        self.key(k);
        self.s.push_str(&v.to_string());
        self
    }
    pub fn bytes(&mut self, k: &str, v: &[u8]) -> &mut Rec {
        self.key(k);
        put_bytes(&mut self.s, v);
        self
    }
    pub fn raw(&mut self, k: &str, v: &str) -> &mut Rec {
        self.key(k);
        self.s.push_str(v);
        self
    }
    /// 64-bit value as four 16-bit limbs, most significant first
    pub fn limbs(&mut self, k: &str, v: u64) -> &mut Rec {
        let t = format!("[{},{},{},{}]", v >> 48, (v >> 32) & 0xffff, (v >> 16) & 0xffff, v & 0xffff);
        self.raw(k, &t)
    }
    pub fn reply(&mut self, rep: &Reply) -> &mut Rec {
        self.text("r", &rep.r);
        self.bytes("out", &rep.out);
        if rep.r != "ok" {
            self.num("text", rep.text as u64);
        }
        self
    }
    pub fn end(mut self) -> String {
        self.s.push('}');
        self.s
    }
}

pub fn put_bytes(s: &mut String, v: &[u8]) {
    s.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let b = *b;
        if b >= 100 {
            s.push((b'0' + b / 100) as char);
        }
        if b >= 10 {
            s.push((b'0' + b / 10 % 10) as char);
        }
        s.push((b'0' + b % 10) as char);
    }
    s.push(']');
}

/// What a call returned.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Reply {
    pub r: String,
    pub out: Vec<u8>,
    pub text: usize,
}

impl Reply {
    pub fn ok(out: Vec<u8>) -> Reply {
        Reply { r: "ok".into(), out, text: 0 }
    }
    pub fn panic() -> Reply {
        Reply { r: "panic".into(), out: vec![], text: 1 }
    }
    pub fn json(&self) -> String {
        let mut s = format!("{{\"r\":\"{}\",\"out\":", self.r);
        put_bytes(&mut s, &self.out);
        s.push('}');
        s
    }
}
