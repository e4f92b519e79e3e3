//! A strict model of a TLS 1.3 client: which outcomes are right for a given server byte stream.
use crate::cert::{classify, Class};
use crate::drive::Cfg;
use refc::p256::{self, Pt};
use refc::tls::{self, extensions, handshake_keys, Hello, Keys, Rd, Suite};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Plain,
    Enc,
    Either,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Codes {
    Any,
    Only(Vec<i32>),
    Not(Vec<i32>),
}
impl Codes {
    pub fn ok(&self, c: i32) -> bool {
        // a closure alert is not a fatal alert
        c != 0
            && c != 90
            && match self {
                Codes::Any => true,
                Codes::Only(v) => v.contains(&c),
                Codes::Not(v) => !v.contains(&c),
            }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    WantRead,
    Peer(i32),
    Fatal(Codes, Enc),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Step {
    Sh,
    Ee,
    Cert,
}
#[derive(Clone)]
pub struct Verdict {
    pub outs: Vec<Out>,
    /// (client, server) handshake keys, when they exist at the end.
    pub keys: Option<(Keys, Keys)>,
    /// The protocol that must be reported; `None` if not settled.
    pub proto: Option<Vec<u8>>,
    /// Whether the client may also have stopped earlier.
    pub early: bool,
    pub step: Step,
    /// Coarse reason, used as the class of the case.
    pub class: &'static str,
    pub why: String,
    /// Server bytes consumed when a client that fails, or is told of a failure, stops: more than the
    /// first (where the offending message, or the record that does not authenticate, begins), at most the second (where the record
    /// that shows the failure ends).
    pub used: (usize, usize),
}
impl Verdict {
    pub fn must_fail(&self) -> bool {
        self.outs.iter().all(|o| matches!(o, Out::Fatal(..)))
    }
    pub fn settled(&self) -> bool {
        self.outs.len() == 1
    }
}

/// Alert codes the library knows; anything else is reported as internal error.
pub const ALERTS: [i32; 27] =
    [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120];
pub fn mapped(code: u8) -> i32 {
    if ALERTS.contains(&(code as i32)) {
        code as i32
    } else {
        80
    }
}

const PLAIN_MAX: usize = 1 << 14;
const PROT_MAX: usize = (1 << 14) + 256;
pub const MSG_MAX: usize = 0x20000;

struct M<'a> {
    cfg: &'a Cfg,
    hello: &'a Hello,
    dh: &'a mut dyn FnMut(&Pt) -> Option<[u8; 32]>,
    s: &'a [u8],
    pos: usize,
    buf: Vec<u8>,
    /// Why another outcome (a fatal alert) is also right.
    gray: Option<String>,
    /// Everything hashed so far.
    transcript: Vec<u8>,
    keys: Option<(Keys, Keys)>,
    proto: Option<Vec<u8>>,
    step: Step,
    /// Where the last record begins and ends, and where the one does in which the current message began.
    rec: (usize, usize),
    msg_at: usize,
}
enum Go {
    On,
    /// Fatal with these codes.
    Bad(&'static str, String, Codes),
    /// Fatal, but the client may also still be waiting.
    BadOrWait(&'static str, String),
    Done(&'static str, String, Vec<Out>),
}
use Go::*;
fn bad(c: &'static str, w: impl Into<String>) -> Go {
    Bad(c, w.into(), Codes::Any)
}

impl<'a> M<'a> {
    fn enc(&self) -> Enc {
        if self.keys.is_some() {
            Enc::Enc
        } else {
            Enc::Plain
        }
    }
    fn gray(&mut self, why: impl Into<String>) {
        if self.gray.is_none() {
            self.gray = Some(why.into());
        }
    }
    fn run(mut self) -> Verdict {
        let mut after_sh = false;
        loop {
            let g = match self.message() {
                Some(On) if self.step == Step::Ee && !after_sh => {
                    after_sh = true;
                    if self.buf.is_empty() {
                        On
                    } else {
                        let mut v = self.end("sh-leftover", "bytes after the ServerHello in its record".into(), vec![Out::Fatal(Codes::Any, Enc::Either)]);
                        v.proto = Some(vec![]);
                        return v;
                    }
                },
                Some(g) => g,
                None => self.record(),
            };
            match g {
                On => (),
                Bad(c, w, codes) => {
                    let e = self.enc();
                    return self.end(c, w, vec![Out::Fatal(codes, e)]);
                },
                BadOrWait(c, w) => {
                    let e = self.enc();
                    return self.end(c, w, vec![Out::WantRead, Out::Fatal(Codes::Any, e)]);
                },
                Done(c, w, o) => return self.end(c, w, o),
            }
        }
    }
    fn end(&mut self, class: &'static str, why: String, mut outs: Vec<Out>) -> Verdict {
        let mut why = why;
        if let Some(g) = &self.gray {
            let f = Out::Fatal(Codes::Any, Enc::Either);
            if !outs.contains(&f) {
                outs.push(f);
            }
            why = format!("{why} (unsettled: {g})");
        }
        Verdict { outs, keys: self.keys.clone(), proto: self.proto.clone(), early: self.gray.is_some(), step: self.step, class, why, used: (if class == "mac" { self.rec.0 } else { self.msg_at.min(self.rec.0) }, self.rec.1) }
    }
    /// Takes the next handshake message if it is complete.
    fn message(&mut self) -> Option<Go> {
        let want = match self.step {
            Step::Sh => 2,
            Step::Ee => 8,
            Step::Cert => 11,
        };
        if !self.buf.is_empty() && self.buf[0] != want {
            self.gray(format!("message of type {} begun", self.buf[0]));
        }
        if self.buf.len() < 4 {
            return None;
        }
        let n = (self.buf[1] as usize) << 16 | (self.buf[2] as usize) << 8 | self.buf[3] as usize;
        if n > MSG_MAX {
            return Some(bad("msg-too-long", format!("announced message of {n} bytes")));
        }
        if n > MSG_MAX - 4 {
            self.gray("message at the buffer limit");
        }
        if self.buf.len() < 4 + n {
            return None;
        }
        let rest = self.buf.split_off(4 + n);
        let msg = std::mem::replace(&mut self.buf, rest);
        if msg[0] != want {
            return Some(bad("msg-type", format!("message of type {} where {want} is due", msg[0])));
        }
        self.transcript.extend(&msg);
        Some(match self.step {
            Step::Sh => match self.server_hello(&msg[4..]) {
                Ok((suite, secret)) => {
                    self.keys = Some(handshake_keys(suite, &secret, &self.transcript));
                    self.step = Step::Ee;
                    self.msg_at = self.rec.0;
                    On
                },
                Err(e) => bad("sh", e),
            },
            Step::Ee => match self.encrypted_extensions(&msg[4..]) {
                Ok(p) => {
                    self.proto = Some(p);
                    self.step = Step::Cert;
                    self.msg_at = self.rec.0;
                    On
                },
                Err(e) => {
                    self.proto = None;
                    bad("ee", e)
                },
            },
            Step::Cert => match classify(&msg[4..]) {
                Class::Well => Bad("cert-well", "well-formed certificates".into(), Codes::Only(vec![46])),
                Class::Mal(e) => {
                    if self.gray.is_some() {
                        bad("cert-gray", e)
                    } else {
                        Bad("cert-malformed", e, Codes::Not(vec![46]))
                    }
                },
                Class::Gray(e) => bad("cert-gray", e),
            },
        })
    }
    fn alert(&mut self, b: &[u8]) -> Go {
        if b.len() != 2 {
            return bad("alert-malformed", format!("alert of {} bytes", b.len()));
        }
        let p = Out::Peer(mapped(b[1]));
        if self.buf.is_empty() {
            Done("alert", format!("alert {} level {}", b[1], b[0]), vec![p])
        } else {
            let e = self.enc();
            Done("alert-inside", "alert inside a message".into(), vec![p, Out::Fatal(Codes::Any, e)])
        }
    }
    fn record(&mut self) -> Go {
        let s = self.s;
        let rem = &s[self.pos..];
        self.rec = (self.pos, s.len());
        if self.buf.is_empty() {
            self.msg_at = self.pos;
        }
        if rem.len() < 5 {
            return Done("starved", format!("{} header bytes", rem.len()), vec![Out::WantRead]);
        }
        let ty = rem[0];
        let n = (rem[3] as usize) << 8 | rem[4] as usize;
        let full = rem.len() >= 5 + n;
        self.rec.1 = (self.pos + 5 + n).min(s.len());
        let starved = || Done("starved", format!("{} of {n} record bytes", rem.len() - 5), vec![Out::WantRead]);
        let by_header = |c: &'static str, w: String| if full { bad(c, w) } else { BadOrWait(c, w) };
        let prot = self.keys.is_some();
        if n > PROT_MAX {
            let c = if prot && ty == 23 || !prot && (ty == 21 || ty == 22) { Codes::Only(vec![22]) } else { Codes::Any };
            return Bad("record-too-long", format!("record of type {ty} and {n} bytes"), c);
        }
        if !prot && n > PLAIN_MAX && (ty == 21 || ty == 22) {
            return Bad("record-too-long", format!("plaintext record of type {ty} and {n} bytes"), Codes::Only(vec![22]));
        }
        if ty == 20 {
            if n != 1 {
                return by_header("ccs", format!("change-cipher-spec of {n} bytes"));
            }
            if !full {
                return starved();
            }
            if rem[5] != 1 {
                return bad("ccs", format!("change-cipher-spec of value {}", rem[5]));
            }
            if !self.buf.is_empty() {
                self.gray("change-cipher-spec inside a message");
            }
            self.pos += 6;
            return On;
        }
        if prot {
            if ty != 23 {
                return by_header("unprotected", format!("unprotected record of type {ty}"));
            }
            if n < 17 {
                return by_header("prot-short", format!("protected record of {n} bytes"));
            }
            if !full {
                return starved();
            }
            let r = &rem[..5 + n];
            let Some(inner) = self.keys.as_mut().unwrap().1.open(r) else {
                return Bad("mac", "record does not authenticate".into(), Codes::Only(vec![20]));
            };
            self.pos += 5 + n;
            let Some(at) = inner.iter().rposition(|&x| x != 0) else {
                return bad("all-padding", format!("{} bytes of padding", inner.len()));
            };
            let (ity, c) = (inner[at], &inner[..at]);
            if c.len() > PLAIN_MAX {
                return Bad("content-too-long", format!("content of {} bytes", c.len()), Codes::Only(vec![22]));
            }
            match ity {
                22 if c.is_empty() => bad("prot-empty", "empty handshake content"),
                22 => {
                    self.buf.extend(c);
                    On
                },
                21 => self.alert(c),
                t => bad("prot-type", format!("protected content of type {t}")),
            }
        } else {
            match ty {
                22 => {
                    if !full {
                        return starved();
                    }
                    if n == 0 {
                        self.gray("empty plaintext handshake record");
                    }
                    self.buf.extend(&rem[5..5 + n]);
                    self.pos += 5 + n;
                    On
                },
                21 => {
                    if n != 2 {
                        return by_header("alert-malformed", format!("alert record of {n} bytes"));
                    }
                    if !full {
                        return starved();
                    }
                    self.pos += 7;
                    self.alert(&rem[5..7])
                },
                _ => by_header("record-type", format!("record of type {ty} and {n} bytes before keys")),
            }
        }
    }
    fn server_hello(&mut self, b: &[u8]) -> Result<(Suite, [u8; 32]), String> {
        let mut r = Rd { b };
        r.take(2)?;
        let random = r.take(32)?;
        if random == tls::HRR_RANDOM {
            return Err("retry request".into());
        }
        if !r.vec(1)?.is_empty() {
            return Err("session id not empty".into());
        }
        let c = r.int(2)? as u16;
        if !self.hello.ciphers.contains(&c) {
            return Err(format!("cipher suite {c:#x} not offered"));
        }
        let suite = Suite::from_code(c).ok_or("unknown cipher suite offered")?;
        if r.int(1)? != 0 {
            return Err("compression".into());
        }
        let ex = r.vec(2)?;
        r.end("the extensions")?;
        let ex = extensions(ex)?;
        let mut ver = false;
        let mut share = None;
        for (i, (t, d)) in ex.iter().enumerate() {
            if ex[..i].iter().any(|x| x.0 == *t) {
                return Err(format!("extension {t} repeated"));
            }
            match t {
                43 => {
                    if d[..] != [3, 4] {
                        return Err(format!("version {d:?}"));
                    }
                    ver = true;
                },
                51 => {
                    let mut r = Rd { b: d };
                    let g = r.int(2)?;
                    let k = r.vec(2)?;
                    r.end("the key share")?;
                    if g != 23 || !self.hello.groups.as_ref().is_some_and(|v| v.contains(&23)) {
                        return Err(format!("group {g}"));
                    }
                    if k.len() != 65 || k[0] != 4 {
                        return Err(format!("key share of {} bytes", k.len()));
                    }
                    let (x, y) = (&k[1..33], &k[33..]);
                    if refc::nat::Nat::from_be(x) >= p256::p_nat() || refc::nat::Nat::from_be(y) >= p256::p_nat() {
                        return Err("coordinate out of range".into());
                    }
                    let (x, y) = (p256::fe_from_be(x), p256::fe_from_be(y));
                    if !p256::on_curve(&x, &y) {
                        return Err("point not on the curve".into());
                    }
                    share = Some(Some((x, y)));
                },
                t => return Err(format!("extension {t}")),
            }
        }
        if !ver {
            return Err("no version extension".into());
        }
        let p: Pt = share.ok_or("no key share")?;
        let secret = (self.dh)(&p).ok_or("no shared secret")?;
        Ok((suite, secret))
    }
    fn encrypted_extensions(&mut self, b: &[u8]) -> Result<Vec<u8>, String> {
        let mut r = Rd { b };
        let ex = r.vec(2)?;
        r.end("the extensions")?;
        let ex = extensions(ex)?;
        let mut proto = vec![];
        for (i, (t, d)) in ex.iter().enumerate() {
            if ex[..i].iter().any(|x| x.0 == *t) {
                return Err(format!("extension {t} repeated"));
            }
            match t {
                0 => {
                    if self.hello.sni.is_none() {
                        return Err("server name not offered".into());
                    }
                    if !d.is_empty() {
                        self.gray("server name acknowledgement with data");
                    }
                },
                10 => {
                    let mut r = Rd { b: d };
                    match r.vec(2) {
                        Ok(l) if r.b.is_empty() && !l.is_empty() && l.len() % 2 == 0 => (),
                        _ => self.gray("malformed supported_groups"),
                    }
                },
                16 => {
                    if self.hello.alpn.is_none() {
                        return Err("protocol not offered".into());
                    }
                    let mut r = Rd { b: d };
                    let mut l = Rd { b: r.vec(2)? };
                    r.end("the protocol list")?;
                    let p = l.vec(1)?;
                    l.end("the protocol")?;
                    if p.is_empty() {
                        return Err("empty protocol".into());
                    }
                    if !self.cfg.protos().iter().any(|x| x == p) {
                        return Err("protocol was not offered".into());
                    }
                    proto = p.to_vec();
                },
                t => return Err(format!("extension {t}")),
            }
        }
        Ok(proto)
    }
}

pub fn predict(cfg: &Cfg, hello: &Hello, dh: &mut dyn FnMut(&Pt) -> Option<[u8; 32]>, s: &[u8]) -> Verdict {
    M {
        cfg,
        hello,
        dh,
        s,
        pos: 0,
        buf: vec![],
        gray: None,
        transcript: hello.msg.clone(),
        keys: None,
        proto: Some(vec![]),
        step: Step::Sh,
        rec: (0, 0),
        msg_at: 0,
    }
    .run()
}
