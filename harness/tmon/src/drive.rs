//! Drives the public C API of turtls against a scripted transport and records every event.
use getrandom::Draw;
use crate::heap;
use refc::tls::{self, Hello};
use std::ffi::{c_void, CString};
use turtls::*;

/// A client configuration.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub sni: Option<Vec<u8>>,
    pub sig_algs: u16,
    pub groups: u16,
    /// The encoded protocol list (length-prefixed names).
    pub alpn: Option<Vec<u8>>,
    pub ciphers: u8,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { sni: None, sig_algs: 1, groups: 1, alpn: None, ciphers: 3 }
    }
}
impl Cfg {
    pub fn protos(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut b = self.alpn.as_deref().unwrap_or(&[]);
        while !b.is_empty() {
            let n = (b[0] as usize).min(b.len() - 1);
            v.push(b[1..1 + n].to_vec());
            b = &b[1 + n..];
        }
        v
    }
    pub fn short(&self) -> String {
        let l = |o: &Option<Vec<u8>>| match o {
            None => "-".to_string(),
            Some(v) if v.len() < 40 => format!("{:?}", String::from_utf8_lossy(v)),
            Some(v) => format!("{} bytes", v.len()),
        };
        format!("ciphers={} groups={:#x} sigs={:#x} sni={} alpn={}", self.ciphers, self.groups, self.sig_algs, l(&self.sni), l(&self.alpn))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// Up to this many bytes.
    Give(usize),
    /// Would block; the value returned to the library.
    Block(isize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Connect,
    CloseCall,
    Ret { ret: i32, err: i32, alert: i32 },
    Read { ask: usize, got: isize },
    Write { ask: usize, took: isize },
    Close,
}

pub type Flight<'a> = Box<dyn FnMut(&Hello) -> Vec<u8> + 'a>;

/// The scripted transport behind the callbacks. One per connection object; reset for each attempt.
pub struct Tp<'a> {
    pub evs: Vec<Ev>,
    pub out: Vec<u8>,
    pub inp: Vec<u8>,
    pub pos: usize,
    pub rplan: Vec<Step>,
    pub wplan: Vec<Step>,
    rp: usize,
    wp: usize,
    pub flight: Option<Flight<'a>>,
    pub hello: Option<Hello>,
    pub hello_err: Option<String>,
    /// Problems seen by the callbacks themselves (argument discipline).
    pub misuse: Vec<String>,
    /// Reads that found no data since the last API call.
    starved: usize,
    /// The address the library was told to pass.
    pub me: *const c_void,
    /// (record header bytes, its length) being consumed: framing of the bytes read so far.
    frame_have: usize,
    frame_hdr: [u8; 5],
    /// Ask for too much is only judged when the plan delivers the framing (always true).
    pub closed: bool,
    /// Every output byte is also touched through this sink, so that sanitizers see the buffer.
    pub sink: u64,
    pub max_reads: usize,
    pub reads: usize,
    /// No byte from this position on is delivered.
    pub stop_at: Option<usize>,
    /// Whether `reset` leaves `stop_at` alone.
    pub keep_stop: bool,
    /// Whether scripted write failures apply after the ClientHello, too.
    pub free_blocks: bool,
    hello_out: bool,
}
impl<'a> Tp<'a> {
    pub fn new() -> Box<Self> {
        let mut t = Box::new(Tp {
            evs: vec![],
            out: vec![],
            inp: vec![],
            pos: 0,
            rplan: vec![],
            wplan: vec![],
            rp: 0,
            wp: 0,
            flight: None,
            hello: None,
            hello_err: None,
            misuse: vec![],
            starved: 0,
            me: std::ptr::null(),
            frame_have: 0,
            frame_hdr: [0; 5],
            closed: false,
            sink: 0,
            max_reads: 2_000_000,
            reads: 0,
            stop_at: None,
            keep_stop: false,
            free_blocks: false,
            hello_out: false,
        });
        t.me = &*t as *const Tp as *const c_void;
        t
    }
    /// Forgets everything about the previous attempt.
    pub fn reset(&mut self, flight: Option<Flight<'a>>, rplan: Vec<Step>, wplan: Vec<Step>) {
        self.evs.clear();
        self.out.clear();
        self.inp.clear();
        self.pos = 0;
        self.rplan = rplan;
        self.wplan = wplan;
        self.rp = 0;
        self.wp = 0;
        self.flight = flight;
        self.hello = None;
        self.hello_err = None;
        self.starved = 0;
        self.frame_have = 0;
        self.closed = false;
        self.reads = 0;
        self.hello_out = false;
        if !self.keep_stop {
            self.stop_at = None;
        }
    }
    pub fn set_writes(&mut self, w: Vec<Step>) {
        self.wplan = w;
        self.wp = 0;
    }
    /// Nothing more can be read, ever.
    pub fn done_reading(&self) -> bool {
        self.stop_at.is_some_and(|s| self.pos >= s)
            || self.pos == self.inp.len() && (self.rp >= self.rplan.len() || self.hello.is_some() || self.hello_err.is_some())
    }
    fn hello_is_out(&mut self) -> bool {
        if !self.hello_out && self.out.len() >= 9 {
            let n = (self.out[6] as usize) << 16 | (self.out[7] as usize) << 8 | self.out[8] as usize;
            if self.out.len() >= 9 + n || self.out[0] != 22 {
                self.hello_out = !matches!(tls::first_message(&self.out), Ok(None));
            }
        }
        self.hello_out
    }
    fn note(&mut self, s: String) {
        if self.misuse.len() < 10 {
            self.misuse.push(s);
        }
    }
    fn look_for_hello(&mut self) {
        if self.hello.is_some() || self.hello_err.is_some() {
            return;
        }
        match tls::first_message(&self.out) {
            Err(e) => self.hello_err = Some(e),
            Ok(None) => (),
            Ok(Some((m, _))) => match tls::client_hello(&m) {
                Err(e) => self.hello_err = Some(e),
                Ok(h) => {
                    if let Some(f) = self.flight.as_mut() {
                        let b = f(&h);
                        self.inp.extend(b);
                    }
                    self.hello = Some(h);
                },
            },
        }
    }
    /// How many bytes the library may ask for at most.
    fn frame_left(&self) -> usize {
        if self.frame_have < 5 {
            5 - self.frame_have
        } else {
            5 + self.frame_len() - self.frame_have
        }
    }
    fn frame_len(&self) -> usize {
        (self.frame_hdr[3] as usize) << 8 | self.frame_hdr[4] as usize
    }
    fn frame_take(&mut self, b: &[u8]) {
        for &x in b {
            if self.frame_have < 5 {
                self.frame_hdr[self.frame_have] = x;
            }
            self.frame_have += 1;
            if self.frame_have >= 5 && self.frame_have == 5 + self.frame_len() {
                self.frame_have = 0;
            }
        }
    }
    fn read(&mut self, buf: *mut u8, ask: usize) -> isize {
        self.reads += 1;
        if ask == 0 {
            self.note("read callback asked for zero bytes".into());
        }
        if self.reads > self.max_reads || self.starved > 1000 {
            println!("V hang\x1fthe read callback is called again and again without progress ({} reads, {} without data)", self.reads, self.starved);
            crate::worker::flush();
            std::process::exit(9);
        }
        self.look_for_hello();
        let left = self.frame_left();
        if ask > left {
            self.note(format!("read callback asked for {ask} bytes when the current record needs {left}"));
        }
        // the whole announced buffer must be writable
        // SAFETY: the library announces `ask` writable bytes; the sanitizers check the claim.
        unsafe { std::ptr::write_bytes(buf, 0xA5, ask) };
        let end = self.stop_at.map_or(self.inp.len(), |s| s.min(self.inp.len()));
        let avail = end.saturating_sub(self.pos);
        let step = if self.rp < self.rplan.len() {
            self.rp += 1;
            self.rplan[self.rp - 1]
        } else {
            Step::Give(usize::MAX)
        };
        let r = match step {
            Step::Block(v) => v,
            Step::Give(_) if avail == 0 => -1,
            Step::Give(n) => {
                let n = n.max(1).min(ask).min(avail);
                let src = &self.inp[self.pos..self.pos + n];
                // SAFETY: as above.
                unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), buf, n) };
                let src = src.to_vec();
                self.frame_take(&src);
                self.pos += n;
                n as isize
            },
        };
        if r <= 0 {
            self.starved += 1;
        }
        self.evs.push(Ev::Read { ask, got: r });
        r
    }
    fn write(&mut self, buf: *const u8, ask: usize) -> isize {
        if ask == 0 {
            self.note("write callback given zero bytes".into());
        }
        // SAFETY: the library announces `ask` readable bytes; the sanitizers check the claim.
        let b = unsafe { std::slice::from_raw_parts(buf, ask) };
        for x in b {
            self.sink = self.sink.wrapping_mul(31).wrapping_add(*x as u64);
        }
        let step = if self.wp < self.wplan.len() {
            self.wp += 1;
            self.wplan[self.wp - 1]
        } else {
            Step::Give(usize::MAX)
        };
        let step = match step {
            Step::Block(_) if !self.free_blocks && self.hello_is_out() => Step::Give(usize::MAX),
            s => s,
        };
        let r = match step {
            Step::Block(v) => v,
            Step::Give(n) => {
                let n = n.max(1).min(ask);
                self.out.extend(&b[..n]);
                n as isize
            },
        };
        self.evs.push(Ev::Write { ask, took: r });
        if self.evs.len() > 4_000_000 {
            println!("V hang\x1fthe write callback is called without end");
            crate::worker::flush();
            std::process::exit(9);
        }
        r
    }
}
thread_local! {
    /// The context pointers of the connections of this thread.
    static LIVE: std::cell::RefCell<std::collections::HashSet<usize>> = std::cell::RefCell::default();
}
fn tp<'x>(ctx: *const c_void) -> &'x mut Tp<'x> {
    if !LIVE.with(|l| l.borrow().contains(&(ctx as usize))) {
        println!("V callback-context\x1fa callback was given the context {ctx:?}, which belongs to no connection");
        crate::worker::flush();
        std::process::exit(9);
    }
    // SAFETY: `ctx` is the pointer given to `turtls_new`, whose target outlives the connection.
    // Only one API call is active at a time for a connection.
    unsafe { &mut *(ctx as *mut Tp) }
}
pub extern "C" fn read_cb(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    let _o = heap::outside();
    tp(ctx).read(buf as *mut u8, amt)
}
pub extern "C" fn write_cb(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    let _o = heap::outside();
    tp(ctx).write(buf as *const u8, amt)
}
pub extern "C" fn close_cb(ctx: *const c_void) {
    let _o = heap::outside();
    let t = tp(ctx);
    t.closed = true;
    t.evs.push(Ev::Close);
}

/// Configured strings, owned by pointer as a C caller would.
struct Names {
    sni: Option<*mut std::ffi::c_char>,
    alpn: Option<*mut [u8]>,
}
impl Drop for Names {
    fn drop(&mut self) {
        // SAFETY: both came from `into_raw` and are dropped once.
        unsafe {
            // overwritten first, so that a late use is noticed
            if let Some(s) = self.sni {
                CString::from_raw(s).into_bytes().fill(b'X');
            }
            if let Some(a) = self.alpn {
                Box::from_raw(a).fill(0xff);
            }
        }
    }
}

/// Owns a transport that callbacks reach by pointer.
pub struct Raw<'a>(*mut Tp<'a>);
impl<'a> std::ops::Deref for Raw<'a> {
    type Target = Tp<'a>;
    fn deref(&self) -> &Tp<'a> {
        // SAFETY: valid until dropped; callbacks run only inside API calls, when no such borrow exists.
        unsafe { &*self.0 }
    }
}
impl<'a> std::ops::DerefMut for Raw<'a> {
    fn deref_mut(&mut self) -> &mut Tp<'a> {
        // SAFETY: as above.
        unsafe { &mut *self.0 }
    }
}
impl Drop for Raw<'_> {
    fn drop(&mut self) {
        // SAFETY: came from a box and is dropped once.
        drop(unsafe { Box::from_raw(self.0) });
    }
}

/// A connection object with its transport.
pub struct Conn<'a> {
    pub p: *mut TurtlsConn,
    pub tp: Raw<'a>,
    names: Names,
}
impl<'a> Conn<'a> {
    pub fn new() -> Self {
        let t = Raw(Box::into_raw(Tp::new()));
        let ctx = t.0 as *mut c_void;
        // SAFETY: just created.
        unsafe { (*t.0).me = ctx };
        LIVE.with(|l| l.borrow_mut().insert(ctx as usize));
        let p = heap::inside(|| turtls_new(TurtlsIo { write_fn: write_cb, read_fn: read_cb, close_fn: close_cb, ctx }));
        Conn { p, tp: t, names: Names { sni: None, alpn: None } }
    }
    /// Applies a configuration; the strings live until `forget_names`.
    pub fn configure(&mut self, cfg: &Cfg) {
        let sni = cfg.sni.as_ref().map(|s| CString::new(s.clone()).unwrap().into_raw());
        let alpn = cfg.alpn.as_ref().map(|s| Box::into_raw(s.clone().into_boxed_slice()));
        // SAFETY: the connection is valid.
        unsafe {
            let c = &mut *turtls_get_config(self.p);
            c.extensions.server_name = sni.map_or(std::ptr::null(), |s| s as *const _);
            c.extensions.sig_algs = cfg.sig_algs;
            c.extensions.sup_groups = cfg.groups;
            c.extensions.app_protos = alpn.map_or(std::ptr::null(), |s| s as *const u8 as *const _);
            c.extensions.app_protos_len = alpn.as_ref().map_or(0, |s| s.len());
            *(&raw mut c.cipher_suites as *mut u8) = cfg.ciphers;
        }
        self.names = Names { sni, alpn };
    }
    /// Frees the configured strings (after overwriting them), leaving dangling pointers behind.
    pub fn forget_names(&mut self) {
        self.names = Names { sni: None, alpn: None };
    }
    pub fn err(&self) -> i32 {
        // SAFETY: the connection is valid.
        unsafe { turtls_get_error(self.p) as i32 }
    }
    pub fn alert(&self) -> i32 {
        // SAFETY: the connection is valid.
        unsafe { turtls_get_tls_error(self.p) as i32 }
    }
    /// The reported protocol up to its terminating nul; `None` if it is not terminated.
    pub fn proto(&self) -> Option<Vec<u8>> {
        // SAFETY: the connection is valid, and the accessor documents a nul-terminated string;
        // names are at most 255 bytes long.
        unsafe {
            let p = turtls_app_proto(self.p) as *const u8;
            if p.is_null() {
                return None;
            }
            let mut v = vec![];
            for i in 0..256 {
                let b = *p.add(i);
                if b == 0 {
                    return Some(v);
                }
                v.push(b);
            }
            None
        }
    }
    pub fn connect(&mut self) -> (i32, i32, i32) {
        self.tp.starved = 0;
        self.tp.evs.push(Ev::Connect);
        // SAFETY: the connection is valid.
        let ret = heap::inside(|| unsafe { turtls_connect(self.p) });
        let r = (ret, self.err(), self.alert());
        self.tp.evs.push(Ev::Ret { ret, err: r.1, alert: r.2 });
        self.tp.look_for_hello();
        r
    }
    pub fn close(&mut self) {
        self.tp.evs.push(Ev::CloseCall);
        // SAFETY: the connection is valid.
        heap::inside(|| unsafe { turtls_close(self.p) });
        let r = Ev::Ret { ret: 0, err: self.err(), alert: self.alert() };
        self.tp.evs.push(r);
    }
    fn gone(&self) {
        let a = self.tp.0 as usize;
        LIVE.with(|l| l.borrow_mut().remove(&a));
    }
    pub fn free(mut self) {
        // SAFETY: the connection is valid and not used again.
        heap::inside(|| unsafe { turtls_free(self.p) });
        self.gone();
        self.p = std::ptr::null_mut();
    }
}
impl Drop for Conn<'_> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            // SAFETY: the connection is valid and not used again.
            heap::inside(|| unsafe { turtls_free(self.p) });
            self.gone();
        }
    }
}

pub const TLS: i32 = 0;
pub const PEER: i32 = 1;
pub const RNG: i32 = 2;
pub const WANT_READ: i32 = 3;
pub const WANT_WRITE: i32 = 4;
pub const KEY_ZERO: i32 = 5;
pub const MISSING: i32 = 6;

/// What is known of one attempt after it was driven.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub evs: Vec<Ev>,
    pub out: Vec<u8>,
    /// Server bytes made available, and how many were consumed.
    pub inp: Vec<u8>,
    pub pos: usize,
    pub hello: Option<Hello>,
    pub hello_err: Option<String>,
    pub draws: Vec<Option<Vec<u8>>>,
    pub ret: i32,
    pub err: i32,
    pub alert: i32,
    pub proto: Option<Vec<u8>>,
    pub connects: usize,
    pub misuse: Vec<String>,
}

pub struct Plan {
    pub seed: u64,
    pub draws: Vec<Draw>,
    pub reads: Vec<Step>,
    pub writes: Vec<Step>,
    /// Give up after this many connect calls.
    pub max_connects: usize,
}
impl Plan {
    pub fn simple(seed: u64) -> Self {
        Plan { seed, draws: vec![], reads: vec![], writes: vec![], max_connects: 20_000 }
    }
}
/// Runs one attempt to its end: a final error, or want-read with nothing more to come.
pub fn attempt<'a>(c: &mut Conn<'a>, plan: Plan, flight: Option<Flight<'a>>) -> Obs {
    attempt_with(c, plan, flight, &mut |_, _| ())
}
/// As `attempt`; `between` is called after each connect that is to be resumed, with their number.
pub fn attempt_with<'a>(c: &mut Conn<'a>, plan: Plan, flight: Option<Flight<'a>>, between: &mut dyn FnMut(&mut Conn<'a>, usize)) -> Obs {
    getrandom::install(plan.seed, plan.draws);
    c.tp.reset(flight, plan.reads, plan.writes);
    let mut last = (0, 0, 0);
    let mut n = 0;
    let mut idle = 0;
    while n < plan.max_connects {
        last = c.connect();
        n += 1;
        if last.0 != -1 {
            break;
        }
        match last.1 {
            WANT_READ => {
                // more to come: unread bytes, or scripted blocks not yet used up
                if c.tp.done_reading() {
                    break;
                }
            },
            WANT_WRITE => {
                if c.tp.wp >= c.tp.wplan.len() {
                    idle += 1;
                    if idle > 5 {
                        break;
                    }
                }
            },
            _ => break,
        }
        between(c, n);
    }
    observe(c, last, n)
}
pub fn observe(c: &mut Conn, last: (i32, i32, i32), n: usize) -> Obs {
    let proto = c.proto();
    let t = &mut c.tp;
    Obs {
        evs: t.evs.clone(),
        out: t.out.clone(),
        inp: t.inp.clone(),
        pos: t.pos,
        hello: t.hello.clone(),
        hello_err: t.hello_err.clone(),
        draws: getrandom::take_log(),
        ret: last.0,
        err: last.1,
        alert: last.2,
        proto,
        connects: n,
        misuse: std::mem::take(&mut t.misuse),
    }
}
