//! Case runner: every case is a deterministic function of (seed, workload, index); panics are
//! caught and reported; every value produced by the code under test also goes into a running
//! digest, so that builds and repetitions can be compared.
use refc::report::{fnv, Report};
use refc::rng::Rng;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..96]), b.len())
    }
}

pub struct Cx {
    pub rng: Rng,
    pub rep: Report,
    pub op: String,
    pub ctx: String,
    pub dig: u64,
    pub nontrivial: bool,
    pub obs: u64,
    /// Index of the running case.
    pub idx: u64,
    /// Small inputs only (interpreters).
    pub small: bool,
}
impl Cx {
    pub fn out(&mut self, b: &[u8]) {
        self.dig = (self.dig ^ fnv(b) ^ b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
        self.dig ^= self.dig >> 31;
    }
    pub fn op(&mut self, s: &str) {
        self.op.clear();
        self.op.push_str(s);
    }
    pub fn ctx(&mut self, s: String) {
        self.ctx = s;
    }
    fn bad(&mut self, what: &str, d: String) {
        let c = self.ctx.clone();
        let i = self.idx;
        self.rep.violation(what, format!("case {i}: {what}: {d}\n  input: {c}"));
    }
    pub fn eq(&mut self, what: &str, got: &[u8], want: &[u8]) {
        self.obs += 1;
        self.out(got);
        if got != want {
            self.bad(what, format!("got {} want {}", short(got), short(want)));
        }
    }
    pub fn eqd(&mut self, what: &str, got: &[u64], want: &[u64]) {
        self.obs += 1;
        for d in got {
            self.dig = (self.dig ^ d).wrapping_mul(0x9e3779b97f4a7c15);
            self.dig ^= self.dig >> 29;
        }
        if got != want {
            self.bad(what, format!("got {got:016x?} want {want:016x?} (little-endian digits)"));
        }
    }
    pub fn eqn(&mut self, what: &str, got: u64, want: u64) {
        self.obs += 1;
        self.dig = (self.dig ^ got).wrapping_mul(0x9e3779b97f4a7c15);
        self.dig ^= self.dig >> 29;
        if got != want {
            self.bad(what, format!("got {got:#x} want {want:#x}"));
        }
    }
    pub fn eqs(&mut self, what: &str, got: &str, want: &str) {
        self.obs += 1;
        self.out(got.as_bytes());
        if got != want {
            self.bad(what, format!("got {got:?} want {want:?}"));
        }
    }
    pub fn ok(&mut self, what: &str, cond: bool) {
        self.eqn(what, cond as u64, 1);
    }
    /// The call is documented to panic.
    pub fn panics(&mut self, what: &str, f: impl FnOnce()) {
        let r = catch_unwind(AssertUnwindSafe(f));
        self.eqn(what, r.is_err() as u64, 1);
    }
}

pub type Case = fn(&mut Cx);

pub fn case_seed(seed: u64, name: &str, idx: u64) -> u64 {
    fnv(format!("{name}/{seed}/{idx}").as_bytes())
}

pub fn run_case(cx: &mut Cx, name: &str, seed: u64, f: Case, idx: u64) -> u64 {
    cx.rng = Rng::new(case_seed(seed, name, idx));
    cx.idx = idx;
    cx.dig = 0;
    cx.nontrivial = true;
    cx.ctx.clear();
    cx.op.clear();
    let r = catch_unwind(AssertUnwindSafe(|| f(cx)));
    if r.is_err() {
        let what = format!("panic in {}", cx.op);
        let d = format!("case {idx}: {}\n  input: {}", last_panic(), cx.ctx);
        cx.rep.violation(&what, d);
        cx.dig = 0xdead;
    }
    if cx.rep.samples.len() < 2 && !cx.ctx.is_empty() {
        let mut c = cx.ctx.clone();
        c.truncate(c.char_indices().nth(300).map_or(c.len(), |(i, _)| i));
        cx.rep.sample(|| format!("{name} case {idx}: {c}"));
    }
    let nt = cx.nontrivial;
    cx.rep.eval(case_seed(seed, name, idx), nt);
    cx.dig
}

pub fn new_cx(prop: &str) -> Cx {
    Cx {
        rng: Rng::new(0),
        rep: Report::new(prop, ""),
        op: String::new(),
        ctx: String::new(),
        dig: 0,
        nontrivial: true,
        obs: 0,
        idx: 0,
        small: false,
    }
}

/// Runs cases `0..n` over the machine's cores; returns the digest of every case.
pub fn run(rep: &mut Report, name: &str, n: u64, f: Case, threads: usize, small: bool) -> Vec<u64> {
    let next = std::sync::atomic::AtomicU64::new(0);
    let seed = rep.seed;
    let prop = rep.prop.clone();
    let mut digs = vec![0u64; n as usize];
    let work = |next: &std::sync::atomic::AtomicU64| {
        let mut cx = new_cx(&prop);
        cx.small = small;
        let mut out = vec![];
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= n {
                break;
            }
            out.push((i, run_case(&mut cx, name, seed, f, i)));
        }
        cx.rep.add("values compared with the reference", cx.obs);
        (cx.rep, out)
    };
    if threads <= 1 {
        let (r, o) = work(&next);
        rep.merge(r);
        for (i, d) in o {
            digs[i as usize] = d;
        }
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|_| s.spawn(|| work(&next))).collect();
            for h in hs {
                let (r, o) = h.join().expect("worker");
                rep.merge(r);
                for (i, d) in o {
                    digs[i as usize] = d;
                }
            }
        });
    }
    digs
}
