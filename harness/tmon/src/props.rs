//! The workloads of each property.
use crate::drive::*;
use crate::gen::{self, build, Built, Focus};
use crate::judge::{self, judge, Aspect};
use crate::model::{self, predict, Codes, Out, Verdict};
use crate::worker::{Cx, Wl};
use getrandom::Draw;
use refc::nat::Nat;
use refc::p256;
use refc::rng::Rng;
use refc::tls::{self, Hello};
use std::cell::RefCell;
use std::rc::Rc;

/// One generated attempt: everything needed to repeat it exactly.
#[derive(Clone)]
pub struct Spec {
    pub cfg: Cfg,
    pub seed: u64,
    pub draws: Vec<Draw>,
    pub focus: Focus,
    pub fseed: u64,
}
impl Spec {
    pub fn new(r: &mut Rng, focus: Focus) -> Self {
        Spec { cfg: gen::cfg(r), seed: r.u64(), draws: gen::pooled_draws(r), focus, fseed: r.u64() }
    }
}
pub type Shared = Rc<RefCell<Option<Built>>>;
pub fn flight_of(s: &Spec, keep: Shared) -> Flight<'static> {
    let s = s.clone();
    Box::new(move |h: &Hello| {
        let b = build(s.fseed, s.focus, &s.cfg, h);
        let bytes = b.bytes.clone();
        *keep.borrow_mut() = Some(b);
        bytes
    })
}
pub fn plan_of(s: &Spec) -> Plan {
    Plan { seed: s.seed, draws: s.draws.clone(), reads: vec![], writes: vec![], max_connects: 20_000 }
}
pub fn verdict(cfg: &Cfg, o: &Obs) -> Option<Verdict> {
    verdict_upto(cfg, o, o.inp.len())
}
pub fn verdict_upto(cfg: &Cfg, o: &Obs, n: usize) -> Option<Verdict> {
    let h = o.hello.as_ref()?;
    Some(predict(cfg, h, &mut |p| gen::secret_for(h, &o.draws, p), &o.inp[..n]))
}
/// Runs a whole attempt on a fresh object.
pub fn solo(cx: &mut Cx, s: &Spec, plan: Plan) -> (Obs, Option<Built>) {
    let keep: Shared = Rc::new(RefCell::new(None));
    cx.describe(format!("{}; flight seed {:#x}", s.cfg.short(), s.fseed));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    // the description becomes known when the flight is built, before the library reads it
    let f = flight_of(s, keep.clone());
    let base = cx.desc.clone();
    let k2 = keep.clone();
    let mut f = f;
    let wrapped: Flight = Box::new(move |h| {
        let b = f(h);
        if let Some(x) = k2.borrow().as_ref() {
            crate::worker::note(&format!("{base}; {}", x.desc));
        }
        b
    });
    let o = attempt(&mut c, plan, Some(wrapped));
    c.free();
    let b = keep.borrow_mut().take();
    if let Some(b) = &b {
        let d = format!("{}; {}", cx.desc, if b.desc.is_empty() { "valid flight" } else { &b.desc });
        cx.describe(d);
    }
    (o, b)
}
fn report(cx: &mut Cx, aspects: &[Aspect], o: &Obs, v: &Verdict) {
    for f in judge(o, v) {
        if aspects.contains(&f.aspect) || f.aspect == judge::Aspect::Progress && aspects.contains(&Aspect::Outcome) {
            cx.violation(&f.sig, f.detail);
        } else {
            cx.count("other-property-findings");
        }
    }
}
fn tally(cx: &mut Cx, o: &Obs, v: &Verdict) {
    cx.count(&format!("class:{}", v.class));
    if let Some((_, g)) = v.why.split_once("(unsettled: ") {
        let g: String = g.chars().filter(|c| !c.is_ascii_digit()).take(30).collect();
        cx.count(&format!("unsettled:{}", g.trim_end_matches(')')));
    }
    cx.count(&format!("observed:{}", judge::got(o).split(' ').take(2).collect::<Vec<_>>().join("-")));
    cx.count(&format!("reached:{:?}", v.step));
    *cx.counts.entry("events".into()).or_insert(0) += o.evs.len() as u64;
    let id = format!("{}|{}|{}|{}", v.class, v.why, o.alert, refc::report::fnv(&o.inp));
    cx.eval(&id, !o.inp.is_empty());
    if cx.verbose {
        println!("{}\n  model {:?} [{}] {}\n  client {} after {} connects, consumed {} of {}", cx.desc, v.outs, v.class, v.why, judge::got(o), o.connects, o.pos, o.inp.len());
        println!("  out {}", refc::hex(&o.out));
        println!("  in  {}", refc::hex(&o.inp));
    }
    let d = format!("{} -> model {} [{}], client {}", cx.desc, v.outs.iter().map(judge::name).collect::<Vec<_>>().join("/"), v.class, judge::got(o));
    cx.sample(|| d.chars().take(400).collect());
}
/// The common case: one flight, one attempt, judged.
fn judged(cx: &mut Cx, focus: Focus, aspects: &[Aspect]) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, focus);
    let (o, _) = solo(cx, &s, plan_of(&s));
    let Some(v) = verdict(&s.cfg, &o) else {
        cx.inconclusive.push(format!("no ClientHello: {:?}, {}", o.hello_err, judge::got(&o)));
        return;
    };
    report(cx, aspects, &o, &v);
    tally(cx, &o, &v);
}

// ---------------------------------------------------------------- T01
fn fuzz_focus(r: &mut Rng) -> Focus {
    let p = |r: &mut Rng| *r.pick(&[0usize, 0, 20, 60]);
    Focus {
        sh: p(r),
        ee: p(r),
        cert: p(r),
        order: p(r),
        records: p(r),
        alert: *r.pick(&[0, 10, 30]),
        ccs: p(r),
        sizes: *r.pick(&[0, 5, 10]),
        wire: *r.pick(&[0, 0, 20]),
        cut: *r.pick(&[0, 0, 20]),
        point: *r.pick(&[0, 0, 20]),
    }
}
fn t01(cx: &mut Cx) {
    let f = fuzz_focus(&mut cx.rng);
    judged(cx, f, &[Aspect::Outcome]);
}
/// Byte-level damage to plaintext streams and to contents that are then correctly protected.
fn t01_bytes(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut s = Spec::new(&mut r, Focus::default());
    s.cfg = gen::cfg(&mut r);
    let mode = r.below(4);
    let fs = r.u64();
    let cfg = s.cfg.clone();
    let fseed = s.fseed;
    cx.describe(format!("{}; byte damage mode {mode} seed {fs:#x}", s.cfg.short()));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let b = build(fseed, Focus::default(), &cfg, h);
            match mode {
                0 => {
                    let n = r.below(300);
                    r.biased_bytes(n)
                },
                1 => {
                    let mut b = b.bytes;
                    for _ in 0..r.range(1, 4) {
                        gen::mutate_bytes(&mut r, &mut b);
                    }
                    b
                },
                _ => {
                    // keep the ServerHello, then protected garbage
                    let (recs, _) = tls::split_records(&b.bytes);
                    let mut out: Vec<u8> = recs.iter().take_while(|x| x[0] == 22).flat_map(|x| x.to_vec()).collect();
                    let (_, mut k) = b.keys.unwrap();
                    // start over: the keys were used for the valid flight
                    k.seq = 0;
                    let mut content = tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg)));
                    if mode == 3 {
                        content.extend(tls::handshake(11, &gen::good_certs(&mut r).body()));
                    }
                    for _ in 0..r.range(1, 3) {
                        gen::mutate_bytes(&mut r, &mut content);
                    }
                    for part in content.chunks(r.range(1, 3000).max(content.len() / 50)) {
                        let t = if r.chance(1, 20) { r.u8() } else { 22 };
                        let pad = r.below(3);
                        out.extend(k.seal(t, part, pad));
                    }
                    out
                },
            }
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome], &o, &v);
    tally(cx, &o, &v);
}

// ---------------------------------------------------------------- T02
fn t02_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg { ciphers: 3, ..Cfg::default() };
    match r.below(4) {
        0 => (),
        1 => {
            c.ciphers = *r.pick(&[1, 2, 3]);
        },
        _ => {
            c.ciphers = match r.below(4) {
                0 => r.u8(),
                1 => *r.pick(&[1, 2, 3]) | 0xfc,
                2 => *r.pick(&[1, 2, 3]) | 1 << r.range(2, 7),
                _ => 3,
            };
            c.groups = match r.below(5) {
                0 => r.u64() as u16,
                1 => 0xffff,
                2 => 1 | 1 << r.below(16),
                3 => *r.pick(&[0, 2, 0x8000, 0xfffe]),
                _ => 1,
            };
            c.sig_algs = match r.below(5) {
                0 => r.u64() as u16,
                1 => 0xffff,
                2 => 1 | 1 << r.below(16),
                3 => *r.pick(&[0, 2, 0xfffe]),
                _ => 1,
            };
        },
    }
    if r.chance(2, 3) {
        let n = match r.below(8) {
            0 => *r.pick(&[16000usize, 16384, 20000, 32000, 65000]),
            1 => *r.pick(&[255usize, 256, 257, 1000, 4096]),
            2 => r.range(1, 64000),
            _ => r.range(1, 253),
        };
        c.sni = Some((0..n).map(|_| 1 + r.below(255) as u8).collect());
    }
    if r.chance(2, 3) {
        let mut l = gen::alpn_list(r);
        if r.chance(1, 4) {
            let total = match r.below(3) {
                0 => *r.pick(&[16000usize, 16384, 30000, 65000, 65300]),
                _ => r.range(1, 65000),
            };
            let mut i = 0;
            while l.len() < total {
                let n = r.range(1, 255).min(total - l.len()).max(1);
                l.extend(tls::vec8(&vec![b'a' + (i % 26) as u8; n]));
                i += 1;
            }
        }
        c.alpn = Some(l);
    }
    // names must fit the extension block
    let fixed = 200;
    let sni = c.sni.as_ref().map_or(0, |s| s.len());
    if sni + fixed > 65535 {
        c.sni.as_mut().unwrap().truncate(65535 - fixed);
    }
    let sni = c.sni.as_ref().map_or(0, |s| s.len());
    if let Some(a) = &mut c.alpn {
        let room = 65535 - fixed - sni;
        if a.len() > room {
            // keep whole names
            let mut end = 0;
            while end < a.len() && end + 1 + a[end] as usize <= room {
                end += 1 + a[end] as usize;
            }
            a.truncate(end);
            if end == 0 {
                c.alpn = None;
            }
        }
    }
    c
}
pub fn check_hello(cfg: &Cfg, out: &[u8]) -> Result<Hello, (String, String)> {
    let fail = |s: &str, d: String| Err((s.to_string(), d));
    let (msg, nrec) = match tls::first_message(out) {
        Err(e) => return fail("records", e),
        Ok(None) => return fail("incomplete", format!("{} bytes sent, no complete message", out.len())),
        Ok(Some(x)) => x,
    };
    let (recs, tail) = tls::split_records(out);
    if recs.len() != nrec || !tail.is_empty() {
        return fail("more", "bytes after the ClientHello".into());
    }
    for r in &recs {
        if r[1] != 3 || (r[2] != 3 && r[2] != 1) {
            return fail("record-version", format!("record version {:02x}{:02x}", r[1], r[2]));
        }
    }
    let h = match tls::client_hello(&msg) {
        Ok(h) => h,
        Err(e) => return fail("syntax", e),
    };
    if h.version != 0x303 {
        return fail("legacy-version", format!("{:#x}", h.version));
    }
    if !h.session_id.is_empty() {
        return fail("session-id", format!("{} bytes", h.session_id.len()));
    }
    if h.compression != [0] {
        return fail("compression", format!("{:?}", h.compression));
    }
    let mut want: Vec<u16> = vec![];
    if cfg.ciphers & 1 != 0 {
        want.push(0x1303);
    }
    if cfg.ciphers & 2 != 0 {
        want.push(0x1301);
    }
    let mut have = h.ciphers.clone();
    have.sort();
    want.sort();
    if have != want {
        return fail("ciphers", format!("{have:x?} offered, {want:x?} configured"));
    }
    let mut exts: Vec<u16> = h.exts.iter().map(|e| e.0).collect();
    exts.sort();
    let mut want = vec![10, 13, 43, 51];
    if cfg.sni.is_some() {
        want.push(0);
    }
    if cfg.alpn.as_ref().is_some_and(|a| !a.is_empty()) {
        want.push(16);
    }
    want.sort();
    if exts != want {
        return fail("extensions", format!("{exts:?} sent, {want:?} configured"));
    }
    if h.versions != Some(vec![0x304]) {
        return fail("versions", format!("{:x?}", h.versions));
    }
    if h.groups != Some(vec![23]) {
        return fail("groups", format!("{:?}", h.groups));
    }
    if h.sig_algs != Some(vec![0x403]) {
        return fail("sig-algs", format!("{:x?}", h.sig_algs));
    }
    match &h.shares {
        Some(s) if s.len() == 1 && s[0].0 == 23 && s[0].1.len() == 65 && s[0].1[0] == 4 => {
            if p256::decode(&s[0].1).is_none() {
                return fail("share", format!("share is no point: {}", refc::hex(&s[0].1)));
            }
        },
        s => return fail("share", format!("shares {s:?}")),
    }
    if h.sni != cfg.sni {
        return fail("server-name", format!("{} bytes sent, {} configured", h.sni.as_ref().map_or(0, |s| s.len()), cfg.sni.as_ref().map_or(0, |s| s.len())));
    }
    let protos = cfg.protos();
    if h.alpn.clone().unwrap_or_default() != protos {
        return fail("protocols", format!("{} sent, {} configured", h.alpn.as_ref().map_or(0, |s| s.len()), protos.len()));
    }
    Ok(h)
}
fn t02(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let cfg = t02_cfg(&mut r);
    cx.describe(cfg.short());
    let mut c = Conn::new();
    c.configure(&cfg);
    let s = Spec { cfg: cfg.clone(), seed: r.u64(), draws: gen::pooled_draws(&mut r), focus: Focus::default(), fseed: 0 };
    let o = attempt(&mut c, plan_of(&s), None);
    c.free();
    let closed = o.evs.iter().any(|e| *e == Ev::Close);
    let usable = cfg.ciphers & 3 != 0 && cfg.sig_algs & 1 != 0;
    cx.count(if cfg.groups & 1 == 0 {
        "config:no-group"
    } else if !usable {
        "config:outside"
    } else {
        "config:usable"
    });
    let id = format!("{} {} {} {:?} {:?}", cfg.ciphers, cfg.groups, cfg.sig_algs, cfg.sni, cfg.alpn);
    cx.eval(&id, true);
    let d = format!("{} -> {}, {} bytes sent", cfg.short(), judge::got(&o), o.out.len());
    cx.sample(|| d);
    if cfg.groups & 1 == 0 {
        if (o.ret, o.err) != (-1, MISSING) {
            cx.violation("no-group-accepted", format!("no usable group is configured, but the attempt gave {}", judge::got(&o)));
        }
        if !o.out.is_empty() {
            cx.violation("no-group-output", format!("no usable group is configured, but {} bytes were sent", o.out.len()));
        }
        return;
    }
    if !usable {
        return;
    }
    match check_hello(&cfg, &o.out) {
        Ok(h) => {
            if h.msg.len() > 16384 {
                cx.count("hello:several-records");
            }
            if (o.ret, o.err) != (-1, WANT_READ) {
                cx.violation("hello-then", format!("with nothing received the attempt gave {}", judge::got(&o)));
            }
            if closed {
                cx.violation("hello-closed", "closed while waiting for the server".into());
            }
        },
        Err((s, d)) => cx.violation(&format!("hello-{s}"), format!("{d}; result {}; first bytes {}", judge::got(&o), refc::hex(&o.out[..o.out.len().min(120)]))),
    }
}
/// Every combination of configuration bits.
fn t02_bits(cx: &mut Cx) {
    let i = cx.idx;
    let mut r = cx.rng.clone();
    let cfg = Cfg {
        ciphers: i as u8,
        groups: 1 | (r.u64() as u16 & if r.chance(1, 2) { 0xffff } else { 0 }),
        sig_algs: 1 | (r.u64() as u16 & if r.chance(1, 2) { 0xffff } else { 0 }),
        sni: (i & 0x100 != 0).then(|| b"a.test".to_vec()),
        alpn: (i & 0x200 != 0).then(|| b"\x02h2".to_vec()),
    };
    cx.describe(cfg.short());
    if cfg.ciphers & 3 == 0 {
        return;
    }
    let mut c = Conn::new();
    c.configure(&cfg);
    let s = Spec { cfg: cfg.clone(), seed: r.u64(), draws: gen::pooled_draws(&mut r), focus: Focus::default(), fseed: 0 };
    let o = attempt(&mut c, plan_of(&s), None);
    c.free();
    cx.eval(&cfg.short(), true);
    cx.count("config:bits");
    if let Err((s, d)) = check_hello(&cfg, &o.out) {
        cx.violation(&format!("hello-{s}"), format!("{d}; result {}", judge::got(&o)));
    }
}
/// Hello lengths at every distance from a record or buffer boundary, and full extension blocks.
fn t02_lengths(cx: &mut Cx) {
    const SPAN: usize = 180;
    let mut r = cx.rng.clone();
    let i = cx.idx as usize;
    let (mode, off, bound) = (i % 3, i / 3 % SPAN, i / 3 / SPAN % 4);
    // what a hello with both suites holds besides the names, with its header; a name costs 9 more, a list 6
    let fixed = 4 + 2 + 32 + 1 + 2 + 4 + 2 + 2 + (4 + 4) + (4 + 3) + (4 + 4) + (4 + 71);
    let (sni, alpn) = (mode != 1, mode != 0);
    let over = fixed + if sni { 9 } else { 0 } + if alpn { 6 } else { 0 };
    let exts = over - (4 + 2 + 32 + 1 + 2 + 4 + 2 + 2);
    let room = match bound {
        3 => 65535 - exts - off / 8,
        b => (b + 1) * 16384 + 150 - off - over,
    };
    let n = if !alpn {
        room
    } else if !sni {
        0
    } else {
        match r.below(3) {
            0 => r.range(1, 250),
            1 => room - r.range(2, 250),
            _ => r.range(1, room - 10),
        }
    };
    let mut list = vec![];
    while alpn && list.len() < room - n {
        let left = room - n - list.len();
        let k = if left <= 256 { left - 1 } else { r.range(1, 255).min(left - 3) };
        // a name of no bytes is not legal
        let k = if k == 0 { break } else { k };
        list.extend(tls::vec8(&vec![b'a' + r.below(26) as u8; k]));
    }
    let cfg = Cfg {
        sni: sni.then(|| (0..n).map(|_| 1 + r.below(255) as u8).collect()),
        alpn: alpn.then_some(list),
        ..Cfg::default()
    };
    cx.describe(format!("{} length mode {mode}, boundary {bound}, offset {off}", cfg.short()));
    let mut c = Conn::new();
    c.configure(&cfg);
    let s = Spec { cfg: cfg.clone(), seed: r.u64(), draws: gen::pooled_draws(&mut r), focus: Focus::default(), fseed: 0 };
    let o = attempt(&mut c, plan_of(&s), None);
    c.free();
    cx.eval(&format!("{i}"), true);
    match check_hello(&cfg, &o.out) {
        Ok(h) => cx.count(&format!("length:{}", match h.msg.len() % 16384 {
            0 => "exact records",
            n if n < 151 => "just above",
            n if n > 16384 - 140 => "just below",
            _ => "full block",
        })),
        Err((s, d)) => cx.violation(&format!("hello-{s}"), format!("{d}; result {}", judge::got(&o))),
    }
}

// ---------------------------------------------------------------- T03
/// Where a 32-byte window of the draws explains the share / the random.
fn windows(draws: &[Option<Vec<u8>>]) -> Vec<(usize, usize, Vec<u8>)> {
    let mut v = vec![];
    for (i, d) in draws.iter().enumerate() {
        if let Some(d) = d {
            for (k, w) in d.windows(32).enumerate() {
                v.push((i, k, w.to_vec()));
            }
        }
    }
    v
}
fn check_draws(h: &Hello, draws: &[Option<Vec<u8>>]) -> Result<(), (String, String)> {
    let share = gen::client_share(h);
    let w = windows(draws);
    let n = p256::n_nat();
    let mut keys = vec![];
    for (i, k, b) in &w {
        for v in [Nat::from_le(b), Nat::from_be(b)] {
            let v = v.rem(&n);
            if !v.is_zero() && p256::encode(&p256::mul_base(&v)) == share {
                keys.push((*i, *k));
            }
        }
    }
    if keys.is_empty() {
        return Err(("share-not-from-draws".into(), format!("the share {} is no multiple of the base point by drawn bytes", refc::hex(&share))));
    }
    let rnd: Vec<_> = w.iter().filter(|x| x.2 == h.random).map(|x| (x.0, x.1)).collect();
    if rnd.is_empty() {
        return Err(("random-not-from-draws".into(), format!("the client random {} was not drawn", refc::hex(&h.random))));
    }
    let apart = |a: &(usize, usize), b: &(usize, usize)| a.0 != b.0 || a.1 + 32 <= b.1 || b.1 + 32 <= a.1;
    if !keys.iter().any(|k| rnd.iter().any(|r| apart(k, r))) {
        return Err(("bytes-reused".into(), "key and random share drawn bytes".into()));
    }
    Ok(())
}
fn special_key(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let n = p256::n_nat();
    let le = |v: Nat| {
        let mut b = v.to_be(32);
        b.reverse();
        b
    };
    match r.below(14) {
        0 => (vec![0; 32], "zero"),
        1 => (le(n), "order (LE)"),
        2 => (n.to_be(32), "order (BE)"),
        3 => (le(n.sub(&Nat::one())), "order - 1"),
        4 => (le(n.add(&Nat::one())), "order + 1"),
        5 => (le(n.add(&Nat::from_u64(r.u64() >> 8))), "order + small"),
        6 => (vec![0xff; 32], "all ones"),
        7 => {
            let mut b = vec![0; 32];
            b[r.below(32)] = 1 << r.below(8);
            (b, "one bit")
        },
        8 => {
            let mut b = vec![0; 32];
            b[0] = 1 + r.below(255) as u8;
            (b, "small")
        },
        9 => {
            let mut b = r.bytes(32);
            let k = r.below(4);
            b[8 * k..8 * k + 8].fill(0);
            (b, "zero digit")
        },
        10 => {
            // top digit beyond the order's
            let mut b = r.bytes(32);
            b[24..].fill(0xff);
            (b, "beyond the order")
        },
        _ => (r.biased_bytes(32), "biased"),
    }
}
fn t03(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let cfg = gen::cfg(&mut r);
    let mut c = Conn::new();
    c.configure(&cfg);
    let n = r.range(1, 4);
    let mut seen: Vec<(Vec<u8>, Vec<u8>, bool)> = vec![];
    for k in 0..n {
        let seed = r.u64();
        let (draws, what): (Vec<Draw>, String) = match r.below(8) {
            0 => (vec![Draw::Fail], "generator fails".into()),
            1 => {
                let j = r.range(1, 3);
                let mut v: Vec<Draw> = (0..j).map(|_| Draw::Bytes(r.bytes(32))).collect();
                v.push(Draw::Fail);
                (v, format!("generator fails after {j} draws"))
            },
            2 | 3 => {
                let (b, w) = special_key(&mut r);
                (vec![Draw::Bytes(b.clone()), Draw::Bytes(r.bytes(32))], format!("key {w}"))
            },
            4 => {
                let (b, w) = special_key(&mut r);
                (vec![Draw::Bytes(b); 8], format!("every draw {w}"))
            },
            _ => (vec![], "ordinary".into()),
        };
        let scripted = !draws.is_empty();
        cx.describe(format!("{}; attempt {k}: {what}", cfg.short()));
        let o = attempt(&mut c, Plan { seed, draws, reads: vec![], writes: vec![], max_connects: 3 }, None);
        cx.count(&format!("draw:{}", what.split(' ').take(2).collect::<Vec<_>>().join(" ")));
        cx.count(&format!("observed:{}", judge::got(&o)));
        cx.eval(&format!("{what} {seed} {k}"), true);
        let d = format!("{what}: {} draws, {}", o.draws.len(), judge::got(&o));
        cx.sample(|| d);
        let failed = o.draws.iter().any(|d| d.is_none());
        let zero = windows(&o.draws).iter().any(|w| [Nat::from_le(&w.2), Nat::from_be(&w.2)].iter().any(|v| v.rem(&p256::n_nat()).is_zero()));
        if o.draws.is_empty() {
            cx.violation("no-draw", "an attempt drew nothing from the generator".into());
        }
        match (o.ret, o.err) {
            (-1, RNG) => {
                if !failed {
                    cx.violation("rng-error-without-failure", "generator error reported, but no draw failed".into());
                }
            },
            (-1, KEY_ZERO) => {
                if !zero {
                    cx.violation("key-zero-without-zero", "unusable key reported, but no drawn value is one".into());
                }
            },
            (-1, WANT_READ) => {
                if failed {
                    cx.violation("failure-ignored", "a draw failed, but the attempt went on".into());
                }
                match &o.hello {
                    None => cx.violation("no-hello", format!("no ClientHello: {:?}", o.hello_err)),
                    Some(h) => {
                        if let Err((s, d)) = check_draws(h, &o.draws) {
                            cx.violation(&s, d);
                        }
                        let share = gen::client_share(h);
                        for (a, b, sc) in &seen {
                            if (*a == share && !scripted && !sc) || *b == h.random && !scripted {
                                cx.violation("repeated", "the share or the random of an earlier attempt is used again".into());
                            }
                        }
                        seen.push((share, h.random.clone(), scripted));
                    },
                }
            },
            _ => cx.violation("unexpected", format!("with nothing received the attempt gave {}", judge::got(&o))),
        }
        if o.err != WANT_READ && !o.out.is_empty() {
            cx.violation("output-after-refusal", format!("{} but {} bytes were sent", judge::got(&o), o.out.len()));
        }
        // an attempt that was refused is over already
        if !matches!(o.err, RNG | KEY_ZERO) || r.chance(1, 2) {
            c.close();
        }
    }
    c.free();
}

// ---------------------------------------------------------------- T04
fn read_plan(r: &mut Rng, len: usize) -> Vec<Step> {
    let mut v = vec![];
    let style = r.below(6);
    let mut given = 0;
    let n = (len + 20).min(3000);
    while given < len + 10 && v.len() < 2 * n {
        if r.chance(
            match style {
                0 => 1,
                1 => 0,
                2 => 4,
                3 => 8,
                _ => 2,
            },
            10,
        ) {
            for _ in 0..r.range(1, 2) {
                v.push(Step::Block(*r.pick(&[0, -1, -1, -11, isize::MIN])));
            }
        }
        let g = match style {
            1 | 2 => 1,
            4 => r.range(1, 5),
            5 => *r.pick(&[1usize, 4, 5, 6, 100, 10000]),
            _ => r.range(1, 200),
        };
        given += g.min(16640);
        v.push(Step::Give(g));
    }
    v
}
fn same(a: &Obs, b: &Obs) -> Option<String> {
    if a.out != b.out {
        let k = a.out.iter().zip(&b.out).take_while(|(x, y)| x == y).count();
        return Some(format!("outgoing bytes differ from byte {k}: {} against {} bytes", a.out.len(), b.out.len()));
    }
    if (a.ret, a.err) != (b.ret, b.err) || (a.err == TLS || a.err == PEER) && a.alert != b.alert {
        return Some(format!("results differ: {} against {}", judge::got(a), judge::got(b)));
    }
    if a.proto != b.proto {
        return Some(format!("protocols differ: {:?} against {:?}", a.proto, b.proto));
    }
    let closes = |o: &Obs| o.evs.iter().filter(|e| **e == Ev::Close).count();
    if closes(a) != closes(b) {
        return Some(format!("close callbacks differ: {} against {}", closes(a), closes(b)));
    }
    None
}
fn mixed_focus(r: &mut Rng) -> Focus {
    if r.chance(1, 4) {
        return Focus { sizes: 30, ccs: 30, ..Focus::default() };
    }
    let mut f = fuzz_focus(r);
    // mostly one disturbance
    if r.chance(1, 2) {
        let all = f;
        f = Focus { ccs: 30, ..Focus::default() };
        match r.below(9) {
            0 => f.sh = 60,
            1 => f.ee = 60,
            2 => f.cert = 60,
            3 => f.order = 60,
            4 => f.records = 80,
            5 => f.alert = 80,
            6 => f.wire = 80,
            7 => f.cut = 100,
            _ => f = all,
        }
    }
    f
}
fn t04(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let f = mixed_focus(&mut r);
    let s = Spec::new(&mut r, f);
    let (base, _) = solo(cx, &s, plan_of(&s));
    for m in &base.misuse {
        if m.contains("asked for") {
            cx.violation("over-ask", m.clone());
        }
    }
    let desc = cx.desc.clone();
    for k in 0..2 {
        let reads = read_plan(&mut r, base.inp.len());
        let mut p = plan_of(&s);
        p.reads = reads.clone();
        let (mut o, _) = solo(cx, &s, p);
        cx.describe(format!("{desc}; delivery {k}: {} steps", reads.len()));
        if base.inp != o.inp {
            cx.violation("delivery-changes-hello", "the ClientHello differs between deliveries with the same randomness".into());
            continue;
        }
        if let Some(d) = same(&base, &o) {
            cx.violation("delivery-changes-outcome", d);
        }
        for m in std::mem::take(&mut o.misuse) {
            if m.contains("asked for") {
                cx.violation("over-ask", m);
            }
        }
        let mut blocks = 0;
        for (i, e) in o.evs.iter().enumerate() {
            if let Ev::Read { got, .. } = e {
                if *got <= 0 {
                    blocks += 1;
                    match o.evs.get(i + 1) {
                        Some(Ev::Ret { ret: -1, err: WANT_READ, .. }) => (),
                        x => {
                            cx.violation("read-failure-report", format!("after a failed read came {x:?}"));
                            break;
                        },
                    }
                }
            }
        }
        cx.counts.entry("reads-failed".into()).and_modify(|x| *x += blocks).or_insert(blocks);
        *cx.counts.entry("events".into()).or_insert(0) += o.evs.len() as u64;
        cx.count(&format!("observed:{}", judge::got(&o).split(' ').take(2).collect::<Vec<_>>().join("-")));
        let id = format!("{desc}|{:?}", reads.iter().take(40).collect::<Vec<_>>());
        cx.eval(&id, blocks > 0 || reads.len() > 3);
        let d = format!("{desc}; {} read calls, {blocks} failed -> {}", o.evs.iter().filter(|e| matches!(e, Ev::Read { .. })).count(), judge::got(&o));
        cx.sample(|| d.chars().take(400).collect());
    }
}
/// One would-block at every byte position of a short flight.
fn t04_every(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut f = mixed_focus(&mut r);
    f.sizes = 0;
    let s = Spec::new(&mut r, f);
    let (base, _) = solo(cx, &s, plan_of(&s));
    let n = base.pos.min(1500);
    let desc = cx.desc.clone();
    let stride = (n / 120).max(1);
    let mut at = r.below(stride);
    while at < n {
        let mut p = plan_of(&s);
        // one byte at a time around the block, so that it falls exactly there
        p.reads = vec![Step::Give(1); at];
        p.reads.push(Step::Block(-1));
        let (o, _) = solo(cx, &s, p);
        cx.describe(format!("{desc}; blocked once at byte {at}"));
        if base.inp == o.inp {
            if let Some(d) = same(&base, &o) {
                cx.violation("delivery-changes-outcome", d);
            }
        }
        cx.eval(&format!("{desc}|{at}"), true);
        at += stride;
    }
    cx.count("swept flights");
}

// ---------------------------------------------------------------- T05
fn write_plan(r: &mut Rng, len: usize) -> Vec<Step> {
    let mut v = vec![];
    let style = r.below(6);
    let mut given = 0;
    while given < len + 10 && v.len() < 6000 {
        if r.chance(*[1usize, 0, 5, 8, 3, 2].get(style).unwrap(), 10) {
            for _ in 0..r.range(1, 2) {
                v.push(Step::Block(*r.pick(&[0, -1, -1, -11, isize::MIN])));
            }
        }
        let g = match style {
            1 | 2 => r.range(1, 3).max(len / 2000),
            4 => r.range(1, 5).max(len / 1000),
            5 => *r.pick(&[1usize, 4, 5, 6, 100, 16389, 20000]),
            _ => r.range(1, 300).max(len / 1000),
        };
        given += g.min(16389);
        v.push(Step::Give(g));
    }
    v
}
fn t05(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let f = mixed_focus(&mut r);
    let mut s = Spec::new(&mut r, f);
    if r.chance(1, 3) {
        s.cfg = t02_cfg(&mut r);
        s.cfg.groups = 1;
        s.cfg.sig_algs = 1;
        s.cfg.ciphers = *r.pick(&[1, 2, 3]);
    }
    let (base, _) = solo(cx, &s, plan_of(&s));
    let desc = cx.desc.clone();
    if let Some(h) = &base.hello {
        if h.msg.len() > 16384 {
            cx.count("hello:several-records");
        }
    }
    for k in 0..2 {
        let writes = write_plan(&mut r, base.out.len());
        let mut p = plan_of(&s);
        p.writes = writes.clone();
        if k == 1 {
            p.reads = read_plan(&mut r, base.inp.len());
        }
        let (o, _) = solo(cx, &s, p);
        cx.describe(format!("{desc}; acceptance {k}: {} steps", writes.len()));
        if let Some(d) = same(&base, &o) {
            cx.violation("acceptance-changes-stream", d);
        }
        let mut blocks = 0;
        for (i, e) in o.evs.iter().enumerate() {
            if let Ev::Write { took, .. } = e {
                if *took <= 0 {
                    blocks += 1;
                    match o.evs.get(i + 1) {
                        Some(Ev::Ret { ret: -1, err: WANT_WRITE, .. }) => (),
                        x => {
                            cx.violation("write-failure-report", format!("after a failed write came {x:?}"));
                            break;
                        },
                    }
                }
            }
        }
        *cx.counts.entry("writes-failed".into()).or_insert(0) += blocks;
        *cx.counts.entry("events".into()).or_insert(0) += o.evs.len() as u64;
        let id = format!("{desc}|{:?}", writes.iter().take(40).collect::<Vec<_>>());
        cx.eval(&id, blocks > 0 || writes.len() > 1);
        let d = format!("{desc}; {} write calls, {blocks} failed -> {}", o.evs.iter().filter(|e| matches!(e, Ev::Write { .. })).count(), judge::got(&o));
        cx.sample(|| d.chars().take(400).collect());
    }
}
/// One would-block at every byte of the hello.
fn t05_every(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let (base, _) = solo(cx, &s, plan_of(&s));
    let Some(h) = &base.hello else { return };
    let n = (h.msg.len() + 5).min(2000);
    let desc = cx.desc.clone();
    let stride = (n / 150).max(1);
    let mut at = r.below(stride);
    while at < n {
        let mut p = plan_of(&s);
        if at > 0 {
            p.writes.push(Step::Give(at));
        }
        p.writes.push(Step::Block(-1));
        if r.chance(1, 3) {
            p.writes.push(Step::Give(1));
            p.writes.push(Step::Block(0));
        }
        let (o, _) = solo(cx, &s, p);
        cx.describe(format!("{desc}; blocked at byte {at} of the hello"));
        if let Some(d) = same(&base, &o) {
            cx.violation("acceptance-changes-stream", d);
        }
        cx.eval(&format!("{desc}|{at}"), true);
        at += stride;
    }
    cx.count("swept hellos");
}

// ---------------------------------------------------------------- T06 .. T11, T15, T18
fn t06(cx: &mut Cx) {
    let f = Focus { point: if cx.idx % 3 == 0 { 100 } else { 0 }, ccs: 20, ..Focus::default() };
    judged(cx, f, &[Aspect::Outcome, Aspect::Alert]);
}
/// Real (not pooled) key pairs on both sides.
fn t06_keys(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut s = Spec::new(&mut r, Focus::default());
    if cx.idx % 16 == 5 && !gen::small() {
        // a hello of several records, or one around a record's limit
        let n = if r.chance(1, 2) { r.range(15_900, 16_600) } else { r.range(16_200, 65_000) };
        let mut v: Vec<u8> = (0..n / 100).flat_map(|i| [&[99u8][..], format!("{i:099}").as_bytes()].concat()).collect();
        if n % 100 > 1 {
            v.push((n % 100 - 1) as u8);
            v.extend(vec![b'x'; n % 100 - 1]);
        }
        s.cfg.alpn = Some(v);
        cx.count("large hellos");
    }
    let mut key = vec![];
    s.draws = match r.below(4) {
        3 if !gen::small() => {
            key = r.bytes(32);
            vec![Draw::Bytes(key.clone()), Draw::Bytes(r.bytes(32))]
        },
        0 => {
            let (b, _) = special_key(&mut r);
            if Nat::from_le(&b).rem(&p256::n_nat()).is_zero() || Nat::from_be(&b).rem(&p256::n_nat()).is_zero() {
                vec![]
            } else {
                vec![Draw::Bytes(b), Draw::Bytes(r.bytes(32))]
            }
        },
        _ => vec![],
    };
    let sk = {
        let v = if gen::small() { Nat::from_u64(r.u64() >> 50) } else { Nat::from_be(&r.biased_bytes(32)).rem(&p256::n_nat()) };
        if v.is_zero() {
            Nat::one()
        } else {
            v
        }
    };
    let mut pk = p256::mul_base(&sk);
    let fs = r.u64();
    let cfg = s.cfg.clone();
    let target = refc::special::point(r.below(refc::special::count()));
    cx.describe(format!("{}; server key {}", s.cfg.short(), refc::hex(&sk.to_be(32))));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let mut sh = gen::good_sh(&mut r, h, 0);
            let mut secret = None;
            if !key.is_empty() {
                // a share that makes the shared secret conspicuous
                let share = gen::client_share(h);
                for k in [Nat::from_le(&key), Nat::from_be(&key)] {
                    let k = k.rem(&p256::n_nat());
                    if p256::encode(&p256::mul_base(&k)) == share {
                        pk = p256::mul(&refc::ecdsa::inv_n(&k), &Some(target));
                        secret = Some(p256::fe_to_be(&target.0));
                    }
                }
            }
            for e in sh.exts.iter_mut() {
                if e.0 == 51 {
                    e.1 = gen::share_ext(23, &p256::encode(&pk));
                }
            }
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut out = tls::record(22, [3, 3], &m);
            let Some(secret) = secret.or_else(|| p256::decode(&gen::client_share(h)).and_then(|q| tls::ecdh(&sk, &q))) else { return out };
            let (_, mut k) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            out.extend(k.seal(22, &tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg))), 0));
            if r.chance(1, 2) {
                out.extend(k.seal(22, &tls::handshake(11, &gen::good_certs(&mut r).body()), 3));
            }
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else {
        cx.inconclusive.push(format!("no ClientHello: {:?}", o.hello_err));
        return;
    };
    report(cx, &[Aspect::Outcome, Aspect::Alert], &o, &v);
    tally(cx, &o, &v);
}
fn t07(cx: &mut Cx) {
    let f = match cx.rng.below(4) {
        0 => Focus { records: 100, ..Focus::default() },
        1 => Focus { wire: 100, ccs: 30, ..Focus::default() },
        2 => Focus { wire: 60, alert: 30, records: 30, ..Focus::default() },
        _ => Focus { wire: 100, order: 10, sizes: 3, ..Focus::default() },
    };
    judged(cx, f, &[Aspect::Outcome, Aspect::Code, Aspect::Proto]);
}
/// Every padding length and every bit of a protected record.
fn t07_sweep(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let mode = cx.idx % 2;
    let k = cx.idx as usize / 2;
    let fs = r.u64();
    let cfg = s.cfg.clone();
    cx.describe(format!("{}; {} {k}", s.cfg.short(), ["padding", "bit"][mode as usize]));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 5);
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut out = tls::record(22, [3, 3], &m);
            let secret = gen::dh_with(&gen::client_share(h), 5).unwrap_or([0; 32]);
            let (_, mut keys) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            let ee = tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg)));
            if mode == 0 {
                let pad = if k < 700 { k } else { r.below((1 << 14) - ee.len() + 1) };
                out.extend(keys.seal(22, &ee, pad));
                out.extend(keys.seal(22, &tls::handshake(11, &gen::good_certs(&mut r).body()), 0));
            } else {
                let mut x = keys.seal(22, &ee, 2);
                let bit = k % (x.len() * 8);
                x[bit / 8] ^= 1 << (bit % 8);
                out.extend(x);
                out.extend(keys.seal(22, &tls::handshake(11, &gen::good_certs(&mut r).body()), 0));
            }
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome, Aspect::Code, Aspect::Proto], &o, &v);
    tally(cx, &o, &v);
}
/// Long runs of records under one key: a Certificate message in one-byte records, with an old or
/// later record put in at a chosen distance.
fn t07_sequence(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    // The distances at which a counter of 8, 12, 15 or 16 bits starts again.
    let span = match cx.idx {
        0 | 1 => 0x10000,
        i if i % 8 == 2 => 0x8000,
        i if i % 4 == 1 => 0x1000,
        _ => 0x100,
    };
    let mode = if cx.idx < 2 { cx.idx as usize } else { r.below(4) };
    let at = span + r.below(40);
    let total = at + r.range(20, 60);
    let fs = r.u64();
    cx.describe(format!("{}; {total} one-byte records, {} at {at}", s.cfg.short(), ["none changed", "replay", "skip", "empty"][mode]));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 5);
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut out = tls::record(22, [3, 3], &m);
            let secret = gen::dh_with(&gen::client_share(h), 5).unwrap_or([0; 32]);
            let (_, mut keys) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            out.extend(keys.seal(22, &tls::handshake(8, &[0, 0]), 0));
            let mut msg = tls::handshake(11, &r.biased_bytes(total - 4));
            if mode == 0 && r.chance(2, 3) {
                // everything arrives but the end: nothing may fail yet
                msg.pop();
            }
            for (i, b) in msg.iter().enumerate() {
                if i == at && mode > 0 {
                    // what a counter that started again would take for the next record
                    let now = keys.seq;
                    keys.seq = match mode {
                        1 => now - span as u64,
                        2 => now + span as u64,
                        _ => 0,
                    };
                    out.extend(keys.seal(22, &[*b], 0));
                    keys.seq = now;
                }
                out.extend(keys.seal(22, &[*b], 0));
            }
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    *cx.counts.entry("records under one key".into()).or_insert(0) += at as u64;
    report(cx, &[Aspect::Outcome, Aspect::Code, Aspect::Proto], &o, &v);
    tally(cx, &o, &v);
}
fn t08(cx: &mut Cx) {
    let f = Focus { sh: 90, point: 5, ..Focus::default() };
    judged(cx, f, &[Aspect::Outcome]);
}
fn t09(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut s = Spec::new(&mut r, Focus { ee: 80, ..Focus::default() });
    if r.chance(1, 2) {
        s.cfg.alpn = Some(gen::alpn_list(&mut r));
    }
    if r.chance(1, 4) {
        // stop after the encrypted extensions, with the attempt still open
        s.focus.cut = 30;
    }
    let (o, _) = solo(cx, &s, plan_of(&s));
    let Some(v) = verdict(&s.cfg, &o) else {
        cx.inconclusive.push(format!("no ClientHello: {:?}", o.hello_err));
        return;
    };
    cx.count(match &v.proto {
        None => "protocol:unsettled",
        Some(p) if p.is_empty() => "protocol:none",
        Some(_) => "protocol:selected",
    });
    report(cx, &[Aspect::Outcome, Aspect::Proto], &o, &v);
    tally(cx, &o, &v);
}
/// The configuration changes, and its strings are freed, while the attempt is open: it concerns the
/// next attempt only.
fn reconfigured(cx: &mut Cx, focus: Focus, aspects: &[Aspect], judge_hello: bool) {
    let mut r = cx.rng.clone();
    let mut s = Spec::new(&mut r, focus);
    let mut other = gen::cfg(&mut r);
    if r.chance(1, 2) {
        s.cfg.alpn = Some(gen::alpn_list(&mut r));
    }
    match r.below(5) {
        0 => other = Cfg { alpn: other.alpn.clone(), ..s.cfg.clone() },
        1 => other = Cfg { sni: other.sni.clone(), ..s.cfg.clone() },
        2 => other = Cfg { ciphers: *r.pick(&[0, 1, 2, 3]), ..s.cfg.clone() },
        3 => other = Cfg { groups: *r.pick(&[0, 2]), sig_algs: *r.pick(&[0, 1]), ..s.cfg.clone() },
        _ => (),
    }
    // the server may go by either
    let answers = if r.chance(1, 2) { s.cfg.clone() } else { other.clone() };
    let keep: Shared = Rc::new(RefCell::new(None));
    let d = format!("{}; later {}; flight seed {:#x}", s.cfg.short(), other.short(), s.fseed);
    cx.describe(d.clone());
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let mut plan = plan_of(&s);
    if r.chance(1, 3) {
        plan.writes = vec![Step::Give(r.range(1, 200)), Step::Block(-1), Step::Give(r.range(1, 200)), Step::Block(0)];
    }
    plan.reads = vec![Step::Block(-1)];
    for _ in 0..r.below(6) {
        plan.reads.push(if r.chance(1, 2) { Step::Give(r.range(1, 200)) } else { Step::Block(-1) });
    }
    let at = r.range(1, 3);
    let f = flight_of(&Spec { cfg: answers, ..s.clone() }, keep.clone());
    let mut changed = false;
    // only the hello concerns T02
    let f = (!judge_hello).then_some(f);
    let o = attempt_with(&mut c, plan, f, &mut |c, n| {
        if n == at {
            c.configure(&other);
            changed = true;
        }
    });
    c.free();
    if let Some(b) = keep.borrow().as_ref() {
        let d = format!("{d}; {}", b.desc);
        cx.describe(d);
    }
    cx.count(if changed { "configuration:changed" } else { "configuration:kept" });
    if judge_hello {
        if let Err((sig, d)) = check_hello(&s.cfg, &o.out) {
            cx.violation(&format!("reconfigured-hello-{sig}"), format!("{d}; first bytes {}", refc::hex(&o.out[..o.out.len().min(120)])));
        }
        cx.eval(&d, changed);
        return;
    }
    let Some(v) = verdict(&s.cfg, &o) else {
        cx.inconclusive.push(format!("no ClientHello: {:?}, {}", o.hello_err, judge::got(&o)));
        return;
    };
    report(cx, aspects, &o, &v);
    tally(cx, &o, &v);
}
fn t02_reconfigured(cx: &mut Cx) {
    reconfigured(cx, Focus::default(), &[], true);
}
fn t08_reconfigured(cx: &mut Cx) {
    reconfigured(cx, Focus { sh: 30, ..Focus::default() }, &[Aspect::Outcome], false);
}
fn t09_reconfigured(cx: &mut Cx) {
    reconfigured(cx, Focus { ee: 30, cut: 10, ..Focus::default() }, &[Aspect::Outcome, Aspect::Proto], false);
}
/// Consecutive attempts on one object with different selections.
fn t09_reuse(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut c = Conn::new();
    for k in 0..r.range(2, 4) {
        let f = Focus { ee: *r.pick(&[0, 0, 50]), cut: *r.pick(&[0, 0, 40]), ..Focus::default() };
        let mut s = Spec::new(&mut r, f);
        if r.chance(3, 4) {
            s.cfg.alpn = Some(gen::alpn_list(&mut r));
        }
        let keep: Shared = Rc::new(RefCell::new(None));
        c.configure(&s.cfg);
        cx.describe(format!("attempt {k}: {}; flight seed {:#x}", s.cfg.short(), s.fseed));
        let o = attempt(&mut c, plan_of(&s), Some(flight_of(&s, keep.clone())));
        if let Some(b) = keep.borrow().as_ref() {
            let d = format!("attempt {k}: {}; {}", s.cfg.short(), b.desc);
            cx.describe(d);
        }
        let Some(v) = verdict(&s.cfg, &o) else {
            cx.inconclusive.push(format!("no ClientHello: {:?}", o.hello_err));
            break;
        };
        report(cx, &[Aspect::Outcome, Aspect::Proto], &o, &v);
        tally(cx, &o, &v);
        c.close();
    }
    c.free();
}
fn t10(cx: &mut Cx) {
    let f = match cx.rng.below(4) {
        0 => Focus { order: 100, ..Focus::default() },
        1 => Focus { ccs: 100, order: 20, ..Focus::default() },
        2 => Focus { records: 60, order: 40, ccs: 30, ..Focus::default() },
        _ => Focus { order: 80, sizes: 4, cut: 20, ..Focus::default() },
    };
    judged(cx, f, &[Aspect::Outcome]);
}
/// Many compatibility records in a row, everywhere they may appear, ending in a legal or illegal one.
fn t10_floods(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let i = cx.idx as usize;
    let n = [1usize, 2, 3, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 5000, 70_000][(i / 6) % 16];
    let at = i % 6;
    let odd = r.chance(1, 3);
    let fs = r.u64();
    let cfg = s.cfg.clone();
    cx.describe(format!("{}; {n} change_cipher_spec records at place {at}, the last one {}", s.cfg.short(), if odd { "illegal" } else { "legal" }));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 6);
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut flood = tls::record(20, [3, 3], &[1]).repeat(n);
            if odd {
                flood.pop();
                flood.push(2);
            }
            let mut out = vec![];
            let mut put = |out: &mut Vec<u8>, p: usize| {
                if at == p {
                    out.extend(&flood)
                }
            };
            put(&mut out, 0);
            if at == 1 {
                out.extend(tls::record(22, [3, 3], &m[..7]));
                put(&mut out, 1);
                out.extend(tls::record(22, [3, 3], &m[7..]));
            } else {
                out.extend(tls::record(22, [3, 3], &m));
            }
            put(&mut out, 2);
            let secret = gen::dh_with(&gen::client_share(h), 6).unwrap_or([0; 32]);
            let (_, mut k) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            let ee = tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg)));
            let cut = if at == 3 { 1 + r.below(ee.len() - 1) } else { ee.len() };
            out.extend(k.seal(22, &ee[..cut], 0));
            if cut < ee.len() {
                put(&mut out, 3);
                out.extend(k.seal(22, &ee[cut..], 0));
            }
            put(&mut out, 4);
            let ce = tls::handshake(11, &gen::good_certs(&mut r).body());
            if at == 5 {
                out.extend(k.seal(22, &ce[..3], 0));
                put(&mut out, 5);
                out.extend(k.seal(22, &ce[3..], 0));
            } else {
                out.extend(k.seal(22, &ce, 0));
            }
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome], &o, &v);
    tally(cx, &o, &v);
}
/// Every message type, as the first byte of a message and as a record type, at every step.
fn t10_types(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let i = cx.idx as usize;
    let ty = (i % 256) as u8;
    let at = (i / 256) % 3;
    let what = (i / 768) % 2;
    let fs = r.u64();
    let cfg = s.cfg.clone();
    cx.describe(format!("{}; {} type {ty} at step {at}", s.cfg.short(), ["message", "record"][what]));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 6);
            let good = tls::handshake(2, &sh.body());
            let mut m = good.clone();
            let mut rt = 22;
            if at == 0 {
                if what == 0 {
                    m[0] = ty;
                } else {
                    rt = ty;
                }
            }
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut out = tls::record(rt, [3, 3], &m);
            let secret = gen::dh_with(&gen::client_share(h), 6).unwrap_or([0; 32]);
            let (_, mut k) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            let msgs = [tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg))), tls::handshake(11, &gen::good_certs(&mut r).body())];
            for (j, m) in msgs.iter().enumerate() {
                let mut m = m.clone();
                let mut rt = 22;
                if at == j + 1 {
                    if what == 0 {
                        m[0] = ty;
                    } else {
                        rt = ty;
                    }
                }
                out.extend(k.seal(rt, &m, 0));
            }
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome], &o, &v);
    tally(cx, &o, &v);
}
fn t11(cx: &mut Cx) {
    let f = Focus { alert: 100, ccs: 20, sizes: 2, order: 5, ..Focus::default() };
    judged(cx, f, &[Aspect::Outcome, Aspect::PeerCode, Aspect::Close, Aspect::Io]);
}
/// Every alert code and level at every step.
fn t11_codes(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let i = cx.idx as usize;
    let code = (i % 256) as u8;
    let at = (i / 256) % 4;
    let level = [2, 1, 0, 255][(i / 1024) % 4];
    let fs = r.u64();
    let cfg = s.cfg.clone();
    cx.describe(format!("{}; alert {level}/{code} at step {at}", s.cfg.short()));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 7);
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let mut out = vec![];
            if at == 0 {
                out.extend(tls::record(21, [3, 3], &[level, code]));
            }
            out.extend(tls::record(22, [3, 3], &m));
            let secret = gen::dh_with(&gen::client_share(h), 7).unwrap_or([0; 32]);
            let (_, mut k) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            if at == 1 {
                out.extend(k.seal(21, &[level, code], r.below(4)));
            }
            out.extend(k.seal(22, &tls::handshake(8, &gen::ee_body(&gen::good_ee(&mut r, &cfg))), 0));
            if at == 2 {
                out.extend(k.seal(21, &[level, code], r.below(4)));
            }
            if at == 3 {
                // in answer to a certificate split over records: between messages only
                out.extend(tls::record(20, [3, 3], &[1]));
                out.extend(k.seal(21, &[level, code], 300));
            }
            out.extend(k.seal(22, &tls::handshake(11, &gen::good_certs(&mut r).body()), 0));
            out
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome, Aspect::PeerCode, Aspect::Close, Aspect::Io], &o, &v);
    tally(cx, &o, &v);
}
fn t15(cx: &mut Cx) {
    let f = Focus { cert: if cx.idx % 3 == 0 { 0 } else { 100 }, sizes: 2, ..Focus::default() };
    judged(cx, f, &[Aspect::Outcome, Aspect::Code]);
}
fn t18(cx: &mut Cx) {
    let f = match cx.rng.below(4) {
        0 | 1 => Focus { sizes: 100, ..Focus::default() },
        2 => Focus { records: 100, sizes: 10, ..Focus::default() },
        _ => Focus { sizes: 60, cut: 60, ..Focus::default() },
    };
    judged(cx, f, &[Aspect::Outcome, Aspect::Code]);
}
/// Record lengths around the limits, whole and header only.
fn t18_records(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let s = Spec::new(&mut r, Focus::default());
    let lens = [
        0usize, 1, 2, 3, 4, 16, 17, 18, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4002, 0x40ff, 0x4100, 0x4101, 0x4102, 0x5000, 0x7fff, 0x8000, 0xfffe, 0xffff,
    ];
    let i = cx.idx as usize;
    let n = if i < lens.len() * 8 { lens[i % lens.len()] } else { *r.pick(&[r.clone().below(0x10000), 0x4000 + r.clone().below(0x110)]) };
    let mode = if i < lens.len() * 8 { i / lens.len() } else { r.below(8) };
    let fs = r.u64();
    cx.describe(format!("{}; record of {n:#x} bytes, mode {mode}", s.cfg.short()));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    let o = attempt(
        &mut c,
        plan_of(&s),
        Some(Box::new(move |h| {
            let mut r = Rng::new(fs);
            let sh = gen::good_sh(&mut r, h, 8);
            let m = tls::handshake(2, &sh.body());
            let mut tr = h.msg.clone();
            tr.extend(&m);
            let secret = gen::dh_with(&gen::client_share(h), 8).unwrap_or([0; 32]);
            let (_, mut k) = tls::handshake_keys(tls::Suite::from_code(sh.cipher).unwrap(), &secret, &tr);
            let hdr = |t: u8| vec![t, 3, 3, (n >> 8) as u8, n as u8];
            match mode {
                // plaintext: part of a long first message, whole record / header only
                0 | 1 => {
                    let mut o = hdr(22);
                    let mut b = vec![0u8; n];
                    for (x, y) in b.iter_mut().zip([2, 0, 0xff, 0xff]) {
                        *x = y;
                    }
                    if mode == 0 {
                        o.extend(b);
                    }
                    o
                },
                // the same with an alert type
                2 => {
                    let mut o = hdr(21);
                    o.extend(vec![2; n]);
                    o
                },
                // protected: header only, garbage, and correctly sealed with this record length
                3 => {
                    let mut o = tls::record(22, [3, 3], &m);
                    o.extend(hdr(23));
                    o
                },
                4 => {
                    let mut o = tls::record(22, [3, 3], &m);
                    o.extend(hdr(23));
                    o.extend(vec![7; n]);
                    o
                },
                _ => {
                    let mut o = tls::record(22, [3, 3], &m);
                    if n < 17 {
                        o.extend(hdr(23));
                        o.extend(vec![7; n]);
                        return o;
                    }
                    let inner = n - 16;
                    // mode 5: all content; 6: small content, rest padding; 7: an alert, rest padding
                    let content = match mode {
                        5 => inner - 1,
                        6 => (inner - 1).min(4),
                        _ => (inner - 1).min(2),
                    };
                    let mut b = vec![0x1d; content];
                    for (x, y) in b.iter_mut().zip([8, 0, 0x70, 0]) {
                        *x = y;
                    }
                    let t = if mode == 7 { 21 } else { 22 };
                    if mode == 7 && content == 2 {
                        b = vec![2, 40];
                    }
                    o.extend(k.seal(t, &b, inner - 1 - content));
                    o
                },
            }
        })),
    );
    c.free();
    let Some(v) = verdict(&s.cfg, &o) else { return };
    report(cx, &[Aspect::Outcome, Aspect::Code], &o, &v);
    tally(cx, &o, &v);
}

// ---------------------------------------------------------------- T12
/// Failing attempts of every kind, with partial and failing writes of the alert.
fn t12(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let f = mixed_focus(&mut r);
    let s = Spec::new(&mut r, f);
    let (o, _) = solo(cx, &s, plan_of(&s));
    let Some(v) = verdict(&s.cfg, &o) else {
        cx.inconclusive.push(format!("no ClientHello: {:?}", o.hello_err));
        return;
    };
    report(cx, &[Aspect::Alert, Aspect::Close, Aspect::Io], &o, &v);
    tally(cx, &o, &v);
    if (o.ret, o.err) != (-1, TLS) {
        return;
    }
    // the alert's delivery fails part-way: a prefix of the same bytes, closed once, then silence
    let Some(h) = &o.hello else { return };
    let _ = h;
    let hello_len = o.out.len() - judge::after_hello(&o.out).map_or(0, |x| x.len());
    let alert_len = o.out.len() - hello_len;
    let cut = r.below(alert_len + 1);
    let mut p = plan_of(&s);
    p.writes = vec![Step::Give(hello_len); 1 + hello_len / 16389];
    let steps = *[1usize, 3].get(r.below(2)).unwrap();
    if cut > 0 {
        p.writes.push(Step::Give(cut.div_ceil(steps)));
    }
    for _ in 0..50 {
        p.writes.push(Step::Block(-1));
    }
    let desc = cx.desc.clone();
    let keep: Shared = Rc::new(RefCell::new(None));
    let mut c = Conn::new();
    c.configure(&s.cfg);
    c.tp.free_blocks = true;
    let o2 = attempt(&mut c, p, Some(flight_of(&s, keep)));
    cx.describe(format!("{desc}; alert delivery fails after {cut} bytes"));
    if (o2.ret, o2.err, o2.alert) != (o.ret, o.err, o.alert) {
        cx.violation("alert-delivery-changes-report", format!("{} instead of {}", judge::got(&o2), judge::got(&o)));
    }
    if !o.out.starts_with(&o2.out) {
        cx.violation("framing", format!("{} bytes sent that are no prefix of the undisturbed stream", o2.out.len()));
    }
    let closes = |o: &Obs| o.evs.iter().filter(|e| **e == Ev::Close).count();
    if closes(&o2) != 1 {
        cx.violation("close-count-blocked", format!("close callback called {} times", closes(&o2)));
    }
    // nothing more happens afterwards
    let before = c.tp.evs.len();
    c.tp.wplan.clear();
    c.close();
    c.close();
    if c.tp.evs[before..].iter().any(|e| !matches!(e, Ev::CloseCall | Ev::Ret { .. })) {
        cx.violation("close-after-failure", format!("closing a failed connection did {:?}", &c.tp.evs[before..]));
    }
    c.free();
    cx.count("alerts blocked");
    cx.eval(&format!("{desc}|{cut}"), true);
}
/// Closing at every point.
fn t12_close(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let f = if r.chance(1, 2) { Focus::default() } else { mixed_focus(&mut r) };
    let mut s = Spec::new(&mut r, f);
    if cx.idx % 8 == 7 && !gen::small() {
        // a hello of several records
        let n = r.range(16_200, 40_000);
        s.cfg.alpn = Some((0..n / 100).flat_map(|i| [&[99u8][..], format!("{i:099}").as_bytes()].concat()).collect());
    }
    let (full, b) = solo(cx, &s, plan_of(&s));
    let Some(h) = full.hello.clone() else { return };
    let hello_out = {
        let rest = judge::after_hello(&full.out).map_or(0, |x| x.len());
        full.out[..full.out.len() - rest].to_vec()
    };
    let desc = cx.desc.clone();
    let _ = (h, b);
    for _ in 0..4 {
        let mut c = Conn::new();
        c.configure(&s.cfg);
        let keep: Shared = Rc::new(RefCell::new(None));
        let mut p = plan_of(&s);
        let mode = r.below(8);
        let what;
        match mode {
            0 => {
                what = match r.below(6) {
                    0 => {
                        p.draws = vec![Draw::Fail];
                        "refused: generator fails"
                    },
                    1 => {
                        p.draws = vec![Draw::Bytes(r.bytes(32)), Draw::Fail];
                        "refused: generator fails later"
                    },
                    2 => {
                        p.draws = vec![Draw::Bytes(vec![0; 32]); 8];
                        "refused: unusable keys"
                    },
                    3 => {
                        let cfg = Cfg { groups: 0, ..s.cfg.clone() };
                        c.configure(&cfg);
                        "refused: no group"
                    },
                    _ => "unused",
                }
                .to_string();
            },
            1 | 2 => {
                let mut ends = vec![];
                let mut end = 0;
                for x in tls::split_records(&hello_out).0 {
                    end += x.len();
                    ends.push(end);
                }
                ends.pop();
                let at = if !ends.is_empty() && r.chance(2, 3) { *r.pick(&ends) } else { r.below(hello_out.len()) };
                let mut from = 0;
                for to in ends.iter().copied().filter(|e| *e < at).chain([at]) {
                    if to > from {
                        p.writes.push(Step::Give(to - from));
                    }
                    from = to;
                }
                if ends.contains(&at) {
                    cx.count("closed:between-records");
                }
                p.writes.extend(vec![Step::Block(-1); 3]);
                p.max_connects = 1;
                what = format!("hello blocked at {at}");
            },
            _ => {
                let at = match r.below(4) {
                    0 => 0,
                    1 => full.pos,
                    _ => r.below(full.pos + 1),
                };
                p.reads = vec![];
                let mut left = at;
                // deliver `at` bytes, then block
                while left > 0 {
                    let g = r.range(1, 700).min(left).max(left / 200);
                    p.reads.push(Step::Give(g));
                    left -= g;
                }
                // reads never cross record parts, so more steps than needed may be left: bound by position
                c.tp.stop_at = Some(at);
                what = format!("input stopped at {at}");
            },
        }
        cx.describe(format!("{desc}; {what}; then close"));
        let o = if what.starts_with("refused") {
            let o = attempt(&mut c, p, None);
            if !matches!(o.err, RNG | KEY_ZERO | MISSING) {
                cx.inconclusive.push(format!("{what}, but {}", judge::got(&o)));
                c.free();
                continue;
            }
            o
        } else if mode == 0 {
            c.tp.reset(None, vec![], vec![]);
            getrandom::install(1, vec![]);
            Obs { ret: -1, err: WANT_READ, ..Default::default() }
        } else {
            c.tp.keep_stop = true;
            attempt(&mut c, p, Some(flight_of(&s, keep.clone())))
        };
        let open = mode != 0 && (o.err == WANT_READ || o.err == WANT_WRITE) && o.ret == -1;
        c.tp.stop_at = None;
        c.tp.wplan.clear();
        let n0 = c.tp.evs.len();
        let out0 = c.tp.out.clone();
        // the notice itself may be cut off
        let blocked = r.chance(1, 4);
        if blocked {
            let k = r.below(8);
            let mut w = vec![];
            if k > 0 {
                w.push(Step::Give(k));
            }
            w.extend(vec![Step::Block(-1); 20]);
            c.tp.set_writes(w);
            c.tp.free_blocks = true;
        } else {
            c.tp.set_writes(vec![]);
        }
        c.close();
        let evs: Vec<Ev> = c.tp.evs[n0..].to_vec();
        let sent = c.tp.out[out0.len()..].to_vec();
        let closes = evs.iter().filter(|e| **e == Ev::Close).count();
        cx.eval(&format!("{desc}|{what}|{blocked}"), true);
        cx.count(if open { "closed:open" } else if what == "unused" { "closed:unused" } else if mode == 0 { "closed:refused" } else { "closed:failed" });
        if evs.iter().any(|e| matches!(e, Ev::Read { .. })) {
            cx.violation("close-reads", "closing read from the transport".into());
        }
        if let Some(i) = evs.iter().position(|e| *e == Ev::Close) {
            if evs[i + 1..].iter().any(|e| matches!(e, Ev::Write { .. })) {
                cx.violation("close-then-write", "closing wrote after the close callback".into());
            }
        }
        if !open {
            if !sent.is_empty() || closes > 0 {
                cx.violation("close-of-closed", format!("closing a connection that is not open sent {} bytes and closed {closes} times", sent.len()));
            }
        } else {
            if closes != 1 {
                cx.violation("close-count", format!("closing called the close callback {closes} times"));
            }
            let all = c.tp.out.clone();
            let keys = o.hello.as_ref().and_then(|_| verdict_upto(&s.cfg, &o, o.pos)).and_then(|v| v.keys);
            if !hello_out.starts_with(&out0) && !out0.starts_with(&hello_out) {
                cx.violation("stream-differs", "the bytes sent are not those of an undisturbed attempt".into());
            } else if out0.len() < hello_out.len() && !out0.is_empty() && tls::split_records(&out0).1 != b"" {
                // a record is partly out: nothing, or its completion first
                let ok = sent.is_empty() || hello_out.starts_with(&all) || all.starts_with(&hello_out) && notice(&all[hello_out.len()..], None, blocked).is_ok();
                cx.count("closed:partial-record");
                if !ok {
                    cx.violation("framing", format!("{} bytes written into a record that was partly sent: {}", sent.len(), refc::hex(&sent)));
                }
            } else {
                cx.count(if keys.is_some() { "notice:protected" } else { "notice:plain" });
                if let Err(e) = notice(&sent, keys.as_ref().map(|k| &k.0), blocked) {
                    cx.violation("close-notice", format!("{e}; keys exist: {}", keys.is_some()));
                }
            }
        }
        // closing again does nothing
        let n1 = c.tp.evs.len();
        c.tp.set_writes(vec![]);
        c.close();
        if c.tp.evs[n1..].iter().any(|e| !matches!(e, Ev::CloseCall | Ev::Ret { .. })) {
            cx.violation("close-twice", format!("closing again did {:?}", &c.tp.evs[n1..]));
        }
        c.free();
    }
}
/// Whether bytes are one close-notify under the expected protection (or a prefix when blocked).
fn notice(b: &[u8], key: Option<&tls::Keys>, blocked: bool) -> Result<(), String> {
    if blocked {
        let whole = if key.is_some() { 5 + 2 + 1 + 16 } else { 7 };
        if b.len() < whole {
            if !b.is_empty() && b[0] != if key.is_some() { 23 } else { 21 } {
                return Err(format!("prefix {}", refc::hex(b)));
            }
            return Ok(());
        }
    }
    let (recs, tail) = tls::split_records(b);
    if recs.len() != 1 || !tail.is_empty() {
        return Err(format!("closing sent {} records and {} more bytes", recs.len(), tail.len()));
    }
    let (prot, level, code) = judge::read_alert(recs[0], key)?;
    if prot != key.is_some() {
        return Err(format!("closing alert protected: {prot}"));
    }
    if code != 0 || level == 0 || level > 2 {
        return Err(format!("closing sent alert {level}/{code}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- T13
/// Drives one earlier attempt on `c` to some point.
fn disturb(cx: &mut Cx, r: &mut Rng, c: &mut Conn<'static>) -> String {
    let mut f = if r.chance(1, 3) { Focus::default() } else { mixed_focus(r) };
    if gen::small() {
        f.sizes = 0;
    }
    let mut s = Spec::new(r, f);
    if r.chance(1, 6) {
        s.draws = match r.below(4) {
            0 => vec![Draw::Fail],
            1 => vec![Draw::Bytes(vec![0; 32]); 8],
            _ => vec![Draw::Bytes(r.bytes(32)), Draw::Fail],
        };
    }
    if r.chance(1, 12) {
        s.cfg.groups = 0;
    }
    let mut p = plan_of(&s);
    let mut what = String::from("whole");
    match r.below(6) {
        0 => {
            let at = r.below(200);
            if at > 0 {
                p.writes.push(Step::Give(at));
            }
            p.writes.extend(vec![Step::Block(-1); 4]);
            p.max_connects = 1;
            what = format!("output stopped at {at}");
        },
        1..=3 => {
            let at = r.below(1500);
            c.tp.stop_at = Some(at);
            c.tp.keep_stop = true;
            what = format!("input stopped at {at}");
        },
        4 => {
            p.reads = read_plan(r, 500);
            p.max_connects = r.range(1, 20);
        },
        _ => (),
    }
    c.configure(&s.cfg);
    let keep: Shared = Rc::new(RefCell::new(None));
    let o = attempt(c, p, Some(flight_of(&s, keep.clone())));
    c.tp.stop_at = None;
    c.tp.keep_stop = false;
    let open = o.ret == -1 && (o.err == WANT_READ || o.err == WANT_WRITE);
    let d = format!("{} {what} -> {}", keep.borrow().as_ref().map_or(String::new(), |b| b.desc.clone()), judge::got(&o));
    cx.count(&format!("earlier:{}", judge::got(&o).split(' ').take(2).collect::<Vec<_>>().join("-")));
    if open || r.chance(1, 2) {
        if r.chance(1, 5) {
            // the closing notice cannot be delivered
            c.tp.set_writes(vec![Step::Give(r.range(1, 6)), Step::Block(-1), Step::Block(-1), Step::Block(-1)]);
            c.tp.free_blocks = true;
        } else {
            c.tp.set_writes(vec![]);
        }
        c.close();
        c.tp.free_blocks = false;
    }
    c.forget_names();
    d
}
fn t13(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut c: Conn<'static> = Conn::new();
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut before = vec![];
    for _ in 0..n {
        let d = disturb(cx, &mut r, &mut c);
        before.push(d);
    }
    let f = if r.chance(1, 2) { Focus::default() } else { mixed_focus(&mut r) };
    let s = Spec::new(&mut r, f);
    let (fresh, b) = solo(cx, &s, plan_of(&s));
    let d = format!("earlier attempts: {}; then {}", before.join(" | "), cx.desc);
    cx.describe(d);
    let keep: Shared = Rc::new(RefCell::new(None));
    c.configure(&s.cfg);
    let writes = if r.chance(1, 4) { write_plan(&mut r, 300) } else { vec![] };
    let mut p = plan_of(&s);
    p.writes = writes;
    let o = attempt(&mut c, p, Some(flight_of(&s, keep)));
    c.free();
    let _ = b;
    if let Some(d) = same(&fresh, &o) {
        cx.violation("reuse-differs", format!("{d} (fresh object against reused one)"));
    } else if fresh.inp != o.inp {
        cx.violation("reuse-differs", "the ClientHello differs from a fresh object's".into());
    }
    cx.count(&format!("observed:{}", judge::got(&o).split(' ').take(2).collect::<Vec<_>>().join("-")));
    let id = cx.desc.clone();
    cx.eval(&id, true);
    let d = format!("{} -> {}", cx.desc, judge::got(&o));
    cx.sample(|| d.chars().take(500).collect());
}

// ---------------------------------------------------------------- T17
/// Several connections advanced in turns on one thread.
fn t17(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let n = r.range(2, 5);
    let mut specs = vec![];
    let mut alone = vec![];
    for _ in 0..n {
        let f = if r.chance(1, 2) { Focus::default() } else { mixed_focus(&mut r) };
        let mut s = Spec::new(&mut r, f);
        s.draws = vec![Draw::Bytes(r.bytes(32)), Draw::Bytes(r.bytes(32))];
        let (o, _) = solo(cx, &s, plan_of(&s));
        alone.push(o);
        specs.push(s);
    }
    let mut cs: Vec<Conn<'static>> = vec![];
    let mut last = vec![(0, 0, 0); n];
    let mut over = vec![false; n];
    for s in &specs {
        let mut c = Conn::new();
        c.configure(&s.cfg);
        let keep: Shared = Rc::new(RefCell::new(None));
        let plan = read_plan(&mut r, 800);
        c.tp.reset(Some(flight_of(s, keep)), plan, vec![]);
        cs.push(c);
    }
    let mut started = vec![false; n];
    let mut turns = 0;
    while over.iter().any(|o| !o) && turns < 200_000 {
        turns += 1;
        let i = r.below(n);
        if over[i] {
            continue;
        }
        // each connection's randomness is its own
        if !started[i] {
            started[i] = true;
            getrandom::install(specs[i].seed, specs[i].draws.clone());
        }
        let c = &mut cs[i];
        last[i] = c.connect();
        let t = &c.tp;
        if last[i].0 != -1 || (last[i].1 != WANT_READ && last[i].1 != WANT_WRITE) || (t.done_reading() && last[i].1 == WANT_READ) {
            over[i] = true;
        }
    }
    for (i, c) in cs.iter_mut().enumerate() {
        let o = observe(c, last[i], 0);
        cx.describe(format!("connection {i} of {n} interleaved; {}; flight seed {:#x}", specs[i].cfg.short(), specs[i].fseed));
        if let Some(d) = same(&alone[i], &o) {
            cx.violation("interleaving-differs", format!("{d} (alone against interleaved)"));
        }
        let id = format!("{}|{}|{}", cx.idx, i, judge::got(&o));
        cx.eval(&id, true);
        cx.count(&format!("observed:{}", judge::got(&o).split(' ').take(2).collect::<Vec<_>>().join("-")));
    }
    *cx.counts.entry("turns".into()).or_insert(0) += turns;
    let d = format!("{n} connections, {turns} turns");
    cx.sample(|| d);
}
/// Connections on several threads at once.
fn t17_threads(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let n = if gen::small() { 2 } else { 4 };
    let per = if gen::small() { 1 } else { 4 };
    let mut specs: Vec<Vec<Spec>> = vec![];
    for _ in 0..n {
        let v = (0..per)
            .map(|_| {
                let f = mixed_focus(&mut r);
                Spec::new(&mut r, f)
            })
            .collect();
        specs.push(v);
    }
    let run = |s: &Spec| {
        let mut c = Conn::new();
        c.configure(&s.cfg);
        let keep: Shared = Rc::new(RefCell::new(None));
        let o = attempt(&mut c, plan_of(s), Some(flight_of(s, keep)));
        c.close();
        c.free();
        o
    };
    let alone: Vec<Vec<Obs>> = specs.iter().map(|v| v.iter().map(run).collect()).collect();
    let barrier = std::sync::Barrier::new(n);
    let got: Vec<Vec<Obs>> = std::thread::scope(|sc| {
        let hs: Vec<_> = specs
            .iter()
            .map(|v| {
                let b = &barrier;
                let run = &run;
                sc.spawn(move || {
                    b.wait();
                    v.iter().map(run).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("connection thread")).collect()
    });
    for i in 0..n {
        for k in 0..per {
            cx.describe(format!("thread {i} connection {k}; {}; flight seed {:#x}", specs[i][k].cfg.short(), specs[i][k].fseed));
            if let Some(d) = same(&alone[i][k], &got[i][k]) {
                cx.violation("threads-differ", format!("{d} (alone against parallel)"));
            }
            let id = format!("{}|{i}|{k}", cx.idx);
            cx.eval(&id, true);
        }
    }
    cx.count("parallel rounds");
}

// ---------------------------------------------------------------- T14
/// Random histories of API calls over several connections.
fn t14(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let live0 = crate::heap::live();
    let mut cs: Vec<Option<Conn<'static>>> = vec![];
    let steps = r.range(3, 14);
    // interpreted attempts are slow
    let mut left = if gen::small() { 2 } else { 1000 };
    let mut hist = vec![];
    for _ in 0..steps {
        let i = r.below(3);
        while cs.len() <= i {
            cs.push(None);
        }
        if cs[i].is_none() {
            cs[i] = Some(Conn::new());
            hist.push(format!("new {i}"));
            cx.count("call:new");
            continue;
        }
        let c = cs[i].as_mut().unwrap();
        match r.below(10) {
            0 => {
                c.close();
                hist.push(format!("close {i}"));
                cx.count("call:close");
            },
            1 => {
                cs[i].take().unwrap().free();
                hist.push(format!("free {i}"));
                cx.count("call:free");
            },
            2 => {
                // tolerated null pointers
                unsafe {
                    turtls::turtls_free(std::ptr::null_mut());
                    turtls::turtls_close(std::ptr::null_mut());
                    if !turtls::turtls_app_proto(std::ptr::null()).is_null() {
                        cx.violation("null-proto", "a protocol was reported for a null connection".into());
                    }
                }
                hist.push("nulls".into());
                cx.count("call:null");
            },
            3 => {
                let _ = (c.err(), c.alert());
                if c.proto().is_none() {
                    cx.violation("proto-unterminated", "the protocol name is not terminated".into());
                }
                cx.count("call:accessors");
            },
            4 => {
                // strings are only needed during attempts
                c.forget_names();
                c.configure(&gen::cfg(&mut r));
                c.forget_names();
                hist.push(format!("configure {i}, strings freed"));
                // configure again so that the next attempt is valid
                let g = gen::cfg(&mut r);
                c.configure(&g);
                cx.count("call:config");
            },
            _ if left == 0 => (),
            _ => {
                left -= 1;
                let d = disturb(cx, &mut r, c);
                hist.push(format!("attempt {i}: {d}"));
                cx.count("call:attempt");
                for m in std::mem::take(&mut c.tp.misuse) {
                    if m.contains("zero") || m.contains("context") {
                        cx.violation("callback-arguments", m);
                    }
                }
                c.forget_names();
                if r.chance(1, 2) {
                    c.close();
                }
            },
        }
        cx.describe(hist.join("; "));
    }
    for c in cs.iter_mut() {
        if let Some(c) = c.take() {
            c.free();
            cx.count("call:free");
        }
    }
    drop(cs);
    let live1 = crate::heap::live();
    if live1 != live0 {
        cx.violation("leak", format!("{} allocations made by the library ({} bytes) remain after freeing every connection", live1.0 - live0.0, live1.1 - live0.1));
    }
    let (a, b) = crate::heap::total();
    *cx.counts.entry("library allocations observed".into()).or_insert(0) = a as u64;
    let _ = b;
    let id = hist.join("; ");
    cx.eval(&id, true);
    cx.sample(|| id.chars().take(400).collect());
}

pub fn workloads(prop: &str) -> Vec<Wl> {
    let w = |name, case, quick, thorough| Wl { name, case, quick, thorough };
    match prop {
        "T01" => vec![w("flights", t01, 7_000, 600_000), w("bytes", t01_bytes, 4_000, 400_000)],
        "T02" => vec![w("config", t02, 6_000, 150_000), w("bits", t02_bits, 1024, 1024), w("lengths", t02_lengths, 2160, 10_800), w("reconfigured", t02_reconfigured, 600, 30_000)],
        "T03" => vec![w("draws", t03, 3_000, 80_000)],
        "T04" => vec![w("delivery", t04, 3_000, 150_000), w("every-byte", t04_every, 20, 2_000)],
        "T05" => vec![w("acceptance", t05, 3_000, 150_000), w("every-byte", t05_every, 20, 2_000)],
        "T06" => vec![w("keys", t06_keys, 2_000, 60_000), w("shares", t06, 8_000, 250_000)],
        "T07" => vec![w("records", t07, 9_000, 500_000), w("sweep", t07_sweep, 2_000, 20_000), w("sequence", t07_sequence, 60, 2_000)],
        "T08" => vec![w("server-hello", t08, 14_000, 700_000), w("reconfigured", t08_reconfigured, 1_500, 100_000)],
        "T09" => vec![w("extensions", t09, 7_000, 500_000), w("reuse", t09_reuse, 1_000, 80_000), w("reconfigured", t09_reconfigured, 1_500, 100_000)],
        "T10" => vec![w("order", t10, 9_000, 500_000), w("types", t10_types, 1536, 1536), w("floods", t10_floods, 96, 960)],
        "T11" => vec![w("alerts", t11, 7_000, 300_000), w("codes", t11_codes, 4096, 4096)],
        "T12" => vec![w("failures", t12, 4_000, 250_000), w("close", t12_close, 1_200, 100_000)],
        "T13" => vec![w("reuse", t13, 3_000, 250_000)],
        "T14" => vec![w("histories", t14, 2_500, 60_000)],
        "T15" => vec![w("certificates", t15, 10_000, 800_000)],
        "T17" => vec![w("interleaved", t17, 900, 50_000), w("threads", t17_threads, 60, 5_000)],
        "T18" => vec![w("messages", t18, 3_000, 80_000), w("records", t18_records, 600, 20_000)],
        _ => vec![],
    }
}
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "T01" => "server flights disturbed in structure, order, sizes, records and bytes, in plaintext and under the right keys; distinct by flight bytes and reason of the model's verdict",
        "T02" => "random configurations biased to boundary sizes and unknown bits; every value of the cipher byte; distinct by configuration",
        "T03" => "scripted generator outputs (failures, unusable and boundary keys, ordinary) over consecutive attempts",
        "T04" => "valid and disturbed flights delivered in random pieces with failing reads; a failing read at each position; distinct by flight and schedule",
        "T05" => "hellos and alerts accepted in random pieces with failing writes; a failing write at each position; distinct by flight and schedule",
        "T06" => "random and extreme key pairs on both sides, both suites; invalid and unusual shares",
        "T07" => "altered, forged, replayed, dropped, reordered, unprotected records; every padding length and every bit of a record",
        "T08" => "ServerHellos disturbed in every field and extension",
        "T09" => "encrypted extensions disturbed in every part; consecutive attempts with different selections",
        "T10" => "missing, repeated, reordered, foreign messages and records; every message and record type at every step",
        "T11" => "alerts anywhere; every code and level at every step",
        "T12" => "failing attempts of every kind, alert delivery cut at random bytes; close at random points of input and output",
        "T13" => "one to three earlier attempts stopped anywhere, then an attempt compared with a fresh object",
        "T14" => "random histories of API calls over three connections",
        "T15" => "certificate messages disturbed in lengths and in any element of the DER tree, and undisturbed ones with extreme integers",
        "T16" => "programs in C and C++ against the published header: random configurations, every alert value, malformed and refused input and output, failing generator; distinct by configuration, alert and level",
        "T17" => "two to five connections in random turns; four threads of connections",
        "T18" => "messages and records around every limit, whole and cut",
        _ => "",
    }
}
#[allow(unused)]
fn unused(_: &Codes, _: &Out, _: &dyn Fn() -> usize) {
    let _ = model::MSG_MAX;
}
