//! Runs cases in worker processes, so that an abort of the library is itself an observation.
use refc::report::{fnv, Report};
use refc::rng::Rng;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;

pub struct Cx {
    pub prop: String,
    pub wl: String,
    pub idx: u64,
    pub rng: Rng,
    pub desc: String,
    pub viols: Vec<(String, String)>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub inconclusive: Vec<String>,
    pub evals: Vec<(u64, bool)>,
    pub verbose: bool,
}
impl Cx {
    pub fn violation(&mut self, sig: &str, detail: String) {
        let d = format!("{detail}\n    case: {}", self.desc);
        self.viols.push((sig.into(), d));
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    pub fn eval(&mut self, id: &str, nontrivial: bool) {
        self.evals.push((fnv(id.as_bytes()), nontrivial));
    }
    pub fn describe(&mut self, s: String) {
        self.desc = s;
        if let Ok(mut c) = CURRENT.lock() {
            c.clear();
            c.push_str(&self.desc);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
}
pub type Case = fn(&mut Cx);
pub struct Wl {
    pub name: &'static str,
    pub case: Case,
    pub quick: u64,
    pub thorough: u64,
}
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Says what is running, for the case that the process dies.
pub fn note(s: &str) {
    if let Ok(mut c) = CURRENT.lock() {
        c.clear();
        c.push_str(s);
    }
}
pub fn flush() {
    let _ = std::io::stdout().flush();
}
fn one_line(s: &str) -> String {
    s.replace('\n', "\x1e")
}
fn many_lines(s: &str) -> String {
    s.replace('\x1e', "\n")
}
/// The generator of a case depends on nothing but the seed, the workload and the index.
fn case_rng(seed: u64, wl: &str, idx: u64) -> Rng {
    Rng::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ fnv(wl.as_bytes()) ^ idx.wrapping_mul(0xd1342543de82ef95))
}
pub fn run_case(prop: &str, w: &Wl, seed: u64, idx: u64, verbose: bool) -> Cx {
    let mut cx = Cx {
        prop: prop.into(),
        wl: w.name.into(),
        idx,
        rng: case_rng(seed, w.name, idx),
        desc: String::new(),
        viols: vec![],
        counts: BTreeMap::new(),
        samples: vec![],
        inconclusive: vec![],
        evals: vec![],
        verbose,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (w.case)(&mut cx)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        cx.inconclusive.push(format!("the monitor itself failed in {} case {idx}: {m}", w.name));
    }
    cx
}
#[cfg(not(miri))]
mod sys {
    use std::os::raw::{c_int, c_long};
    #[repr(C)]
    pub struct Tv {
        pub s: c_long,
        pub us: c_long,
    }
    #[repr(C)]
    pub struct Itv {
        pub interval: Tv,
        pub value: Tv,
    }
    #[repr(C)]
    pub struct Rl {
        pub cur: u64,
        pub max: u64,
    }
    extern "C" {
        fn setitimer(which: c_int, new: *const Itv, old: *mut Itv) -> c_int;
        fn setrlimit(which: c_int, l: *const Rl) -> c_int;
    }
    /// CPU seconds until SIGPROF ends this process.
    pub fn cpu_limit(s: i64) {
        let v = Itv { interval: Tv { s: 0, us: 0 }, value: Tv { s, us: 0 } };
        // SAFETY: plain system call on a local structure.
        unsafe { setitimer(2, &v, std::ptr::null_mut()) };
    }
    pub fn no_core() {
        // SAFETY: plain system call on a local structure.
        unsafe { setrlimit(4, &Rl { cur: 0, max: 0 }) };
    }
}
/// Seconds of processor time after which a case counts as hanging; some cases make hundreds of attempts.
fn case_cpu(prop: &str) -> i64 {
    match prop {
        "T04" | "T05" | "T13" | "T17" => 100,
        _ => 40,
    }
}

/// Worker mode: runs cases start, start+step, .. below n.
pub fn worker(prop: &str, w: &Wl, seed: u64, start: u64, step: u64, n: u64) {
    #[cfg(not(miri))]
    sys::no_core();
    std::panic::set_hook(Box::new(|i| {
        let d = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        println!("X {}", one_line(&format!("panic at {loc}: {i}\n    case: {d}")));
        flush();
    }));
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0u64;
    let mut idx = start;
    while idx < n {
        println!("S {idx}");
        flush();
        #[cfg(not(miri))]
        sys::cpu_limit(case_cpu(prop));
        let cx = run_case(prop, w, seed, idx, false);
        let mut o = String::new();
        for (h, t) in &cx.evals {
            o.push_str(&format!("E {h} {}\n", *t as u8));
        }
        for (s, d) in &cx.viols {
            o.push_str(&format!("V {}\x1f{}\n", s, one_line(&format!("{d}\n    replay: VERIF_SEED={seed} tmon replay {prop} {} {idx}", w.name))));
        }
        for i in &cx.inconclusive {
            o.push_str(&format!("I {}\n", one_line(i)));
        }
        if done % 97 == 0 {
            for s in &cx.samples {
                o.push_str(&format!("P {}\n", one_line(s)));
            }
        }
        for (k, v) in &cx.counts {
            *counts.entry(k.clone()).or_insert(0) += v;
        }
        done += 1;
        if done % 50 == 0 {
            for (k, v) in std::mem::take(&mut counts) {
                o.push_str(&format!("C {v} {k}\n"));
            }
        }
        print!("{o}");
        idx += step;
    }
    for (k, v) in counts {
        println!("C {v} {k}");
    }
    println!("Z");
    flush();
    #[cfg(not(miri))]
    sys::cpu_limit(0);
}

#[derive(Default)]
struct Got {
    evals: Vec<(u64, bool)>,
    viols: Vec<(String, String)>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    inconclusive: Vec<String>,
}
/// Reads one worker's lines; returns how it ended: (finished, last case begun, panic notes).
fn listen(g: &mut Got, out: impl Read) -> (bool, Option<u64>, Vec<String>) {
    let mut fin = false;
    let mut last = None;
    let mut notes = vec![];
    for l in BufReader::new(out).lines() {
        let Ok(l) = l else { break };
        let Some((k, v)) = l.split_once(' ').or(Some((l.as_str(), ""))) else { continue };
        match k {
            "S" => {
                last = v.parse().ok();
                notes.clear();
            },
            "E" => {
                let (h, t) = v.split_once(' ').unwrap_or((v, "0"));
                g.evals.push((h.parse().unwrap_or(0), t == "1"));
            },
            "V" => {
                let (s, d) = v.split_once('\x1f').unwrap_or((v, ""));
                g.viols.push((s.into(), many_lines(d)));
            },
            "C" => {
                let (n, k) = v.split_once(' ').unwrap_or(("0", v));
                *g.counts.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
            },
            "P" => g.samples.push(many_lines(v)),
            "I" => g.inconclusive.push(many_lines(v)),
            "X" => notes.push(many_lines(v)),
            "Z" => fin = true,
            _ => (),
        }
    }
    (fin, last, notes)
}
pub fn procs() -> u64 {
    std::env::var("TMON_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}
/// A crash is a violation of every property: it is not the behaviour any of them asks for.
pub fn run(rep: &mut Report, prop: &str, w: &Wl, n: u64) {
    let exe = std::env::current_exe().expect("own path");
    let seed = rep.seed;
    let step = procs().min(n.max(1));
    let got: Vec<Got> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..step)
            .map(|k| {
                let exe = &exe;
                s.spawn(move || {
                    let mut g = Got::default();
                    let mut start = k;
                    let mut crashes = 0;
                    while start < n {
                        let mut c = Command::new(exe)
                            .args(["worker", prop, w.name, &seed.to_string(), &start.to_string(), &step.to_string(), &n.to_string()])
                            .stdout(Stdio::piped())
                            .stderr(Stdio::piped())
                            .spawn()
                            .expect("spawn worker");
                        let err = c.stderr.take().unwrap();
                        let eh = std::thread::spawn(move || {
                            let mut e = vec![];
                            let _ = BufReader::new(err).read_to_end(&mut e);
                            e
                        });
                        let (fin, last, notes) = listen(&mut g, c.stdout.take().unwrap());
                        let st = c.wait();
                        let err = eh.join().unwrap_or_default();
                        if fin && st.as_ref().is_ok_and(|s| s.success()) {
                            break;
                        }
                        let Some(last) = last else {
                            g.inconclusive.push(format!("worker did not start: {st:?}: {}", String::from_utf8_lossy(&err)));
                            break;
                        };
                        // a hang costs much time
                        let hung = st.as_ref().ok().and_then(|s| std::os::unix::process::ExitStatusExt::signal(s)) == Some(27);
                        crashes += if hung { 13 } else { 1 };
                        let code = st.as_ref().ok().and_then(|s| s.code());
                        let sig = st.as_ref().ok().and_then(|s| std::os::unix::process::ExitStatusExt::signal(s));
                        let err = String::from_utf8_lossy(&err);
                        let lines: Vec<&str> = err.lines().collect();
                        let from = lines.iter().position(|l| l.contains("ERROR: ") || l.contains("WARNING: ThreadSanitizer")).unwrap_or(lines.len().saturating_sub(12));
                        let tail: String = lines[from..].iter().take(40).map(|l| format!("\n    | {l}")).collect();
                        if code != Some(9) {
                            let kind = match (sig, code) {
                                (Some(27), _) => "hang".to_string(),
                                (Some(6), _) if !notes.is_empty() => "abort-on-panic".to_string(),
                                (Some(s), _) => format!("signal-{s}"),
                                (_, c) if tail.contains("Sanitizer") => format!("sanitizer-{}", c.unwrap_or(0)),
                                (_, c) => format!("exit-{}", c.unwrap_or(0)),
                            };
                            let msg = notes.first().cloned().unwrap_or_default();
                            // stable part of the panic: its message without numbers
                            let key: String = msg.lines().nth(1).unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(60).map(|c| if c.is_alphanumeric() { c } else { '-' }).collect();
                            let d = format!(
                                "the process ended ({kind}) in {} case {last}: {msg}{tail}\n    replay: VERIF_SEED={seed} tmon replay {prop} {} {last}",
                                w.name, w.name
                            );
                            // a panic of the monitor itself says nothing about the library
                            let own = ["panic at tmon/", "panic at refc/", "panic at fakerand/"].iter().any(|p| msg.starts_with(p));
                            if !own {
                                g.viols.push((format!("crash-{kind}-{key}"), d));
                            } else {
                                g.inconclusive.push(d);
                            }
                        }
                        g.evals.push((fnv(format!("crash{last}").as_bytes()), true));
                        if crashes > 25 {
                            break;
                        }
                        start = last + step;
                    }
                    g
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("listener")).collect()
    });
    for g in got {
        for (h, t) in g.evals {
            rep.eval(h, t);
        }
        for (s, d) in g.viols {
            rep.violation(&s, d);
        }
        for (k, v) in g.counts {
            rep.add(&k, v);
        }
        for s in g.samples {
            rep.sample(|| s);
        }
        rep.inconclusive.extend(g.inconclusive);
    }
}
/// Runs commands that print worker lines, all at once.
pub fn extra(rep: &mut Report, cmds: &[(String, String)]) {
    let got: Vec<Got> = std::thread::scope(|s| {
        let hs: Vec<_> = cmds.iter().map(|(k, c)| s.spawn(move || gather(k, c))).collect();
        hs.into_iter().map(|h| h.join().expect("listener")).collect()
    });
    for ((kind, _), g) in cmds.iter().zip(got) {
        merge(rep, kind, g);
    }
}
fn gather(kind: &str, cmd: &str) -> Got {
    let mut g = Got::default();
    let mut c = Command::new("sh").args(["-c", cmd]).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let err = c.stderr.take().unwrap();
    let eh = std::thread::spawn(move || {
        let mut e = vec![];
        let _ = BufReader::new(err).read_to_end(&mut e);
        e
    });
    let (fin, last, notes) = listen(&mut g, c.stdout.take().unwrap());
    let st = c.wait();
    let err = eh.join().unwrap_or_default();
    let err = String::from_utf8_lossy(&err);
    if !(fin && st.as_ref().is_ok_and(|s| s.success())) {
        let mut from = match ["Undefined Behavior", "ERROR: ", "runtime error: ", "WARNING: ThreadSanitizer"].iter().find_map(|p| err.find(p)) {
            Some(i) => i.saturating_sub(200),
            None => err.len().saturating_sub(3000),
        };
        while !err.is_char_boundary(from) {
            from -= 1;
        }
        let tail: String = err[from..].chars().take(4000).collect();
        if st.as_ref().is_ok_and(|s| s.code() == Some(124)) {
            // stopped by `timeout`: what was seen until then counts
            g.counts.insert("out of time".into(), 1);
            return g;
        }
        let code = st.map(|s| s.to_string()).unwrap_or_default();
        if err.contains("Undefined Behavior") || err.contains("memory leaked") || last.is_some() && !err.contains("unsupported operation") {
            g.viols.push((format!("{kind}-stopped"), format!("the {kind} stopped in case {last:?} ({code}): {notes:?}\n{tail}\n    replay: {cmd}")));
        } else {
            g.inconclusive.push(format!("the {kind} did not run ({code}): {tail}"));
            g.counts.insert("failed".into(), 1);
        }
    }
    g
}
fn merge(rep: &mut Report, kind: &str, g: Got) {
    let n = g.evals.len() as u64;
    rep.add(&format!("{kind}:cases"), n);
    for (h, t) in g.evals {
        rep.eval(h ^ fnv(kind.as_bytes()), t);
    }
    for (s, d) in g.viols {
        rep.violation(&s, d);
    }
    for (k, v) in g.counts {
        rep.add(&format!("{kind}:{k}"), v);
    }
    for s in g.samples {
        rep.sample(|| s);
    }
    rep.inconclusive.extend(g.inconclusive);
}
