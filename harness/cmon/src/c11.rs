//! C11: digests of every case's outputs in several builds and schedules, and their comparison.
use crate::cx::{hex, run};
use crate::workloads;
use crylib::aead::chacha::ChaCha20Poly1305;
use crylib::aead::gcm::{Aes128, Aes192, Aes256, Gcm};
use crylib::aead::Aead;
use refc::report::{fnv, Report};
use refc::rng::Rng;
use std::collections::BTreeMap;
use std::sync::Barrier;

const PROPS: [&str; 9] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"];

/// digest <threads> <divisor> <small 0|1> <file> [workload=count]...
pub fn digest(a: &[String]) {
    let threads: usize = a[0].parse().unwrap();
    let div: u64 = a[1].parse().unwrap();
    let small = a[2] == "1";
    let only: Vec<(String, u64)> = a[4..]
        .iter()
        .map(|s| {
            let (n, c) = s.split_once('=').expect("workload=count");
            (n.to_string(), c.parse().unwrap())
        })
        .collect();
    let mut out = String::new();
    let mut rep = Report::new("C11", "");
    for p in PROPS {
        for (name, f, q, _) in workloads(p) {
            let n = match only.iter().find(|(n, _)| n == name) {
                Some((_, c)) => *c,
                None if only.is_empty() && (div == 1 || !name.ends_with("huge")) => (q / div).clamp(1, q),
                None => continue,
            };
            let d = run(&mut rep, name, n, f, threads, small);
            for (i, d) in d.iter().enumerate() {
                out += &format!("{name} {i} {d:016x}\n");
            }
        }
    }
    for v in &rep.violations {
        out += &format!("violation {} | {}\n", v.sig, v.detail.replace('\n', " | "));
    }
    out += "end\n";
    std::fs::write(&a[3], out).expect("digest file");
}

/// One cipher object used by several threads at once gives what a private one gives.
fn shared(rep: &mut Report, rounds: usize) {
    fn one<A: Aead + Sync>(rep: &mut Report, name: &str, mk: impl Fn() -> A, rng: &mut Rng) {
        const T: usize = 8;
        let c = mk();
        let solo = mk();
        let jobs: Vec<Vec<(Vec<u8>, Vec<u8>, [u8; 12])>> = (0..T)
            .map(|_| {
                (0..40)
                    .map(|_| {
                        let (n, m) = (rng.below(200), rng.below(40));
                        (rng.bytes(n), rng.bytes(m), rng.bytes(12).try_into().unwrap())
                    })
                    .collect()
            })
            .collect();
        let bar = Barrier::new(T);
        let outs: Vec<Vec<(Vec<u8>, [u8; 16], bool, bool)>> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .iter()
                .map(|j| {
                    let (c, bar) = (&c, &bar);
                    s.spawn(move || {
                        bar.wait();
                        j.iter()
                            .map(|(m, a, iv)| {
                                let mut ct = m.clone();
                                let t = c.encrypt_inline(&mut ct, a, iv);
                                let mut back = ct.clone();
                                let ok = c.decrypt_inline(&mut back, a, iv, &t).is_ok() && &back == m;
                                let mut bad = t;
                                bad[m.len() % 16] ^= 1;
                                let mut back = ct.clone();
                                let rej = c.decrypt_inline(&mut back, a, iv, &bad).is_err();
                                (ct, t, ok, rej)
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for (j, o) in jobs.iter().zip(&outs) {
            for ((m, a, iv), (ct, t, ok, rej)) in j.iter().zip(o) {
                let mut want = m.clone();
                let wt = solo.encrypt_inline(&mut want, a, iv);
                rep.eval(fnv(t), true);
                rep.count("calls on an object shared by 8 threads");
                if (&want, &wt) != (ct, t) || !ok || !rej {
                    rep.violation(
                        &format!("shared {name}"),
                        format!("{name} used from 8 threads: message {} aad {} iv {}: ciphertext equal {}, decrypts {ok}, forgery rejected {rej}", hex(m), hex(a), hex(iv), &want == ct && &wt == t),
                    );
                }
            }
        }
    }
    let mut rng = Rng::new(rep.seed ^ 0x5ba2ed);
    for _ in 0..rounds {
        let k = rng.bytes(32);
        one(rep, "AES-128-GCM", || Gcm::<Aes128>::new(k[..16].try_into().unwrap()), &mut rng);
        one(rep, "AES-192-GCM", || Gcm::<Aes192>::new(k[..24].try_into().unwrap()), &mut rng);
        one(rep, "AES-256-GCM", || Gcm::<Aes256>::new(k[..32].try_into().unwrap()), &mut rng);
        one(rep, "ChaCha20-Poly1305", || ChaCha20Poly1305::new(k[..32].try_into().unwrap()), &mut rng);
    }
}

fn load(rep: &mut Report, path: &str, name: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut end = false;
    for l in t.lines() {
        if let Some(v) = l.strip_prefix("violation ") {
            // wrong results belong to the other properties; here only crashes count
            if v.starts_with("panic") {
                rep.violation(&format!("{name}: {}", v.split(" | ").next().unwrap_or("")), v.to_string());
            } else {
                rep.count("wrong results seen (judged by C01 to C09)");
            }
        } else if l == "end" {
            end = true;
        } else if let Some((k, d)) = l.rsplit_once(' ') {
            m.insert(k.to_string(), d.to_string());
        }
    }
    if !end && !t.is_empty() {
        rep.inconclusive.push(format!("{name}: incomplete digest file"));
    }
    m
}

/// C11 <dir>: for every build B, dir/B.dig, dir/B.rc (exit status) and dir/B.err (its stderr).
/// The build named "checked" is the one the others are compared with.
pub fn judge(a: &[String]) {
    let mut rep = Report::new(
        "C11",
        "cases of C01 to C09 run in a build with overflow checks and debug assertions, an optimised build, an AddressSanitizer build (8 threads, 1 thread, repeated) and the Miri interpreter (small inputs): no crash, no sanitizer report, equal outputs; non-trivial: every case with outputs",
    );
    let dir = &a[0];
    let mut names: Vec<String> = std::fs::read_dir(dir)
        .expect("directory")
        .filter_map(|e| e.ok()?.file_name().into_string().ok()?.strip_suffix(".rc").map(String::from))
        .collect();
    names.sort();
    for n in &names {
        let rc = std::fs::read_to_string(format!("{dir}/{n}.rc")).unwrap_or_default();
        let err = std::fs::read_to_string(format!("{dir}/{n}.err")).unwrap_or_default();
        let tail = |s: &str| s.lines().filter(|l| !l.trim().is_empty()).take(25).collect::<Vec<_>>().join("\n  ");
        match rc.trim() {
            "0" => {},
            "124" | "137" => rep.inconclusive.push(format!("{n}: time limit")),
            r if n.starts_with("build") => {
                println!("{n} failed ({r}): {}", tail(&err));
                std::process::exit(2);
            },
            r => {
                let from = ["error: Undefined Behavior", "ERROR: AddressSanitizer", "error: abnormal", "panicked at", "error:"]
                    .iter()
                    .find_map(|p| err.find(p));
                match from {
                    Some(i) if !err.contains("could not compile") => {
                        let l = err[i..].lines().next().unwrap_or("");
                        rep.violation(&format!("{} build: {}", n.trim_end_matches(char::is_numeric), l.split(" 0x").next().unwrap_or(l)), format!("{n} exit {r}\n  {}", tail(&err[i..])));
                    },
                    _ if err.contains("could not compile") || err.contains("can't find") => {
                        println!("{n} did not build: {}", tail(&err));
                        std::process::exit(2);
                    },
                    _ => rep.violation(&format!("{n} build: died"), format!("exit {r}\n  {}", tail(&err))),
                }
            },
        }
    }
    let base = load(&mut rep, &format!("{dir}/checked.dig"), "checked");
    for (k, d) in &base {
        rep.eval(fnv(k.as_bytes()), true);
        if rep.samples.len() < 3 && k.ends_with(" 7") {
            rep.sample(|| format!("{k}: output digest {d} in every build"));
        }
    }
    for n in &names {
        // "miri3" is compared with "small3": the same cases of the checked build
        let (want, wname) = match n.strip_prefix("miri") {
            Some(k) => (load(&mut rep, &format!("{dir}/small{k}.dig"), "small"), format!("small{k}")),
            None if n == "checked" || n.starts_with("small") || n.starts_with("build") => continue,
            None => (base.clone(), "checked".into()),
        };
        let got = load(&mut rep, &format!("{dir}/{n}.dig"), n);
        let kind = n.trim_end_matches(char::is_numeric);
        rep.add(&format!("cases run in build {kind}"), got.len() as u64);
        for (k, d) in &got {
            match want.get(k) {
                Some(w) if w == d => {},
                Some(w) => rep.violation(
                    &format!("{} differs in {kind}", k.split(' ').next().unwrap_or(k)),
                    format!("case {k}: output digest {d} in {n}, {w} in {wname}"),
                ),
                None => rep.count("cases without counterpart"),
            }
        }
    }
    let rounds = if rep.thorough() { 200 } else { 20 };
    shared(&mut rep, rounds);
    rep.floor = 10_000;
    rep.finish()
}
