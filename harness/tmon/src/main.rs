//! Monitors of the TLS client: drives the real library against scripted servers and judges it.
mod cert;
mod drive;
mod gen;
mod heap;
mod judge;
mod model;
mod props;
mod worker;

use refc::report::Report;
use worker::Wl;

#[cfg(not(any(miri, tmon_plain_heap)))]
#[global_allocator]
static A: heap::Counting = heap::Counting;

fn find(prop: &str, name: &str) -> Wl {
    props::workloads(prop).into_iter().find(|w| w.name == name).unwrap_or_else(|| panic!("{prop} has no workload {name}"))
}
fn env_num(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    match arg(1) {
        "worker" => worker::worker(arg(2), &find(arg(2), arg(3)), num(4), num(5), num(6), num(7)),
        "replay" => {
            let w = find(arg(2), arg(3));
            let cx = worker::run_case(arg(2), &w, env_num("VERIF_SEED").unwrap_or(1), num(4), true);
            for (s, d) in &cx.viols {
                println!("VIOLATION {s}: {d}");
            }
            for i in &cx.inconclusive {
                println!("inconclusive: {i}");
            }
            println!("case: {}", cx.desc);
            if !cx.viols.is_empty() {
                std::process::exit(1);
            }
        },
        // one process, no workers: for interpreters
        "inline" => {
            let seed = env_num("VERIF_SEED").unwrap_or(1);
            for w in props::workloads(arg(2)) {
                worker::worker(arg(2), &w, seed, 0, 1, num(3));
            }
        },
        "consts" => refc::hash::dump_consts(arg(2)),
        "run" => run(arg(2)),
        _ => {
            eprintln!("usage: tmon run|worker|replay|inline ...");
            std::process::exit(3);
        },
    }
}
fn run(prop: &str) {
    let mut rep = Report::new(prop, props::rule(prop));
    let ws = props::workloads(prop);
    if prop == "T16" {
        capi(rep);
    }
    if ws.is_empty() {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }
    let mut want = 0;
    let scale = env_num("TMON_PERCENT").unwrap_or(100);
    for w in &ws {
        let n = if rep.thorough() { w.thorough } else { w.quick } * scale / 100;
        want += n;
        let t = rep.secs();
        worker::run(&mut rep, prop, w, n.max(1));
        let d = ((rep.secs() - t) * 1000.0) as u64;
        rep.add(&format!("milliseconds:{}", w.name), d);
    }
    if let Ok(cmd) = std::env::var("TMON_EXTRA") {
        let t = rep.secs();
        let seed = rep.seed.to_string();
        let cmds: Vec<_> = cmd.lines().filter(|l| !l.is_empty()).map(|l| ("interpreter".to_string(), l.replace("@SEED@", &seed))).collect();
        worker::extra(&mut rep, &cmds);
        let d = ((rep.secs() - t) * 1000.0) as u64;
        rep.add("milliseconds:extra", d);
    }
    rep.assumptions.push(
        "the sources under /repo/src are built as a Rust library with the generator crate replaced by a scriptable stand-in of the same interface".into(),
    );
    rep.floor = want / 4;
    rep.finish();
}
/// The programs built by c16.sh.
fn capi(mut rep: Report) -> ! {
    let var = |k: &str| std::env::var(k).unwrap_or_default();
    let (dir, n, m) = (var("TMON_CAPI"), var("TMON_CAPI_N"), var("TMON_CAPI_M"));
    let seed = rep.seed;
    if var("TMON_CAPI_CC") != "0" {
        let log = std::fs::read_to_string(var("TMON_CAPI_LOG")).unwrap_or_default();
        rep.violation("interface-build", format!("a program using the published header does not build against the library:\n{log}"));
    } else {
        let cmds: Vec<_> = [("capi-c", &n), ("capi-cc", &n), ("capi-rng", &m)]
            .iter()
            .map(|(p, n)| (p.to_string(), format!("ulimit -c 0; ulimit -t 3000; exec {dir}/{p} {seed} {n}")))
            .collect();
        worker::extra(&mut rep, &cmds);
    }
    rep.assumptions.push("the library is built by cargo from /repo's working tree; only for generator failures it is built with the scriptable generator".into());
    rep.floor = n.parse().unwrap_or(1);
    rep.finish()
}
