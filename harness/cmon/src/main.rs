mod c11;
mod curve;
mod cx;
mod num;
mod sym;

use cx::{run, Case};
use refc::report::Report;

const THREADS: usize = 8;

/// Workloads of each property: name, case function, number of cases (quick, thorough).
fn workloads(prop: &str) -> Vec<(&'static str, Case, u64, u64)> {
    match prop {
        "C01" => vec![("sha2-huge", sym::c01_huge as Case, 8, 8), ("sha2", sym::c01, 600_000, 12_000_000), ("sha2-lengths", sym::c01_len, 560, 1500)],
        "C02" => vec![("mac", sym::c02 as Case, 80_000, 2_000_000)],
        "C03" => vec![("aead-huge", sym::c03_huge as Case, 2, 2), ("aead-big", sym::c03_big, 24, 24), ("aead-enc", sym::c03, 400_000, 10_000_000)],
        "C04" => vec![("aead-long", sym::c04_long as Case, 32, 320), ("aead-dec", sym::c04, 60_000, 1_500_000), ("aead-bits", sym::c04_bits, 800, 20_000)],
        "C05" => vec![("ubig", num::c05 as Case, 1_000_000, 20_000_000)],
        "C06" => vec![("big", num::c06 as Case, 1_000_000, 20_000_000)],
        "C07" => vec![("field", num::c07 as Case, 100_000, 2_500_000)],
        "C08" => vec![
            ("curve-const", curve::c08_const as Case, 1, 1),
            ("curve", curve::c08, 15_000, 500_000),
            ("curve-mul", curve::c08_mul, 3_000, 90_000),
            ("curve-small", curve::c08_small, 300, 1000),
        ],
        "C09" => vec![
            ("ecdsa-sign", curve::c09_sign as Case, 1000, 30_000),
            ("ecdsa-verify", curve::c09_verify, 2000, 60_000),
            ("ecdsa-special", curve::c09_special, 500, 20_000),
            ("ecdsa-sha", curve::c09_sha, 200, 6_000),
        ],
        _ => vec![],
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "random messages with lengths biased to block boundaries, random feeding plans; plus every length up to the bound with every two-part split",
        "C02" => "random keys, messages, salts, infos and output lengths biased to block and limit boundaries",
        "C03" => "random key/nonce/aad/plaintext with biased lengths; AES blocks, ChaCha20 streams at extreme counters, Poly1305 with extreme accumulators",
        "C04" => "genuine messages plus forgeries of every component; every single-bit change of selected messages",
        "C05" => "operands biased to carry chains, few digits, and hard long-division shapes, at every width",
        "C06" => "sign and magnitude combinations biased to extremes, at every width",
        "C07" => "elements biased to the ends of the field over 16 prime moduli of different shapes",
        "C08" => "points of every relation (equal, opposite, infinite, distinct) in random projective scalings; extreme scalars",
        "C09" => "random and extreme keys, hashes and nonces; signatures altered in every component; constructed corner cases",
        _ => "",
    }
}

fn main() {
    cx::hook();
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).map(String::as_str).unwrap_or("");
    match prop {
        "digest" => c11::digest(&args[2..]),
        "consts" => refc::hash::dump_consts(&args[2]),
        "C11" => c11::judge(&args[2..]),
        _ if !workloads(prop).is_empty() => {
            let mut rep = Report::new(prop, rule(prop));
            if prop == "C07" {
                num::check_primes(&mut rep);
            }
            for (name, f, q, t) in workloads(prop) {
                let n = if rep.thorough() { t } else { q };
                run(&mut rep, name, n, f, THREADS, false);
            }
            rep.floor = 100;
            rep.finish()
        },
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        },
    }
}
