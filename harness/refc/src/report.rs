//! Evidence, violations and known findings.
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Violation {
    /// Stable identification of what fails (used to match known findings).
    pub sig: String,
    pub detail: String,
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    start: Instant,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub rule: String,
    pub samples: Vec<String>,
    /// Measured counters (events, classes of observations).
    pub counts: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Violation>,
    pub n_viol: u64,
    pub inconclusive: Vec<String>,
    pub floor: u64,
}
impl Report {
    pub fn new(prop: &str, rule: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        };
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            rule: rule.into(),
            samples: vec![],
            counts: BTreeMap::new(),
            assumptions: vec![],
            violations: vec![],
            n_viol: 0,
            inconclusive: vec![],
            floor: 1,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn secs(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    /// One evaluated case; `id` identifies it for distinctness.
    pub fn eval(&mut self, id: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(id);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 5 {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        self.n_viol += 1;
        if self.violations.len() < 2000 && self.violations.iter().filter(|v| v.sig == sig).count() < 5 {
            self.violations.push(Violation { sig: sig.into(), detail });
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.n_viol += o.n_viol;
        self.violations.extend(o.violations);
        self.inconclusive.extend(o.inconclusive);
    }
    fn known(&self) -> Vec<(String, String)> {
        // lines: "known: property=<id> sig=<signature> <description>"
        let mut v = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings", root())) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&format!("known: property={} sig=", self.prop)) {
                    let (s, d) = r.split_once(' ').unwrap_or((r, ""));
                    v.push((s.to_string(), d.to_string()));
                }
            }
        }
        v
    }
    /// Writes the evidence file, prints the verdict and exits.
    pub fn finish(mut self) -> ! {
        let known = self.known();
        let mut new = 0;
        let mut seen = HashSet::new();
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        let mut printed = 0;
        for (i, v) in self.violations.iter().enumerate() {
            if let Some((s, d)) = known.iter().find(|(s, _)| *s == v.sig) {
                if seen.insert(s.clone()) {
                    println!("KNOWN-FINDING: property={} {} {}", self.prop, s, d);
                }
                continue;
            }
            new += 1;
            if printed < 10 {
                printed += 1;
                let path = format!("{dir}/replay-{}-{i}.txt", self.prop);
                let _ = std::fs::write(
                    &path,
                    format!("property={} seed={} tier={}\nsignature={}\n{}\n", self.prop, self.seed, self.tier, v.sig, v.detail),
                );
                println!("VIOLATION property={} replay={path}", self.prop);
                for l in format!("{}: {}", v.sig, v.detail).lines().take(12) {
                    let mut l = l.to_string();
                    if l.len() > 400 {
                        let mut k = 400;
                        while !l.is_char_boundary(k) {
                            k -= 1;
                        }
                        l.truncate(k);
                        l.push_str("...");
                    }
                    println!("    {l}");
                }
            }
        }
        let mut cov = vec![
            format!("\"evaluations\": {}", self.evals),
            format!("\"distinct_nontrivial\": {}", self.distinct.len()),
            format!("\"rule\": {}", esc(&self.rule)),
            format!("\"samples\": [{}]", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")),
        ];
        let obs: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
        cov.push(format!("\"observed\": {{{}}}", obs.join(", ")));
        if !self.inconclusive.is_empty() {
            let v: Vec<String> = self.inconclusive.iter().take(10).map(|s| esc(s)).collect();
            cov.push(format!("\"inconclusive\": [{}]", v.join(", ")));
        }
        let asm: Vec<String> = self.assumptions.iter().map(|s| esc(s)).collect();
        let wall = self.secs();
        let text = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            esc(&self.prop),
            esc(&self.tier),
            self.seed,
            cov.join(",\n    "),
            asm.join(", "),
            wall,
            new
        );
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.prop), text) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(3);
        }
        println!(
            "{} {}: {} cases, {} distinct, {} violations, {} inconclusive, {:.1}s",
            self.prop,
            self.tier,
            self.evals,
            self.distinct.len(),
            new,
            self.inconclusive.len(),
            wall
        );
        self.violations.clear();
        if new > 0 {
            std::process::exit(1);
        }
        if self.evals < self.floor {
            println!("too few observations: {} < {}", self.evals, self.floor);
            std::process::exit(2);
        }
        if self.inconclusive.len() as u64 * 20 > self.evals {
            println!("too many inconclusive cases: {}", self.inconclusive[0]);
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
