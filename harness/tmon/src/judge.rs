//! Compares what a client did with what the model allows.
use crate::drive::*;
use crate::model::*;
use refc::tls;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    /// Which way the attempt ended.
    Outcome,
    /// Where in the server's bytes it ended.
    Progress,
    /// Which alert was chosen.
    Code,
    /// How the alert was sent (number, protection, agreement with the report).
    Alert,
    /// The report of a peer alert.
    PeerCode,
    /// The close callback.
    Close,
    /// Input or output where there must be none.
    Io,
    /// Arguments given to callbacks.
    Misuse,
    /// The reported protocol.
    Proto,
    /// The ClientHello itself.
    Hello,
}
pub struct Finding {
    pub aspect: Aspect,
    pub sig: String,
    pub detail: String,
}
pub fn name(o: &Out) -> String {
    match o {
        Out::WantRead => "want-read".into(),
        Out::Peer(c) => format!("peer alert {c}"),
        Out::Fatal(Codes::Any, _) => "fatal alert".into(),
        Out::Fatal(Codes::Only(c), _) => format!("fatal alert {c:?}"),
        Out::Fatal(Codes::Not(c), _) => format!("fatal alert other than {c:?}"),
    }
}
pub fn got(o: &Obs) -> String {
    match (o.ret, o.err) {
        (-1, TLS) => format!("fatal alert {}", o.alert),
        (-1, PEER) => format!("peer alert {}", o.alert),
        (-1, RNG) => "rng error".into(),
        (-1, WANT_READ) => "want-read".into(),
        (-1, WANT_WRITE) => "want-write".into(),
        (-1, KEY_ZERO) => "key-zero error".into(),
        (-1, MISSING) => "missing-extensions error".into(),
        (r, e) => format!("return {r}, error {e}"),
    }
}
/// Output after the ClientHello, if that was completely sent.
pub fn after_hello(out: &[u8]) -> Option<&[u8]> {
    let (_, n) = tls::first_message(out).ok()??;
    let (recs, _) = tls::split_records(out);
    let used: usize = recs[..n].iter().map(|r| r.len()).sum();
    Some(&out[used..])
}
/// How an alert record reads: (protected, level, code).
pub fn read_alert(rec: &[u8], keys: Option<&tls::Keys>) -> Result<(bool, u8, u8), String> {
    if rec.len() < 5 || rec.len() != 5 + ((rec[3] as usize) << 8 | rec[4] as usize) {
        return Err(format!("not one whole record: {}", refc::hex(rec)));
    }
    if rec[1..3] != [3, 3] {
        return Err(format!("record version {:02x}{:02x}", rec[1], rec[2]));
    }
    match rec[0] {
        21 if rec.len() == 7 => Ok((false, rec[5], rec[6])),
        23 => {
            let Some(k) = keys else { return Err("protected record without keys".into()) };
            let Some(inner) = k.clone().open(rec) else {
                return Err("the alert record does not open under the client's handshake key".into());
            };
            let Some(at) = inner.iter().rposition(|&x| x != 0) else { return Err("all padding".into()) };
            if inner[at] != 21 || at != 2 {
                return Err(format!("protected content {}", refc::hex(&inner)));
            }
            Ok((true, inner[0], inner[1]))
        },
        t => Err(format!("record of type {t} and {} bytes", rec.len() - 5)),
    }
}
/// Judges one attempt driven to its end.
pub fn judge(o: &Obs, v: &Verdict) -> Vec<Finding> {
    let mut f = vec![];
    let mut add = |aspect, sig: String, detail: String| {
        f.push(Finding {
            aspect,
            sig,
            detail: format!(
                "{detail}\n    server flight of {} bytes, model: {} [{}] {}; client: {}",
                o.inp.len(),
                v.outs.iter().map(name).collect::<Vec<_>>().join(" or "),
                v.class,
                v.why,
                got(o)
            ),
        })
    };
    for m in &o.misuse {
        let k = m.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().replace(' ', "-");
        add(Aspect::Misuse, format!("callback-{k}"), m.clone());
    }
    let kind = |o: &Obs| match (o.ret, o.err) {
        (-1, TLS) => "fatal",
        (-1, PEER) => "peer",
        (-1, WANT_READ) => "want-read",
        _ => "other",
    };
    let k = kind(o);
    let fits: Vec<&Out> = v
        .outs
        .iter()
        .filter(|x| matches!((x, k), (Out::WantRead, "want-read") | (Out::Peer(_), "peer") | (Out::Fatal(..), "fatal")))
        .collect();
    let rest = after_hello(&o.out);
    let closes: Vec<usize> = o.evs.iter().enumerate().filter(|(_, e)| **e == Ev::Close).map(|(i, _)| i).collect();
    if fits.is_empty() {
        add(Aspect::Outcome, format!("outcome-{}-{k}", v.class), format!("the attempt ended with {}", got(o)));
    }
    // A client that fails in the right way can still have taken what it must not, if it fails later on.
    if !fits.is_empty() && k != "want-read" && o.pos > v.used.1 {
        add(Aspect::Progress, format!("went-on-{}", v.class), format!("{} bytes of the flight were read, {} show the failure", o.pos, v.used.1));
    }
    if !fits.is_empty() && k != "want-read" && !v.early && o.pos <= v.used.0 && o.hello.is_some() {
        add(Aspect::Progress, format!("stopped-early-{}", v.class), format!("{} bytes of the flight were read, the failure begins at {}", o.pos, v.used.0));
    }
    match k {
        "want-read" => {
            if rest.is_some_and(|r| !r.is_empty()) {
                add(Aspect::Io, "output-while-waiting".into(), format!("{} bytes sent after the ClientHello", rest.unwrap().len()));
            }
            if !closes.is_empty() {
                add(Aspect::Close, "close-while-waiting".into(), "the transport was closed although the attempt can go on".into());
            }
        },
        "peer" => {
            if let Some(Out::Peer(c)) = fits.first() {
                if *c != o.alert {
                    add(Aspect::PeerCode, format!("peer-code-{}", v.class), format!("alert {} reported as {}", c, o.alert));
                }
            }
            if rest.is_some_and(|r| !r.is_empty()) {
                add(Aspect::Io, "answer-to-alert".into(), format!("{} bytes sent in answer to an alert: {}", rest.unwrap().len(), refc::hex(rest.unwrap())));
            }
            if closes.len() != 1 {
                add(Aspect::Close, "close-count-peer".into(), format!("close callback called {} times after a peer alert", closes.len()));
            }
        },
        "fatal" => {
            if !fits.is_empty() && !fits.iter().any(|x| matches!(x, Out::Fatal(c, _) if c.ok(o.alert))) {
                add(Aspect::Code, format!("code-{}-{}", v.class, o.alert), format!("fatal error with alert {}", o.alert));
            }
            match rest {
                None => add(Aspect::Io, "alert-before-hello".into(), "fatal error before the ClientHello was sent".into()),
                Some(r) => {
                    let (recs, tail) = tls::split_records(r);
                    if !tail.is_empty() {
                        add(Aspect::Io, "framing".into(), format!("{} bytes that form no record: {}", tail.len(), refc::hex(tail)));
                    } else if recs.len() != 1 {
                        add(Aspect::Alert, format!("alert-count-{}", recs.len().min(2)), format!("{} records sent after the ClientHello", recs.len()));
                    } else {
                        match read_alert(recs[0], v.keys.as_ref().map(|k| &k.0)) {
                            Err(e) => add(Aspect::Alert, "alert-form".into(), e),
                            Ok((p, level, code)) => {
                                let want: Vec<Enc> = fits
                                    .iter()
                                    .filter_map(|x| match x {
                                        Out::Fatal(_, e) => Some(*e),
                                        _ => None,
                                    })
                                    .collect();
                                let fine = want.is_empty() || want.iter().any(|e| *e == Enc::Either || (*e == Enc::Enc) == p);
                                if !fine {
                                    add(Aspect::Alert, format!("alert-protection-{p}"), format!("alert protected: {p}, keys exist: {}", !p));
                                }
                                if level != 2 {
                                    add(Aspect::Alert, "alert-level".into(), format!("alert level {level}"));
                                }
                                if code as i32 != o.alert {
                                    add(Aspect::Alert, "alert-differs-from-report".into(), format!("alert {code} sent, {} reported", o.alert));
                                }
                            },
                        }
                    }
                },
            }
            if closes.len() != 1 {
                add(Aspect::Close, format!("close-count-{}", closes.len().min(2)), format!("close callback called {} times", closes.len()));
            }
        },
        _ => (),
    }
    if let Some(c) = closes.first() {
        if o.evs[c + 1..].iter().any(|e| matches!(e, Ev::Read { .. } | Ev::Write { .. })) {
            add(Aspect::Io, "io-after-close".into(), "I/O after the close callback".into());
        }
    }
    if !fits.is_empty() {
        if let Some(p) = &v.proto {
            let none = o.proto.as_ref().is_some_and(|x| x.is_empty());
            if o.proto.as_ref() != Some(p) && !(v.early && none) {
                add(
                    Aspect::Proto,
                    format!("proto-{}", if p.is_empty() { "unselected" } else { "selected" }),
                    format!("protocol {:?} reported, {:?} selected", o.proto.as_ref().map(|p| String::from_utf8_lossy(p).into_owned()), String::from_utf8_lossy(p)),
                );
            }
        }
    }
    if let Some(e) = &o.hello_err {
        add(Aspect::Hello, "hello-malformed".into(), e.clone());
    }
    f
}
