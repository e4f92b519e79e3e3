//! Generators of configurations and server flights.
use crate::drive::Cfg;
use getrandom::Draw;
use refc::nat::Nat;
use refc::p256::{self, Pt};
use refc::rng::Rng;
use refc::tls::{self, ext, handshake, record, vec16, vec24, vec8, Hello, Keys, Suite};
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Srv {
    pub sk: Nat,
    pub pk: Pt,
}
thread_local! {
    static POOL: RefCell<Vec<std::rc::Rc<Srv>>> = const { RefCell::new(vec![]) };
    static DH: RefCell<HashMap<(Vec<u8>, usize), Option<[u8; 32]>>> = RefCell::new(HashMap::new());
}
const POOL_N: usize = 24;
/// Small scalars keep interpreted runs fast.
pub fn small() -> bool {
    cfg!(miri)
}
pub fn server_key(i: usize) -> std::rc::Rc<Srv> {
    let i = if small() { 0 } else { i };
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= i {
            let n = p.len();
            let mut r = Rng::new(0x5e77 + n as u64);
            let sk = if n < 4 || small() { Nat::from_u64(n as u64 + 1) } else { Nat::from_be(&r.bytes(32)).rem(&p256::n_nat()) };
            let pk = p256::mul_base(&sk);
            p.push(std::rc::Rc::new(Srv { sk, pk }));
        }
        p[i].clone()
    })
}
/// Shared secret of the client's share (as sent) and server key `i`.
pub fn dh_with(share: &[u8], i: usize) -> Option<[u8; 32]> {
    DH.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() > 20_000 {
            d.clear();
        }
        *d.entry((share.to_vec(), i)).or_insert_with(|| {
            if small() {
                // the server's key is 1
                return share.get(1..33)?.try_into().ok();
            }
            let p = p256::decode(share)?;
            tls::ecdh(&server_key(i).sk, &p)
        })
    })
}
pub fn client_share(h: &Hello) -> Vec<u8> {
    h.shares.as_ref().and_then(|s| s.iter().find(|x| x.0 == 23)).map(|x| x.1.clone()).unwrap_or_default()
}
/// The shared secret for any share the server may have sent.
pub fn secret_for(h: &Hello, draws: &[Option<Vec<u8>>], point: &Pt) -> Option<[u8; 32]> {
    let share = client_share(h);
    for i in 0..POOL_N {
        if server_key(i).pk == *point {
            return dh_with(&share, i);
        }
    }
    // an unknown point: use the client's private key, found among the bytes drawn
    for d in draws.iter().flatten() {
        for w in d.windows(32) {
            for k in [Nat::from_le(w), Nat::from_be(w)] {
                let k = k.rem(&p256::n_nat());
                if p256::encode(&p256::mul_base(&k)) == share {
                    return tls::ecdh(&k, point);
                }
            }
        }
    }
    None
}

/// A script that makes the client's key one of a few, so that reference results can be cached.
pub fn pooled_draws(r: &mut Rng) -> Vec<Draw> {
    if r.chance(1, 4) && !small() {
        return vec![];
    }
    let i = r.below(12);
    let mut k = Rng::new(0xC11E47 + i as u64);
    let mut b = k.bytes(32);
    if small() || i == 0 {
        b = vec![0; 32];
        b[0] = 3 + i as u8;
    }
    let mut v = vec![Draw::Bytes(b)];
    // the client random that follows
    v.push(Draw::Bytes(r.bytes(32)));
    v
}

// ---------------------------------------------------------------- configurations

pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    if r.chance(1, 2) {
        return Cfg { sni: r.chance(1, 2).then(|| b"example.com".to_vec()), alpn: r.chance(1, 2).then(|| alpn_list(r)), ..c };
    }
    c.ciphers = *r.pick(&[1, 2, 3, 3]);
    if r.chance(1, 2) {
        let n = *r.pick(&[1, 5, 20, 63, 253]);
        c.sni = Some((0..n).map(|_| b'a' + r.below(26) as u8).collect());
    }
    if r.chance(2, 3) {
        c.alpn = Some(alpn_list(r));
    }
    c
}
pub fn alpn_list(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = *r.pick(&[1, 2, 2, 3, 5, 20]);
    let n = if small() { n.min(2) } else { n };
    for i in 0..n {
        let name = proto_name(r, i);
        v.extend(vec8(&name));
    }
    v
}
fn proto_name(r: &mut Rng, i: usize) -> Vec<u8> {
    match r.below(8) {
        0 => b"h2".to_vec(),
        1 => b"http/1.1".to_vec(),
        2 if !small() => {
            let n = *r.pick(&[1usize, 2, 128, 254, 255]);
            (0..n).map(|_| 1 + r.below(255) as u8).collect()
        },
        _ => format!("p{i}").into_bytes(),
    }
}

// ---------------------------------------------------------------- messages

#[derive(Clone)]
pub struct Sh {
    pub ty: u8,
    pub ver: [u8; 2],
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub cipher: u16,
    pub comp: u8,
    pub exts: Vec<(u16, Vec<u8>)>,
    /// Added to the extension block's length field.
    pub ext_delta: i32,
    pub tail: Vec<u8>,
    pub cut: usize,
}
impl Sh {
    pub fn body(&self) -> Vec<u8> {
        let mut b = self.ver.to_vec();
        b.extend(&self.random);
        b.extend(vec8(&self.sid));
        b.extend(self.cipher.to_be_bytes());
        b.push(self.comp);
        let e: Vec<u8> = self.exts.iter().flat_map(|(t, d)| ext(*t, d)).collect();
        b.extend((e.len() as i32 + self.ext_delta).clamp(0, 65535).to_be_bytes()[2..].to_vec());
        b.extend(e);
        b.extend(&self.tail);
        let n = b.len().saturating_sub(self.cut);
        b.truncate(n);
        b
    }
}
pub fn share_ext(group: u16, key: &[u8]) -> Vec<u8> {
    let mut v = group.to_be_bytes().to_vec();
    v.extend(vec16(key));
    v
}
pub fn good_sh(r: &mut Rng, h: &Hello, sk: usize) -> Sh {
    let cipher = if h.ciphers.is_empty() { 0x1301 } else { *r.pick(&h.ciphers) };
    let mut exts = vec![(43, vec![3, 4]), (51, share_ext(23, &p256::encode(&server_key(sk).pk)))];
    if r.chance(1, 2) {
        exts.swap(0, 1);
    }
    Sh {
        ty: 2,
        ver: *r.pick(&[[3, 3], [3, 3], [3, 3], [3, 4], [3, 1], [0, 0], [255, 255]]),
        random: if r.chance(1, 10) { r.biased_bytes(32) } else { r.bytes(32) },
        sid: vec![],
        cipher,
        comp: 0,
        exts,
        ext_delta: 0,
        tail: vec![],
        cut: 0,
    }
}
/// Shares that are not (or only just) a valid uncompressed point.
pub fn odd_share(r: &mut Rng, sk: usize) -> (Vec<u8>, &'static str) {
    let good = p256::encode(&server_key(sk).pk);
    let mut k = good.clone();
    let p = p256::p_nat();
    match r.below(19) {
        17 => (p256::encode(&Some(refc::special::point(r.below(refc::special::count())))), "special point (valid)"),
        0 => {
            k[0] = *r.pick(&[0, 1, 2, 3, 5, 6, 7, 0x44, 0x84, 255]);
            (k, "point form")
        },
        1 => {
            k.truncate(r.below(65));
            (k, "short point")
        },
        2 => {
            k.truncate(33);
            k[0] = 2 + (good[64] & 1);
            (k, "compressed point")
        },
        3 => {
            let n = r.range(1, 40);
            let t = r.biased_bytes(n);
            k.extend(t);
            (k, "long point")
        },
        4 => {
            k[64] ^= 1;
            (k, "y altered")
        },
        5 => {
            let i = r.range(1, 64);
            k[i] ^= 1 << r.below(8);
            (k, "coordinate bit flipped")
        },
        6 => (vec![4; 65], "constant point"),
        7 => {
            let mut k = vec![0; 65];
            k[0] = 4;
            (k, "zero point")
        },
        8 => (vec![0], "infinity"),
        9 => {
            let mut k = vec![4];
            k.extend(p.to_be(32));
            k.extend(&good[33..]);
            (k, "x = p")
        },
        10 => {
            // x of a small residue, encoded as x + p
            let (x, y) = small_x_point(r);
            let mut k = vec![4];
            k.extend(Nat::from_digits(&x).add(&p).to_be(32));
            k.extend(p256::fe_to_be(&y));
            (k, "x + p of a valid point")
        },
        11 => {
            // y encoded as y + p: only small y fit
            let mut k = vec![4];
            k.extend(&good[1..33]);
            k.extend(vec![0xff; 32]);
            (k, "y = 2^256-1")
        },
        12 => {
            let n = p256::neg(&server_key(sk).pk);
            (p256::encode(&n), "negated point (valid)")
        },
        13 => {
            let (x, y) = small_x_point(r);
            (p256::encode(&Some((x, y))), "small-x point (valid)")
        },
        14 => {
            let q = p256::mul_base(&Nat::from_be(&r.bytes(32)).rem(&p256::n_nat()));
            (p256::encode(&q), "other valid point")
        },
        15 => {
            k[1..33].copy_from_slice(&good[33..]);
            k[33..].copy_from_slice(&good[1..33]);
            (k, "coordinates swapped")
        },
        16 => {
            // on a curve with another b
            let x = p256::fe_from_be(&r.bytes(32));
            let mut k = vec![4];
            k.extend(Nat::from_digits(&x).rem(&p).to_be(32));
            k.extend(&good[33..]);
            (k, "unrelated coordinates")
        },
        _ => (r.biased_bytes(65), "random bytes"),
    }
}
fn small_x_point(r: &mut Rng) -> (p256::Fe, p256::Fe) {
    let mut x = r.below(2000) as u64;
    loop {
        let f = [x, 0, 0, 0];
        if let Some(y) = p256::lift_x(&f) {
            return (f, y);
        }
        x += 1;
    }
}
pub fn mutate_sh(r: &mut Rng, s: &mut Sh, h: &Hello, sk: usize) -> String {
    let share = share_ext(23, &p256::encode(&server_key(sk).pk));
    let put = |s: &mut Sh, t: u16, d: Vec<u8>| {
        for e in s.exts.iter_mut() {
            if e.0 == t {
                e.1 = d.clone();
            }
        }
    };
    match r.below(44) {
        0 => {
            s.ty = *r.pick(&[0, 1, 4, 5, 6, 8, 11, 13, 15, 20, 24, 254, 255]);
            format!("message type {}", s.ty)
        },
        1 => {
            let n = *r.pick(&[1usize, 2, 31, 32]);
            s.sid = r.bytes(n);
            format!("session id of {n}")
        },
        2 => {
            let n = *r.pick(&[33usize, 34, 64, 200, 255]);
            s.sid = r.bytes(n);
            format!("session id of {n}")
        },
        3 => {
            s.cipher = *r.pick(&[0x1302, 0x1304, 0x1305, 0, 0x00ff, 0x0113, 0x0313, 0x1300, 0x1306, 0xc02f, 0xffff, 1, 2, 3]);
            format!("cipher {:#x}", s.cipher)
        },
        4 => {
            s.cipher = if h.ciphers.contains(&0x1301) { 0x1303 } else { 0x1301 };
            format!("cipher {:#x}", s.cipher)
        },
        5 => {
            s.comp = *r.pick(&[1, 64, 255]);
            format!("compression {}", s.comp)
        },
        6 => {
            s.random = tls::HRR_RANDOM.to_vec();
            "retry request random".into()
        },
        7 => {
            s.random = tls::HRR_RANDOM.to_vec();
            s.exts.retain(|e| e.0 != 51);
            s.exts.push((51, vec![0, *r.pick(&[23, 24, 29])]));
            if r.chance(1, 2) {
                s.exts.push((44, vec16(&r.bytes(16))));
            }
            "retry request".into()
        },
        8 => {
            s.random = tls::HRR_RANDOM.to_vec();
            let i = r.below(32);
            s.random[i] ^= 1 << r.below(8);
            "near-retry random (valid)".into()
        },
        9 => {
            s.random[24..].copy_from_slice(b"DOWNGRD\x01");
            "downgrade marker (valid)".into()
        },
        10 => {
            put(s, 43, r.pick(&[vec![3, 3], vec![3, 5], vec![4, 3], vec![0x7f, 28], vec![0, 0], vec![2, 4]]).clone());
            "selected version".into()
        },
        11 => {
            put(s, 43, r.pick(&[vec![], vec![3], vec![3, 4, 0], vec![3, 4, 3, 4], vec![2, 3, 4], vec![4]]).clone());
            "version length".into()
        },
        12 => {
            s.exts.retain(|e| e.0 != 43);
            "no version".into()
        },
        13 => {
            s.exts.retain(|e| e.0 != 51);
            "no share".into()
        },
        14 => {
            s.exts.clear();
            "no extensions".into()
        },
        15 => {
            let e = r.pick(&s.exts).clone();
            let i = r.below(s.exts.len() + 1);
            s.exts.insert(i, e.clone());
            format!("extension {} repeated", e.0)
        },
        16 => {
            let e = r.pick(&s.exts).clone();
            let i = r.below(s.exts.len() + 1);
            let d = if e.0 == 43 { vec![3, *r.pick(&[3u8, 4])] } else { share_ext(23, &p256::encode(&server_key((sk + 1) % POOL_N).pk)) };
            s.exts.insert(i, (e.0, d));
            format!("extension {} given twice", e.0)
        },
        17 | 18 => {
            let t = *r.pick(&[0u16, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 44, 45, 47, 48, 49, 50, 52, 0x0a0a, 0xff01, 0xffff, 0x2b00, 0x3300, 23]);
            let n = *r.pick(&[0, 0, 1, 2, 2, 4, 30]);
            let d = if t == 41 { vec![0, 0] } else { r.bytes(n) };
            let i = r.below(s.exts.len() + 1);
            s.exts.insert(i, (t, d));
            format!("extension {t}")
        },
        19 => {
            let g = *r.pick(&[24u16, 25, 29, 30, 0x100, 0x1700, 0, 0xffff, 0x6399]);
            put(s, 51, share_ext(g, &share[4..]));
            format!("share of group {g}")
        },
        20 => {
            put(s, 51, vec![0, 23]);
            "share without key".into()
        },
        21 => {
            let n = r.below(share.len());
            put(s, 51, share[..n].to_vec());
            format!("share cut to {n}")
        },
        22 => {
            let mut d = share.clone();
            d.extend(r.bytes(r.clone().range(1, 6)));
            put(s, 51, d);
            "bytes after the share".into()
        },
        23 => {
            let mut d = share.clone();
            d.extend(&share);
            put(s, 51, d);
            "two shares".into()
        },
        24 => {
            // the client's form: a list
            put(s, 51, vec16(&share));
            "share list".into()
        },
        25 => {
            let mut d = share.clone();
            let n = *r.pick(&[0u16, 1, 32, 64, 66, 67, 69, 0xff, 0x4100, 0xffff]);
            d[2..4].copy_from_slice(&n.to_be_bytes());
            put(s, 51, d);
            format!("share length {n}")
        },
        26..=30 => {
            let (k, d) = odd_share(r, sk);
            put(s, 51, share_ext(23, &k));
            d.into()
        },
        31 => {
            s.ext_delta = *r.pick(&[-1, 1, -2, 2, 4, -4, 100, -100, -79, 256, 0x7000]);
            format!("extensions length off by {}", s.ext_delta)
        },
        32 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 100]);
            s.tail = r.biased_bytes(n);
            format!("{n} trailing bytes")
        },
        33 => {
            // trailing bytes counted by the extension length: a fragment of an extension
            let n = r.range(1, 3);
            s.tail = r.biased_bytes(n);
            s.ext_delta = n as i32;
            format!("{n} stray bytes in the extensions")
        },
        34 => {
            // an extension whose length overruns
            let t = *r.pick(&[43u16, 51, 0, 0xfafa]);
            let n = *r.pick(&[1u16, 2, 4, 5, 8, 69, 100, 0xffff]);
            let have = r.below(5);
            let mut x = t.to_be_bytes().to_vec();
            x.extend(n.to_be_bytes());
            x.extend(vec![3; have.min(n as usize)]);
            s.ext_delta = x.len() as i32;
            s.tail = x;
            format!("extension {t} overruns")
        },
        35 => {
            s.cut = r.range(1, 120);
            format!("cut by {}", s.cut)
        },
        36 => {
            let n = r.below(60);
            let b = s.body().len();
            s.cut = b.saturating_sub(n);
            format!("cut to {n}")
        },
        37 => {
            s.exts.push((21, vec![0; *r.pick(&[0, 1, 1000, 40000])]));
            "padding extension".into()
        },
        38 => {
            s.ver = [r.u8(), r.u8()];
            "legacy version (valid)".into()
        },
        39 => {
            s.random = r.biased_bytes(32);
            "random (valid)".into()
        },
        _ => {
            // handled by the caller: byte-level mutation
            "bytes".into()
        },
    }
}
/// Byte-level mutation.
pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>) -> String {
    if b.is_empty() {
        b.push(r.u8());
        return "byte added to nothing".into();
    }
    match r.below(12) {
        0 | 1 => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            format!("bit flipped in byte {i}")
        },
        2 => {
            let i = r.below(b.len());
            b[i] = r.u8();
            format!("byte {i} replaced")
        },
        3 => {
            let i = r.below(b.len() + 1);
            let n = r.range(1, 4);
            let x = r.biased_bytes(n);
            b.splice(i..i, x);
            format!("{n} bytes inserted at {i}")
        },
        4 => {
            let i = r.below(b.len());
            let n = r.range(1, 4).min(b.len() - i);
            b.drain(i..i + n);
            format!("{n} bytes removed at {i}")
        },
        5 => {
            let n = r.below(b.len());
            b.truncate(n);
            format!("cut to {n}")
        },
        6 => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0, 255, 1, 127, 128, 254]);
            format!("byte {i} set to {}", b[i])
        },
        7 if b.len() >= 2 => {
            let i = r.below(b.len() - 1);
            let v = *r.pick(&[0u16, 1, 0xff, 0x100, 0x4000, 0x7fff, 0x8000, 0xffff]);
            b[i..i + 2].copy_from_slice(&v.to_be_bytes());
            format!("two bytes at {i} set to {v}")
        },
        8 => {
            let i = r.below(b.len());
            b[i] = b[i].wrapping_add(1);
            format!("byte {i} + 1")
        },
        9 => {
            let i = r.below(b.len());
            b[i] = b[i].wrapping_sub(1);
            format!("byte {i} - 1")
        },
        10 => {
            let i = r.below(b.len());
            let n = r.range(1, 20).min(b.len() - i);
            let x = b[i..i + n].to_vec();
            b.splice(i..i, x);
            format!("{n} bytes doubled at {i}")
        },
        _ => {
            let n = r.range(1, 8);
            let x = r.biased_bytes(n);
            b.extend(x);
            format!("{n} bytes appended")
        },
    }
}

pub fn good_ee(r: &mut Rng, c: &Cfg) -> Vec<(u16, Vec<u8>)> {
    let mut v = vec![];
    if c.sni.is_some() && r.chance(1, 2) {
        v.push((0, vec![]));
    }
    if r.chance(1, 3) {
        let mut g = vec![];
        for _ in 0..r.range(1, 6) {
            g.extend(r.pick(&[23u16, 24, 25, 29, 30, 0x100]).to_be_bytes());
        }
        v.push((10, vec16(&g)));
    }
    let p = c.protos();
    if !p.is_empty() && r.chance(3, 4) {
        let name = r.pick(&p).clone();
        v.push((16, vec16(&vec8(&name))));
    }
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    v
}
pub fn ee_body(e: &[(u16, Vec<u8>)]) -> Vec<u8> {
    vec16(&e.iter().flat_map(|(t, d)| ext(*t, d)).collect::<Vec<u8>>())
}
/// Returns the body and a description.
pub fn mutate_ee(r: &mut Rng, e: &mut Vec<(u16, Vec<u8>)>, c: &Cfg) -> (Vec<u8>, String) {
    let protos = c.protos();
    let alpn = |e: &mut Vec<(u16, Vec<u8>)>, d: Vec<u8>| {
        e.retain(|x| x.0 != 16);
        e.push((16, d));
    };
    let d: String = match r.below(26) {
        0 => {
            alpn(e, vec16(&vec8(b"nosuch")));
            "protocol not offered".into()
        },
        1 => {
            // a prefix, extension or case variant of an offered name
            let mut n = protos.first().cloned().unwrap_or_else(|| b"h2".to_vec());
            match r.below(5) {
                0 => {
                    n.pop();
                },
                1 if n.len() < 255 => n.push(b'x'),
                2 => n[0] ^= 0x20,
                3 => {
                    let i = n.len() - 1;
                    n[i] ^= 1;
                },
                _ => n[0] = 0,
            }
            alpn(e, vec16(&vec8(&n)));
            "protocol nearly offered".into()
        },
        2 => {
            alpn(e, vec16(&vec8(b"")));
            "empty protocol".into()
        },
        3 => {
            let mut l = vec![];
            for _ in 0..2 {
                let n = protos.first().cloned().unwrap_or_else(|| b"h2".to_vec());
                l.extend(vec8(&n));
            }
            alpn(e, vec16(&l));
            "two protocols".into()
        },
        4 => {
            let n = r.below(6);
            alpn(e, r.biased_bytes(n));
            format!("protocol extension of {n} bytes")
        },
        5 => {
            let n = protos.first().cloned().unwrap_or_else(|| b"h2".to_vec());
            let mut d = vec16(&vec8(&n));
            let i = r.below(3);
            d[i] = d[i].wrapping_add(*r.pick(&[1, 255, 2, 128]));
            alpn(e, d);
            "protocol lengths".into()
        },
        6 => {
            // the concatenation of two offered encodings
            let mut n = vec![];
            for p in protos.iter().take(2) {
                if !n.is_empty() {
                    n.push(p.len() as u8);
                }
                n.extend(p);
            }
            n.truncate(255);
            if n.is_empty() {
                n = b"x".to_vec();
            }
            alpn(e, vec16(&vec8(&n)));
            "joined names".into()
        },
        7 => {
            let n = r.bytes(255);
            alpn(e, vec16(&vec8(&n)));
            "255-byte protocol".into()
        },
        8 => {
            if !protos.is_empty() {
                let n = r.pick(&protos).clone();
                let mut d = vec16(&vec8(&n));
                let k = r.range(1, 5);
                let t = r.biased_bytes(k);
                d.extend(t);
                alpn(e, d);
            } else {
                alpn(e, vec16(&vec8(b"h2")));
            }
            "bytes after the protocol, or unsolicited".into()
        },
        9 => {
            e.retain(|x| x.0 != 0);
            e.insert(0, (0, vec![]));
            "server name (solicited or not)".into()
        },
        10 | 11 if !e.is_empty() => {
            let x = r.pick(e).clone();
            let i = r.below(e.len() + 1);
            e.insert(i, x.clone());
            format!("extension {} repeated", x.0)
        },
        12 => {
            e.push((10, vec16(&[0, 23])));
            e.push((10, vec16(&[0, 24])));
            "groups twice".into()
        },
        13 if protos.len() > 1 => {
            e.retain(|x| x.0 != 16);
            e.push((16, vec16(&vec8(&protos[0]))));
            e.push((16, vec16(&vec8(&protos[1]))));
            "protocol twice".into()
        },
        14 | 15 => {
            let t = *r.pick(&[1u16, 5, 13, 14, 15, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51, 11, 23, 0x0a0a, 0xff01, 0xffff, 0x1000, 0x0a00]);
            let n = *r.pick(&[0, 0, 1, 2, 10]);
            let i = r.below(e.len() + 1);
            let d = r.bytes(n);
            e.insert(i, (t, d));
            format!("extension {t}")
        },
        16 => {
            let n = r.range(1, 9);
            let d = r.biased_bytes(n);
            e.retain(|x| x.0 != 10);
            e.push((10, d));
            "odd groups".into()
        },
        17 => {
            // a large but legal hint
            let n = *r.pick(&[2usize, 200, 8000, 16376, 32000]);
            e.retain(|x| x.0 != 10);
            e.push((10, vec16(&vec![0x1d; 2 * n.min(32000)])));
            "large groups hint".into()
        },
        18 => {
            let mut b = ee_body(e);
            let i = r.below(2);
            b[i] = b[i].wrapping_add(*r.pick(&[1, 255, 4]));
            return (b, "block length".into());
        },
        19 => {
            let mut b = ee_body(e);
            let n = r.range(1, 6);
            let t = r.biased_bytes(n);
            b.extend(t);
            return (b, "trailing bytes".into());
        },
        20 => {
            // stray bytes inside the block
            let mut x: Vec<u8> = e.iter().flat_map(|(t, d)| ext(*t, d)).collect();
            let n = r.range(1, 3);
            let t = r.biased_bytes(n);
            x.extend(t);
            return (vec16(&x), "stray bytes in the block".into());
        },
        21 => {
            let mut x: Vec<u8> = e.iter().flat_map(|(t, d)| ext(*t, d)).collect();
            x.extend([0, *r.pick(&[0u8, 10, 16]), 0, *r.pick(&[1u8, 2, 4, 5, 255]), 0][..4 + r.below(2)].to_vec());
            return (vec16(&x), "extension overruns".into());
        },
        22 => {
            let b = ee_body(e);
            let n = r.below(b.len());
            return (b[..n].to_vec(), format!("cut to {n}"));
        },
        _ => {
            let mut b = ee_body(e);
            let d = mutate_bytes(r, &mut b);
            return (b, d);
        },
    };
    (ee_body(e), d)
}

// ---------------------------------------------------------------- certificates

#[derive(Clone, Debug)]
pub enum Kind {
    Prim(Vec<u8>),
    Cons(Vec<Node>),
    /// Bytes, then nested elements (a bit string around DER).
    Wrap(Vec<u8>, Vec<Node>),
}
#[derive(Clone, Debug)]
pub struct Node {
    tag: u8,
    kind: Kind,
    /// 0 minimal; 1.. that many extra length bytes; 200 indefinite; other: announced length differs.
    long: usize,
    delta: i64,
    tail: Vec<u8>,
}
fn prim(tag: u8, b: &[u8]) -> Node {
    Node { tag, kind: Kind::Prim(b.to_vec()), long: 0, delta: 0, tail: vec![] }
}
fn cons(tag: u8, c: Vec<Node>) -> Node {
    Node { tag, kind: Kind::Cons(c), long: 0, delta: 0, tail: vec![] }
}
pub fn encode(n: &Node) -> Vec<u8> {
    let mut c = match &n.kind {
        Kind::Prim(b) => b.clone(),
        Kind::Cons(v) => v.iter().flat_map(encode).collect(),
        Kind::Wrap(p, v) => p.iter().copied().chain(v.iter().flat_map(encode)).collect(),
    };
    c.extend(&n.tail);
    let mut o = vec![n.tag];
    let len = (c.len() as i64 + n.delta).max(0) as u64;
    let mut lb: Vec<u8> = len.to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
    if n.long == 200 {
        o.push(0x80);
        o.extend(c);
        o.extend([0, 0]);
        return o;
    }
    if n.long == 0 && len < 128 {
        o.push(len as u8);
    } else {
        for _ in 0..n.long.saturating_sub((len < 128) as usize) {
            lb.insert(0, 0);
        }
        if lb.is_empty() {
            lb.push(0);
        }
        o.push(0x80 | lb.len() as u8);
        o.extend(lb);
    }
    o.extend(c);
    o
}
pub fn int_bytes(v: &Nat) -> Vec<u8> {
    let mut b = v.to_be((v.bits() / 8) + 1);
    while b.len() > 1 && b[0] == 0 && b[1] < 0x80 {
        b.remove(0);
    }
    b
}
fn oid_ecdsa() -> Node {
    cons(0x30, vec![prim(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2])])
}
fn name(r: &mut Rng) -> Node {
    const TYPES: [&[u8]; 6] = [
        &[0x55, 4, 3],
        &[0x55, 4, 6],
        &[0x55, 4, 10],
        &[0x55, 4, 11],
        &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1],
        &[9, 0x92, 0x26, 0x89, 0x93, 0xf2, 0x2c, 0x64, 1, 25],
    ];
    let mut v = vec![];
    let long = r.chance(1, 12);
    for _ in 0..r.range(1, if long { 12 } else { 3 }) {
        let mut set = vec![];
        for _ in 0..if r.chance(1, 12) { r.range(2, 3) } else { 1 } {
            let n = if long { *r.pick(&[0usize, 2, 64, 117, 127, 128, 200, 255, 256, 300]) } else { *r.pick(&[1usize, 3, 10, 40, 64]) };
            let st = *r.pick(&[0x0cu8, 0x0c, 0x13, 0x13, 0x16, 0x14, 0x1e]);
            let val: Vec<u8> = match st {
                0x0c | 0x1e if r.chance(1, 4) => r.bytes(n / 2 * 2),
                _ => (0..n).map(|_| b'a' + r.below(26) as u8).collect(),
            };
            set.push(cons(0x30, vec![prim(6, *r.pick(&TYPES)), prim(st, &val)]));
        }
        v.push(cons(0x31, set));
    }
    cons(0x30, v)
}
fn time(r: &mut Rng) -> Node {
    let s = if r.chance(1, 12) {
        (*r.pick(&["500101000000Z", "991231235959Z", "000229235959Z", "99991231235959Z", "19500101000000Z", "20500101000000Z"])).to_string()
    } else {
        let (c, y) = if r.chance(1, 2) { ("", r.below(100)) } else { ("20", r.below(100)) };
        format!("{c}{y:02}{:02}{:02}{:02}{:02}{:02}Z", r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60))
    };
    prim(if s.len() == 13 { 0x17 } else { 0x18 }, s.as_bytes())
}
/// A scalar in 1..n with biased size.
pub fn sig_scalar(r: &mut Rng) -> Nat {
    let n = p256::n_nat();
    let one = Nat::one();
    match r.below(12) {
        0 => one,
        1 => n.sub(&one),
        2 => Nat::from_u64(r.u64() | 1),
        3 => Nat::from_u64(*r.pick(&[0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000])),
        4 => Nat::pow2(r.below(255)),
        5 => Nat::pow2(r.range(1, 255)).sub(&one),
        6 => {
            let k = r.range(1, 31);
            let b = r.bytes(k);
            let v = Nat::from_be(&b);
            if v.is_zero() {
                one
            } else {
                v
            }
        },
        _ => {
            let v = Nat::from_be(&r.bytes(32)).rem(&n);
            if v.is_zero() {
                one
            } else {
                v
            }
        },
    }
}
pub fn cert_node(r: &mut Rng) -> Node {
    let n = *r.pick(&[1usize, 2, 8, 16, 19, 20]);
    let mut serial = r.bytes(n);
    serial[0] = if n > 1 && r.chance(1, 4) { 0 } else { (serial[0] & 0x7f) | 1 };
    if n > 1 && serial[0] == 0 {
        serial[1] |= 0x80;
    }
    const EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
    let bits = |r: &mut Rng, first: &[u8], n: usize| {
        let mut b = vec![0];
        b.extend(first);
        b.extend(r.bytes(n));
        prim(3, &b)
    };
    // whose key it is that the certificate certifies has nothing to do with how it is signed
    let spki = match r.below(12) {
        0 => vec![cons(0x30, vec![prim(6, EC), prim(6, &[0x2b, 0x81, 4, 0, 0x22])]), bits(r, &[4], 96)],
        1 => vec![cons(0x30, vec![prim(6, &[0x2b, 0x65, 0x70])]), bits(r, &[], 32)],
        2 => {
            let n = *r.pick(&[128usize, 256, 512]);
            let mut m = r.bytes(n);
            m[0] |= 0x80;
            m.insert(0, 0);
            let key = cons(0x30, vec![prim(2, &m), prim(2, &[1, 0, 1])]);
            vec![
                cons(0x30, vec![prim(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), prim(5, &[])]),
                Node { tag: 3, kind: Kind::Wrap(vec![0], vec![key]), long: 0, delta: 0, tail: vec![] },
            ]
        },
        3 => vec![cons(0x30, vec![prim(6, EC), prim(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7])]), bits(r, &[2], 32)],
        _ => vec![cons(0x30, vec![prim(6, EC), prim(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7])]), bits(r, &[4], 64)],
    };
    let mut tbs = vec![cons(0xa0, vec![prim(2, &[2])]), prim(2, &serial), oid_ecdsa(), name(r), cons(0x30, vec![time(r), time(r)]), name(r), cons(0x30, spki)];
    for tag in [0x81, 0x82] {
        if r.chance(1, 8) {
            let n = *r.pick(&[0usize, 2, 2, 20, 126, 127, 128, 300]);
            tbs.push({
                let mut b = vec![0];
                b.extend(r.bytes(n));
                prim(tag, &b)
            });
        }
    }
    if r.chance(5, 6) {
        let mut ex = vec![];
        let most = if r.chance(1, 16) { 24 } else { 5 };
        for _ in 0..r.range(1, most) {
            let id = *r.pick(&[14u8, 15, 17, 19, 31, 35, 37]);
            let n = *r.pick(&[0usize, 2, 20, 100, 130, 300, 1300]);
            let oid: &[u8] = match r.below(8) {
                0 => &[0x2b, 6, 1, 5, 5, 7, 1, 1],
                1 => &[0x2b, 6, 1, 4, 1, 0xd6, 0x79, 2, 4, 2],
                _ => &[0x55, 0x1d, id],
            };
            let mut e = vec![prim(6, oid)];
            if r.chance(1, 3) {
                e.push(prim(1, &[0xff]));
            }
            e.push(prim(4, &r.bytes(n)));
            ex.push(cons(0x30, e));
        }
        tbs.push(cons(0xa3, vec![cons(0x30, ex)]));
    }
    let sig = cons(0x30, vec![prim(2, &int_bytes(&sig_scalar(r))), prim(2, &int_bytes(&sig_scalar(r)))]);
    cons(
        0x30,
        vec![
            cons(0x30, tbs),
            oid_ecdsa(),
            Node { tag: 3, kind: Kind::Wrap(vec![0], vec![sig]), long: 0, delta: 0, tail: vec![] },
        ],
    )
}
fn count(n: &Node) -> usize {
    1 + match &n.kind {
        Kind::Prim(_) => 0,
        Kind::Cons(v) | Kind::Wrap(_, v) => v.iter().map(count).sum(),
    }
}
fn nth<'a>(n: &'a mut Node, k: &mut usize) -> Option<&'a mut Node> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    match &mut n.kind {
        Kind::Prim(_) => None,
        Kind::Cons(v) | Kind::Wrap(_, v) => {
            for c in v {
                if let Some(x) = nth(c, k) {
                    return Some(x);
                }
            }
            None
        },
    }
}
/// A path to a node: child indices.
fn at<'a>(n: &'a mut Node, path: &[usize]) -> Option<&'a mut Node> {
    let mut n = n;
    for &i in path {
        n = match &mut n.kind {
            Kind::Cons(v) | Kind::Wrap(_, v) if i < v.len() => &mut v[i],
            _ => return None,
        };
    }
    Some(n)
}
pub fn mutate_cert(r: &mut Rng, n: &mut Node) -> String {
    // half of the mutations hit the structure the property is about, half any element
    let paths: [&[usize]; 24] = [
        &[],
        &[0],
        &[1],
        &[2],
        &[0, 0],
        &[0, 0, 0],
        &[0, 1],
        &[0, 2],
        &[0, 3],
        &[0, 4],
        &[0, 4, 0],
        &[0, 4, 1],
        &[0, 5],
        &[0, 6],
        &[0, 7],
        &[1, 0],
        &[2, 0],
        &[2, 0, 0],
        &[2, 0, 1],
        &[2, 0, 0],
        &[2, 0, 1],
        &[2],
        &[1, 0],
        &[0, 0, 0],
    ];
    let p = *r.pick(&paths);
    let (x, place) = if r.chance(2, 3) && at(n, p).is_some() {
        (at(n, p).unwrap(), format!("{p:?}"))
    } else {
        let k = r.below(count(n));
        let mut i = k;
        (nth(n, &mut i).unwrap(), format!("#{k}"))
    };
    let d = match r.below(23) {
        0 => {
            x.tag = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 0x0c, 0x10, 0x17, 0x18, 0x23, 0x30, 0x31, 0x80, 0xa0, 0xa1, 0xa3, 0x1f, 0x3f, 0xbf, 0xff]);
            format!("tag {:#x}", x.tag)
        },
        1 => {
            x.tag ^= 1 << r.below(8);
            format!("tag {:#x}", x.tag)
        },
        2 => {
            x.long = *r.pick(&[1, 2, 3]);
            "longer length".into()
        },
        3 => {
            x.long = 200;
            "indefinite length".into()
        },
        4 | 5 => {
            x.delta = *r.pick(&[1, -1, 2, -2, 10, 100, 1000, 70000, -1000, 1 << 24, 0xffff_ffff, 1 << 33]);
            format!("length off by {}", x.delta)
        },
        6 => {
            let k = r.range(1, 4);
            x.tail = r.biased_bytes(k);
            "bytes appended inside".into()
        },
        7 => {
            x.tail = vec![5, 0];
            "NULL appended".into()
        },
        8 => {
            x.kind = Kind::Prim(vec![]);
            "emptied".into()
        },
        9 | 10 => match &mut x.kind {
            Kind::Prim(b) => {
                let d = mutate_bytes(r, b);
                d
            },
            Kind::Cons(v) | Kind::Wrap(_, v) if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
                format!("child {i} removed")
            },
            _ => "nothing".into(),
        },
        11 => match &mut x.kind {
            Kind::Prim(b) => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
                format!("contents cut to {k}")
            },
            Kind::Cons(v) | Kind::Wrap(_, v) if !v.is_empty() => {
                let i = r.below(v.len());
                let c = v[i].clone();
                v.insert(i, c);
                format!("child {i} doubled")
            },
            _ => "nothing".into(),
        },
        12 => match &mut x.kind {
            Kind::Cons(v) | Kind::Wrap(_, v) if v.len() > 1 => {
                let i = r.below(v.len() - 1);
                v.swap(i, i + 1);
                format!("children {i} swapped")
            },
            Kind::Prim(b) if !b.is_empty() => {
                b[0] ^= 0x80;
                "sign flipped".into()
            },
            _ => "nothing".into(),
        },
        13 => match &mut x.kind {
            Kind::Cons(v) | Kind::Wrap(_, v) => {
                let k = r.below(v.len() + 1);
                v.truncate(k);
                format!("children cut to {k}")
            },
            _ => "nothing".into(),
        },
        14 => match &mut x.kind {
            Kind::Wrap(p, _) => {
                *p = r.pick(&[vec![], vec![1], vec![7], vec![255], vec![0, 0], vec![8]]).clone();
                format!("bit string prefix {p:?}")
            },
            Kind::Prim(b) if x.tag == 2 => {
                // an integer outside the field
                let n = p256::n_nat();
                let v = match r.below(8) {
                    0 => n,
                    1 => n.add(&Nat::one()),
                    2 => Nat::pow2(256).sub(&Nat::one()),
                    3 => Nat::pow2(256),
                    4 => Nat::pow2(264).add(&Nat::from_u64(5)),
                    5 => Nat::zero(),
                    6 => p256::p_nat(),
                    _ => n.add(&Nat::from_u64(r.u64())),
                };
                *b = int_bytes(&v);
                "integer out of range".into()
            },
            Kind::Prim(b) => {
                b.insert(0, 0);
                "zero prepended".into()
            },
            _ => "nothing".into(),
        },
        15 => match &mut x.kind {
            Kind::Prim(b) if x.tag == 2 => {
                b.insert(0, 0);
                "integer zero-extended".into()
            },
            Kind::Prim(b) if x.tag == 6 => {
                *b = r
                    .pick(&[
                        vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 1],
                        vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3],
                        vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 4],
                        vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3],
                        vec![0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2, 1],
                        vec![0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 11],
                        vec![0x2b, 0x65, 0x70],
                    ])
                    .clone();
                "other algorithm".into()
            },
            _ => "nothing".into(),
        },
        16 => match &mut x.kind {
            Kind::Prim(b) if x.tag == 2 => {
                *b = vec![*r.pick(&[0, 1, 2, 3, 4, 127, 128, 254, 255])];
                format!("integer {}", b[0])
            },
            _ => {
                x.tag = 0x30;
                "made a sequence".into()
            },
        },
        17 => match &mut x.kind {
            Kind::Cons(v) if v.len() > 1 => {
                v.push(prim(5, &[]));
                "NULL child added".into()
            },
            _ => "nothing".into(),
        },
        // an element cut off, with the lengths around it agreeing
        18 | 19 => match &mut x.kind {
            Kind::Cons(v) | Kind::Wrap(_, v) if !v.is_empty() => {
                let k = r.below(v.len());
                let e = encode(&v[k]);
                let near = r.chance(2, 3);
                let m = r.below(if near { e.len().min(7) } else { e.len() });
                v.truncate(k);
                x.tail = e[..m].to_vec();
                format!("child {k} cut to {m} bytes")
            },
            _ => "nothing".into(),
        },
        20 => {
            let n = *r.pick(&[1usize, 2, 2, 3, 4, 5, 8, 126, 127]);
            let m = r.below(n.min(6) + 1);
            let tag = match &mut x.kind {
                Kind::Cons(v) | Kind::Wrap(_, v) if !v.is_empty() => {
                    let k = r.below(v.len());
                    let t = v[k].tag;
                    v.truncate(k);
                    t
                },
                k => {
                    *k = Kind::Prim(vec![]);
                    0x30
                },
            };
            x.tail = vec![tag, 0x80 | n as u8];
            x.tail.extend(r.biased_bytes(m));
            format!("ends after {m} of {n} length bytes")
        },
        _ => match &mut x.kind {
            Kind::Prim(b) if x.tag == 2 => {
                let k = *r.pick(&[0usize, 1, 2, 16, 31, 32, 33, 34, 64, 130]);
                *b = r.bytes(k);
                format!("integer of {k} bytes")
            },
            _ => {
                x.delta = *r.pick(&[1, -1, 3]);
                format!("length off by {}", x.delta)
            },
        },
    };
    format!("{place} {d}")
}
pub struct CertMsg {
    pub ctx: Vec<u8>,
    pub certs: Vec<(Vec<u8>, Vec<u8>)>,
    pub tail: Vec<u8>,
    pub list_delta: i32,
}
impl CertMsg {
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec8(&self.ctx);
        let l: Vec<u8> = self
            .certs
            .iter()
            .flat_map(|(c, e)| {
                let mut v = vec24(c);
                v.extend(vec16(e));
                v
            })
            .collect();
        b.extend(((l.len() as i32 + self.list_delta).max(0) as u32).to_be_bytes()[1..].to_vec());
        b.extend(l);
        b.extend(&self.tail);
        b
    }
}
pub fn good_certs(r: &mut Rng) -> CertMsg {
    let mut n = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
    if r.chance(1, 30) {
        n = if small() { 8 } else { *r.pick(&[8, 9, 10, 11, 12, 16, 17, 20, 33, 50]) };
    }
    CertMsg { ctx: vec![], certs: (0..n).map(|_| (encode(&cert_node(r)), vec![])).collect(), tail: vec![], list_delta: 0 }
}
/// Certificate bodies of every kind.
pub fn odd_certs(r: &mut Rng) -> (Vec<u8>, String) {
    let mut m = good_certs(r);
    match r.below(20) {
        0 => {
            let k = *r.pick(&[1usize, 2, 32, 255]);
            m.ctx = r.bytes(k);
            (m.body(), "request context".into())
        },
        1 => {
            m.certs.clear();
            (m.body(), "empty chain".into())
        },
        2 => {
            let k = r.range(1, 5);
            m.tail = r.biased_bytes(k);
            (m.body(), "trailing bytes".into())
        },
        3 => {
            m.list_delta = *r.pick(&[1, -1, 5, -5, 256, -256, 65536]);
            (m.body(), format!("list length off by {}", m.list_delta))
        },
        4 => {
            let k = r.range(1, 6);
            m.tail = r.biased_bytes(k);
            m.list_delta = k as i32;
            (m.body(), "stray bytes in the list".into())
        },
        5 => {
            let i = r.below(m.certs.len());
            m.certs[i].0.clear();
            (m.body(), "empty certificate".into())
        },
        6 => {
            let i = r.below(m.certs.len());
            let k = r.range(1, 4);
            let t = r.biased_bytes(k);
            m.certs[i].0.extend(t);
            (m.body(), "bytes after a certificate".into())
        },
        7 => {
            let mut b = m.body();
            let k = r.below(b.len());
            b.truncate(k);
            (b, format!("message cut to {k}"))
        },
        8 => {
            let k = r.range(1, 8);
            m.certs[0].1 = r.biased_bytes(k);
            (m.body(), "entry extensions".into())
        },
        9 => {
            let k = r.below(5);
            (r.biased_bytes(k), format!("{k} bytes"))
        },
        10 => {
            let mut b = m.body();
            let i = r.below(8.min(b.len()));
            b[i] = b[i].wrapping_add(*r.pick(&[1, 255, 128]));
            (b, format!("header byte {i}"))
        },
        11 => {
            let mut b = m.body();
            let d = mutate_bytes(r, &mut b);
            (b, d)
        },
        _ => {
            let i = r.below(m.certs.len());
            let mut n = cert_node(r);
            let mut d = mutate_cert(r, &mut n);
            if r.chance(1, 8) {
                d = format!("{d}; {}", mutate_cert(r, &mut n));
            }
            m.certs[i].0 = encode(&n);
            (m.body(), format!("certificate {i} of {}: {d}", m.certs.len()))
        },
    }
}

// ---------------------------------------------------------------- flights

/// What the records of a flight look like before they are put on the wire.
#[derive(Clone)]
pub enum R {
    /// Plaintext record.
    P(u8, [u8; 2], Vec<u8>),
    /// Protected record: content type, content, padding.
    E(u8, Vec<u8>, usize),
    /// Protected record with arbitrary inner bytes and header version.
    I(Vec<u8>, [u8; 2]),
    /// Anything.
    Raw(Vec<u8>),
}
/// How often each part of a flight is disturbed, out of 100.
#[derive(Clone, Copy, Default)]
pub struct Focus {
    pub sh: usize,
    pub ee: usize,
    pub cert: usize,
    pub order: usize,
    pub records: usize,
    pub alert: usize,
    pub ccs: usize,
    pub sizes: usize,
    pub wire: usize,
    pub cut: usize,
    pub point: usize,
}
pub struct Built {
    pub bytes: Vec<u8>,
    pub desc: String,
    /// (client, server) keys as the server sees them after the flight.
    pub keys: Option<(Keys, Keys)>,
    pub sk: usize,
    pub records: usize,
}

/// Splits handshake bytes over records.
fn chop(r: &mut Rng, b: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut b = b;
    let style = r.below(6);
    let style = if small() { style / 3 * 4 } else { style };
    while !b.is_empty() {
        let n = match style {
            0 | 1 => max,
            2 => r.range(1, 5),
            3 => r.range(1, 100),
            4 => {
                if v.is_empty() {
                    r.range(1, 4)
                } else {
                    max
                }
            },
            _ => r.range(1, max),
        };
        let n = n.clamp(1, max).min(b.len()).max(b.len().min(1 + b.len() / 400));
        v.push(b[..n].to_vec());
        b = &b[n..];
    }
    v
}
fn padding(r: &mut Rng, content: usize) -> usize {
    let room = (1usize << 14).saturating_sub(content);
    match r.below(6) {
        0..=2 => 0,
        3 => r.below(room.min(20) + 1),
        4 => r.below(room.min(600) + 1),
        _ => {
            if r.chance(1, 10) {
                room
            } else if r.chance(1, 60) {
                // as much as the record can hold
                ((1usize << 14) + 256 - 17).saturating_sub(content)
            } else {
                r.below(room.min(64) + 1)
            }
        },
    }
}
fn ccs() -> R {
    R::P(20, [3, 3], vec![1])
}
fn odd_ccs(r: &mut Rng) -> R {
    R::P(20, [3, 3], r.pick(&[vec![0], vec![2], vec![1, 1], vec![], vec![1, 0], vec![255], vec![1, 2, 3]]).clone())
}
fn alert_code(r: &mut Rng) -> u8 {
    if r.chance(2, 3) {
        *r.pick(&crate::model::ALERTS) as u8
    } else {
        r.u8()
    }
}
fn alert_body(r: &mut Rng) -> Vec<u8> {
    vec![*r.pick(&[1, 2, 2, 2, 0, 3, 255]), alert_code(r)]
}
fn odd_alert(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 3, 4, 4, 100]);
    let mut b = r.biased_bytes(n);
    if n >= 2 {
        b[0] = 2;
        b[1] = alert_code(r);
    }
    b
}

pub fn build(seed: u64, f: Focus, c: &Cfg, h: &Hello) -> Built {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut desc = vec![];
    let sk = r.below(if small() { 4 } else { POOL_N });
    let hit = |r: &mut Rng, p: usize| r.chance(p, 100);

    // ---- plaintext part
    let mut sh = good_sh(r, h, sk);
    let mut body = None;
    if hit(r, f.sh) {
        let d = mutate_sh(r, &mut sh, h, sk);
        if d == "bytes" {
            let mut b = sh.body();
            desc.push(format!("ServerHello: {}", mutate_bytes(r, &mut b)));
            body = Some(b);
        } else {
            desc.push(format!("ServerHello: {d}"));
        }
    }
    if hit(r, f.point) {
        let (k, d) = odd_share(r, sk);
        for e in sh.exts.iter_mut() {
            if e.0 == 51 {
                e.1 = share_ext(23, &k);
            }
        }
        desc.push(format!("share: {d}"));
    }
    let body = body.unwrap_or_else(|| sh.body());
    let mut msg = handshake(sh.ty, &body);
    if hit(r, f.sh / 8) {
        let k = r.range(1, 3);
        msg[k] = msg[k].wrapping_add(*r.pick(&[1u8, 255, 2, 0x80]));
        desc.push(format!("ServerHello length byte {k} altered"));
    }
    let mut plain: Vec<u8> = msg.clone();
    let mut lead = vec![];
    if hit(r, f.order) {
        match r.below(12) {
            0 => {
                plain = vec![];
                desc.push("no ServerHello".into());
            },
            1 => {
                plain.extend(&msg);
                desc.push("ServerHello twice".into());
            },
            2 => {
                let t = *r.pick(&[0, 1, 4, 5, 8, 11, 13, 15, 20, 24, 254, 99]);
                let k = *r.pick(&[0usize, 1, 4, 40, 300]);
                let mut v = handshake(t, &r.biased_bytes(k));
                v.extend(&plain);
                plain = v;
                desc.push(format!("message of type {t} first"));
            },
            3 => {
                let k = r.range(1, 10);
                let t = r.biased_bytes(k);
                plain.extend(t);
                desc.push(format!("{k} bytes after the ServerHello"));
            },
            4 => {
                plain.extend(handshake(8, &ee_body(&[])));
                desc.push("plaintext EncryptedExtensions after the ServerHello".into());
            },
            5 => {
                plain[0] = *r.pick(&[1u8, 8, 11, 20]);
                desc.push("ServerHello of another type".into());
            },
            6 => {
                lead.push(R::P(22, [3, 3], vec![]));
                desc.push("empty handshake record".into());
            },
            7 => {
                plain.extend(handshake(*r.pick(&[8, 0, 24, 20]), b""));
                desc.push("empty message after the ServerHello".into());
            },
            _ => (),
        }
    }
    let mut p: Vec<R> = lead;
    let pv = *r.pick(&[[3, 3], [3, 3], [3, 3], [3, 1], [3, 4], [0, 0]]);
    for k in chop(r, &plain, 1 << 14) {
        p.push(R::P(22, pv, k));
    }
    // ---- protected part
    let suite = Suite::from_code(sh.cipher).unwrap_or(Suite::Aes128Gcm);
    let secret = sh
        .exts
        .iter()
        .rev()
        .find(|e| e.0 == 51 && e.1.len() > 4)
        .and_then(|e| {
            let share = p256::encode(&server_key(sk).pk);
            if e.1[4..] == share[..] {
                return dh_with(&client_share(h), sk);
            }
            // the negated point has the same shared x coordinate
            if e.1.len() == 69 && e.1[4..37] == share[..33] {
                return dh_with(&client_share(h), sk);
            }
            None
        })
        .or_else(|| dh_with(&client_share(h), sk))
        .unwrap_or([0; 32]);
    let mut tr = h.msg.clone();
    tr.extend(&msg);
    let (ck, mut skeys) = tls::handshake_keys(suite, &secret, &tr);

    let mut ee = good_ee(r, c);
    let ee_b = if hit(r, f.ee) {
        let (b, d) = mutate_ee(r, &mut ee, c);
        desc.push(format!("EncryptedExtensions: {d}"));
        b
    } else {
        ee_body(&ee)
    };
    let cert_b = if hit(r, f.cert) {
        let (b, d) = odd_certs(r);
        desc.push(format!("Certificate: {d}"));
        b
    } else {
        good_certs(r).body()
    };
    let mut msgs = vec![handshake(8, &ee_b), handshake(11, &cert_b)];
    if hit(r, f.sizes) {
        let d = sizes(r, &mut msgs, c);
        desc.push(d);
    }
    if hit(r, f.order) {
        match r.below(16) {
            0 => {
                msgs.remove(0);
                desc.push("no EncryptedExtensions".into());
            },
            1 => {
                msgs.swap(0, 1);
                desc.push("Certificate before EncryptedExtensions".into());
            },
            2 => {
                let m = msgs[0].clone();
                msgs.insert(0, m);
                desc.push("EncryptedExtensions twice".into());
            },
            3 => {
                let m = handshake(13, &[0, 0, 8, 0, 13, 0, 4, 0, 2, 4, 3]);
                msgs.insert(1, m);
                desc.push("CertificateRequest".into());
            },
            4 => {
                let t = *r.pick(&[0u8, 1, 2, 4, 5, 6, 12, 14, 15, 20, 22, 24, 25, 254, 255]);
                let k = *r.pick(&[0usize, 1, 32, 200]);
                let i = r.below(2);
                let b = r.biased_bytes(k);
                msgs.insert(i, handshake(t, &b));
                desc.push(format!("message of type {t} at {i}"));
            },
            5 => {
                msgs[0] = msg.clone();
                desc.push("ServerHello again, protected".into());
            },
            6 => {
                let i = r.below(msgs.len());
                msgs[i][0] = *r.pick(&[0u8, 1, 2, 4, 8, 11, 13, 15, 20, 24, 25, 254]);
                desc.push(format!("message {i} of type {}", msgs[i][0]));
            },
            7 => {
                let i = r.below(msgs.len());
                msgs.truncate(i);
                desc.push(format!("{i} protected messages"));
            },
            8 => {
                let i = r.below(msgs.len());
                let k = r.range(1, 3);
                msgs[i][k] = msgs[i][k].wrapping_add(*r.pick(&[1u8, 255, 2, 0x80]));
                desc.push(format!("length byte {k} of message {i} altered"));
            },
            9 => {
                let i = r.below(msgs.len());
                msgs[i] = handshake(msgs[i][0], b"");
                desc.push(format!("message {i} empty"));
            },
            10 => {
                let i = r.below(msgs.len());
                let n: u32 = *r.pick(&[0x20001, 0x20004, 0x30000, 0xffffff, 0x800000, 0x1ffff, 0x20000, 0x4001, 0x1fffc, 0x1fffd]);
                msgs[i][1..4].copy_from_slice(&n.to_be_bytes()[1..]);
                desc.push(format!("message {i} announces {n:#x} bytes"));
            },
            _ => (),
        }
    }
    let mut q: Vec<R> = vec![];
    let joined: Vec<u8> = msgs.concat();
    if r.chance(1, 2) {
        for k in chop(r, &joined, 1 << 14) {
            let pad = padding(r, k.len());
            q.push(R::E(22, k, pad));
        }
    } else {
        for m in &msgs {
            for k in chop(r, m, 1 << 14) {
                let pad = padding(r, k.len());
                q.push(R::E(22, k, pad));
            }
        }
    }
    // ---- disturbances between records
    if hit(r, f.alert) {
        let early = r.chance(1, 3);
        let odd = r.chance(1, 4);
        let b = if odd { odd_alert(r) } else { alert_body(r) };
        desc.push(format!("{} alert {}", if early { "plaintext" } else { "protected" }, refc::hex(&b)));
        if early {
            let i = if r.chance(1, 2) { 0 } else { r.below(p.len() + 1) };
            p.insert(i, R::P(21, [3, 3], b));
        } else {
            let i = if r.chance(1, 4) { 0 } else { r.below(q.len() + 1) };
            let pad = padding(r, 2);
            let x = if r.chance(1, 8) { R::P(21, [3, 3], b) } else { R::E(21, b, pad) };
            q.insert(i, x);
        }
    }
    if hit(r, f.ccs) {
        let n = *r.pick(&[1, 1, 2, 3, 10]);
        for _ in 0..n {
            let odd = r.chance(1, 8);
            let x = if odd { odd_ccs(r) } else { ccs() };
            if r.chance(1, 3) {
                let i = if r.chance(2, 3) { 0 } else { r.below(p.len() + 1) };
                p.insert(i, x);
            } else if r.chance(1, 10) {
                let i = r.below(q.len() + 1);
                q.insert(i, R::E(20, vec![1], 0));
            } else {
                let i = if r.chance(2, 3) { 0 } else { r.below(q.len() + 1) };
                q.insert(i, x);
            }
        }
        desc.push(format!("{n} change-cipher-spec"));
    } else if r.chance(1, 4) {
        q.insert(0, ccs());
    }
    if hit(r, f.records) {
        let k = r.below(17);
        match k {
            0 => {
                let t = *r.pick(&[0u8, 19, 23, 24, 25, 255, 72]);
                let n = *r.pick(&[0usize, 1, 2, 16, 17, 18, 100, 16384]);
                let i = r.below(p.len() + 1);
                let b = r.biased_bytes(n);
                p.insert(i, R::P(t, [3, 3], b));
                desc.push(format!("plaintext record of type {t} and {n} bytes"));
            },
            1 => {
                let t = *r.pick(&[0u8, 19, 21, 22, 24, 25, 255]);
                let n = *r.pick(&[0usize, 1, 2, 4, 16, 17, 18, 100]);
                let i = r.below(q.len() + 1);
                let mut b = r.biased_bytes(n);
                if t == 22 && n >= 4 {
                    b = handshake(*r.pick(&[8, 11]), &ee_body(&[]));
                }
                q.insert(i, R::P(t, [3, 3], b));
                desc.push(format!("plaintext record of type {t} among protected ones"));
            },
            2 => {
                let n = r.below(17);
                let i = r.below(q.len() + 1);
                let b = r.bytes(n);
                q.insert(i, R::P(23, [3, 3], b));
                desc.push(format!("protected record of {n} bytes"));
            },
            3 => {
                let n = *r.pick(&[1usize, 1, 2, 17, 100, 16384]);
                let i = r.below(q.len() + 1);
                q.insert(i, R::I(vec![0; n], [3, 3]));
                desc.push(format!("record of {n} padding bytes"));
            },
            4 => {
                let t = *r.pick(&[1u8, 19, 20, 23, 24, 255, 128, 21]);
                let n = *r.pick(&[0usize, 1, 2, 50]);
                let i = r.below(q.len() + 1);
                let b = r.biased_bytes(n);
                q.insert(i, R::E(t, b, 0));
                desc.push(format!("protected content of type {t} and {n} bytes"));
            },
            5 => {
                let i = r.below(q.len() + 1);
                let pad = r.below(5);
                q.insert(i, R::E(22, vec![], pad));
                desc.push("empty protected handshake content".into());
            },
            6 if q.len() > 1 => {
                let i = r.below(q.len());
                if let R::E(t, b, _) = &q[i] {
                    q[i] = R::P(*t, [3, 3], b.clone());
                    desc.push(format!("record {i} sent unprotected"));
                }
            },
            7 => {
                // other versions in protected headers are authenticated as sent
                for x in q.iter_mut() {
                    if let R::E(t, b, pad) = x.clone() {
                        let mut v = b;
                        v.push(t);
                        v.extend(vec![0; pad]);
                        *x = R::I(v, *r.pick(&[[3, 3], [3, 1], [3, 4], [0, 0], [0xff, 0xff]]));
                    }
                }
                desc.push("record versions (valid)".into());
            },
            8 => {
                let i = r.below(p.len().max(1));
                let n = *r.pick(&[0x4001usize, 0x4100, 0x4101, 0x5000, 0xffff]);
                let full = r.chance(1, 2);
                let mut x = vec![*r.pick(&[22u8, 22, 21, 20, 23]), 3, 3, (n >> 8) as u8, n as u8];
                if full {
                    x.extend(vec![2; n]);
                }
                p.insert(i, R::Raw(x));
                desc.push(format!("plaintext record of {n} bytes"));
            },
            9 => {
                let i = r.below(q.len() + 1);
                let n = *r.pick(&[0x4101usize, 0x4102, 0x5000, 0xffff]);
                let full = r.chance(1, 2);
                let mut x = vec![*r.pick(&[22u8, 23, 23, 23, 21, 20]), 3, 3, (n >> 8) as u8, n as u8];
                if full {
                    x.extend(vec![2; n]);
                }
                q.insert(i, R::Raw(x));
                desc.push(format!("protected record of {n} bytes"));
            },
            10 => {
                // largest padding a record can carry
                for x in q.iter_mut() {
                    if let R::E(_, b, pad) = x {
                        *pad = (1 << 14) - b.len().min(1 << 14);
                        break;
                    }
                }
                desc.push("a full record of padding (valid)".into());
            },
            11 => {
                let pad = *r.pick(&[1usize, 2, 100]);
                for x in q.iter_mut() {
                    if let R::E(_, b, p) = x {
                        *p = (1 << 14) - b.len().min(1 << 14) + pad;
                        break;
                    }
                }
                desc.push("padding beyond the inner limit".into());
            },
            12 => {
                // content beyond 2^14 within the record limit
                let n = (1 << 14) + *r.pick(&[1usize, 2, 100, 239]);
                let mut b = vec![0x1d; n];
                b[..4].copy_from_slice(&[8, 0, 0xff, 0]);
                let i = r.below(q.len() + 1);
                let t = *r.pick(&[22u8, 22, 21, 23]);
                q.insert(i, R::E(t, b, 0));
                desc.push(format!("protected content of {n} bytes"));
            },
            13 => {
                let i = r.below(p.len() + 1);
                p.insert(i, R::P(22, [3, 3], vec![]));
                desc.push("empty plaintext handshake record".into());
            },
            14 => {
                let t = *r.pick(&[20u8, 21, 23, 0, 99]);
                let i = r.below(p.len() + 1);
                p.insert(i, R::P(t, [3, 3], vec![]));
                desc.push(format!("empty plaintext record of type {t}"));
            },
            15 => {
                let t = *r.pick(&[20u8, 21, 22, 23, 0, 99]);
                let i = r.below(q.len() + 1);
                q.insert(i, R::P(t, [3, 3], vec![]));
                desc.push(format!("empty record of type {t} after keys"));
            },
            _ => (),
        }
    }
    // ---- onto the wire
    let np = p.len();
    let mut w: Vec<Vec<u8>> = vec![];
    for x in p.into_iter().chain(q) {
        w.push(match x {
            R::P(t, v, b) => record(t, v, &b),
            R::E(t, b, pad) => skeys.seal(t, &b, pad),
            R::I(b, v) => skeys.seal_inner(&b, v),
            R::Raw(b) => b,
        });
    }
    if hit(r, f.wire) && w.len() > np {
        let i = np + r.below(w.len() - np);
        let d = match r.below(16) {
            0 | 1 => {
                let k = r.below(w[i].len());
                w[i][k] ^= 1 << r.below(8);
                format!("bit of byte {k} of record {i} flipped")
            },
            2 => {
                let k = w[i].len() - 1 - r.below(16.min(w[i].len()));
                w[i][k] ^= 1 << r.below(8);
                format!("tag bit of record {i} flipped")
            },
            3 => {
                w.remove(i);
                format!("record {i} dropped")
            },
            4 => {
                let x = w[i].clone();
                w.insert(i, x);
                format!("record {i} replayed at once")
            },
            5 => {
                let x = w[i].clone();
                w.push(x);
                format!("record {i} replayed at the end")
            },
            6 if i + 1 < w.len() => {
                w.swap(i, i + 1);
                format!("records {i} swapped")
            },
            7 => {
                let n = r.below(w[i].len() - 5 + 1).saturating_sub(1);
                w[i].truncate(5 + n);
                let l = (n as u16).to_be_bytes();
                w[i][3..5].copy_from_slice(&l);
                format!("record {i} truncated to {n}")
            },
            8 => {
                let k = r.range(1, 20);
                let x = r.biased_bytes(k);
                w[i].extend(x);
                let n = ((w[i].len() - 5) as u16).to_be_bytes();
                w[i][3..5].copy_from_slice(&n);
                format!("record {i} extended by {k}")
            },
            9 => {
                let v = *r.pick(&[[3, 1], [3, 4], [3, 2], [0, 3]]);
                w[i][1..3].copy_from_slice(&v);
                format!("version of record {i} altered")
            },
            10 => {
                // sealed under the client's own keys: a reflected record
                let mut k = ck.clone();
                w[i] = k.seal(22, &handshake(8, &ee_body(&[])), 0);
                format!("record {i} under the client's key")
            },
            11 => {
                // sealed under another sequence number
                let mut k = skeys.clone();
                k.seq = *r.pick(&[0, 1, 2, 5, 256, 1 << 32]);
                w[i] = k.seal(22, &msgs.concat()[..msgs.concat().len().min(300)], 0);
                format!("record {i} under sequence number {}", k.seq - 1)
            },
            12 => {
                // keys of the other suite
                let o = if suite == Suite::ChaCha { Suite::Aes128Gcm } else { Suite::ChaCha };
                let (_, mut k) = tls::handshake_keys(o, &secret, &tr);
                k.seq = (i - np) as u64;
                w[i] = k.seal(22, &handshake(8, &ee_body(&[])), 0);
                format!("record {i} under the other suite")
            },
            13 => {
                // keys of a transcript without the ServerHello
                let (_, mut k) = tls::handshake_keys(suite, &secret, &h.msg);
                w[i] = k.seal(22, &handshake(8, &ee_body(&[])), 0);
                format!("record {i} under another transcript")
            },
            14 => {
                let n = *r.pick(&[17usize, 18, 40, 300]);
                let mut b = r.bytes(n);
                if r.chance(1, 2) {
                    b = vec![0; n];
                }
                w.insert(i, record(23, [3, 3], &b));
                format!("forged record of {n} bytes before {i}")
            },
            _ => {
                let k = r.below(w[i].len());
                let v = r.u8();
                w[i][k] = v;
                format!("byte {k} of record {i} set to {v}")
            },
        };
        desc.push(d);
    }
    let n = w.len();
    let mut bytes = w.concat();
    if hit(r, f.cut) && !bytes.is_empty() {
        let k = r.below(bytes.len());
        bytes.truncate(k);
        desc.push(format!("cut to {k} bytes"));
    }
    Built { bytes, desc: desc.join("; "), keys: Some((ck, skeys)), sk, records: n }
}
/// Large messages.
fn sizes(r: &mut Rng, msgs: &mut [Vec<u8>], _c: &Cfg) -> String {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[8000usize, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 16000, 30000, 32760]);
            let e = vec![(10u16, vec16(&vec![0x1d; 2 * n.min(32760)]))];
            msgs[0] = handshake(8, &ee_body(&e));
            format!("EncryptedExtensions of {} bytes", msgs[0].len())
        },
        1 | 2 => {
            // a chain filling a given message size exactly
            let total = *r.pick(&[
                0x3ff0usize, 0x3ffb, 0x3ffc, 0x3ffd, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4004, 0x4005, 0x5000, 0x8000, 0x8004, 0xfffc, 0x10000, 0x10004,
                0x18000, 0x1fff0, 0x1fffb, 0x1fffc,
            ]);
            let total = if small() { total.min(0x4004) } else { total };
            msgs[1] = handshake(11, &chain_of(r, total));
            format!("Certificate of {} bytes", msgs[1].len() - 4)
        },
        3 => {
            let total = *r.pick(&[0x1fffcusize, 0x1fffd, 0x1ffff, 0x20000, 0x20001, 0x20004, 0x20005, 0x21000, 0x30000]);
            msgs[1] = handshake(11, &chain_of(r, total));
            format!("Certificate of {} bytes", msgs[1].len() - 4)
        },
        _ => {
            let total = if small() { r.range(0x1000, 0x4100) } else { r.range(0x1000, 0x1fffc) };
            msgs[1] = handshake(11, &chain_of(r, total));
            format!("Certificate of {} bytes", msgs[1].len() - 4)
        },
    }
}
/// A well-formed chain whose message body has exactly `total` bytes, as far as lengths allow.
pub fn chain_of(r: &mut Rng, total: usize) -> Vec<u8> {
    let mut m = good_certs(r);
    m.certs.truncate(1);
    // one certificate with a filler extension
    let make = |r: &mut Rng, fill: usize| {
        let mut n = cert_node(r);
        if let Some(t) = at(&mut n, &[0]) {
            if let Kind::Cons(v) = &mut t.kind {
                v.truncate(7);
                v.push(cons(0xa3, vec![cons(0x30, vec![cons(0x30, vec![prim(6, &[0x55, 0x1d, 14]), prim(4, &vec![0x41; fill])])])]));
            }
        }
        encode(&n)
    };
    let s = r.u64();
    let mut fill = total.saturating_sub(1000);
    for _ in 0..6 {
        m.certs[0].0 = make(&mut Rng::new(s), fill);
        let have = m.body().len();
        if have == total {
            break;
        }
        fill = (fill + total).saturating_sub(have);
    }
    m.body()
}
