//! SHA-2 (constants derived from primes, as FIPS 180-4 defines them), HMAC, HKDF.
use crate::nat::Nat;
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// floor(frac(p^(1/k)) * 2^64), by integer bisection of x^k <= p * 2^(64k).
fn frac_root(p: u64, k: usize) -> u64 {
    let target = Nat::from_u64(p).shl(64 * k);
    let le = |v: u128| {
        let m = Nat::from_u128(v);
        let mut x = m.clone();
        for _ in 1..k {
            x = x.mul(&m);
        }
        x <= target
    };
    // start from the floating-point estimate where it brackets the root
    let est = ((p as f64).powf(1.0 / k as f64) * 2f64.powi(64)) as u128;
    let (mut lo, mut hi) = (est - (1 << 14), est + (1 << 14));
    if !le(lo) || le(hi) {
        (lo, hi) = (0, 1 << 70);
    }
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if le(mid) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u64
}
struct Consts {
    h: [u64; 8],
    k: [u64; 80],
}
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        // an interpreter takes minutes over the derivation: let a native run hand the result over
        if let Some(v) = std::env::var("REFC_CONSTS").ok().and_then(|p| std::fs::read(p).ok()) {
            let d: Vec<u64> = v.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
            return Consts { h: d[..8].try_into().unwrap(), k: d[8..].try_into().unwrap() };
        }
        let p = primes(80);
        let mut c = Consts { h: [0; 8], k: [0; 80] };
        for i in 0..8 {
            c.h[i] = frac_root(p[i], 2);
        }
        for i in 0..80 {
            c.k[i] = frac_root(p[i], 3);
        }
        c
    })
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let c = consts();
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = (c.h[i] >> 32) as u32;
    }
    let mut msg = m.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in msg.chunks(64) {
        let mut w = [0u32; 64];
        for t in 0..16 {
            w[t] = u32::from_be_bytes(b[4 * t..4 * t + 4].try_into().unwrap());
        }
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = h;
        for t in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add((c.k[t] >> 32) as u32)
                .wrapping_add(w[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn sha512(m: &[u8]) -> [u8; 64] {
    let c = consts();
    let mut h = c.h;
    let mut msg = m.to_vec();
    msg.push(0x80);
    while msg.len() % 128 != 112 {
        msg.push(0);
    }
    msg.extend_from_slice(&((m.len() as u128) * 8).to_be_bytes());
    for b in msg.chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..16 {
            w[t] = u64::from_be_bytes(b[8 * t..8 * t + 8].try_into().unwrap());
        }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = h;
        for t in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn hmac(block: usize, h: &dyn Fn(&[u8]) -> Vec<u8>, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let ih = h(&inner);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&ih);
    h(&outer)
}
pub fn hmac256(key: &[u8], msg: &[u8]) -> [u8; 32] {
    hmac(64, &|m| sha256(m).to_vec(), key, msg).try_into().unwrap()
}
pub fn hmac512(key: &[u8], msg: &[u8]) -> [u8; 64] {
    hmac(128, &|m| sha512(m).to_vec(), key, msg).try_into().unwrap()
}
fn expand(mac: &dyn Fn(&[u8], &[u8]) -> Vec<u8>, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut okm = Vec::new();
    let mut t: Vec<u8> = Vec::new();
    let mut i = 1u32;
    while okm.len() < len {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = mac(prk, &m);
        okm.extend_from_slice(&t);
        i += 1;
    }
    okm.truncate(len);
    okm
}
pub fn hkdf_expand256(prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    expand(&|k, m| hmac256(k, m).to_vec(), prk, info, len)
}
pub fn hkdf_expand512(prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    expand(&|k, m| hmac512(k, m).to_vec(), prk, info, len)
}

/// The derived constants, for `REFC_CONSTS`.
pub fn dump_consts(path: &str) {
    let c = consts();
    let b: Vec<u8> = c.h.iter().chain(&c.k).flat_map(|d| d.to_le_bytes()).collect();
    std::fs::write(path, b).expect("constants file");
}
