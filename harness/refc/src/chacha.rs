//! ChaCha20, Poly1305 and the AEAD of RFC 8439.
use crate::nat::Nat;
pub fn block(key: &[u8; 32], nonce: &[u8; 12], counter: u32) -> [u8; 64] {
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let c = b"expand 32-byte k";
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[i] = le(&c[4 * i..4 * i + 4]);
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..4 * i + 4]);
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le(&nonce[4 * i..4 * i + 4]);
    }
    let mut x = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    };
    for _ in 0..10 {
        for i in 0..4 {
            qr(i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut o = [0; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}
pub fn stream(key: &[u8; 32], nonce: &[u8; 12], start: u32, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, ch) in data.chunks(64).enumerate() {
        let k = block(key, nonce, start + i as u32);
        out.extend(ch.iter().zip(k).map(|(a, b)| a ^ b));
    }
    out
}
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let mut r: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = Nat::from_le(&r);
    let s = Nat::from_le(&key[16..]);
    let p = Nat::pow2(130).sub(&Nat::from_u64(5));
    let mut a = Nat::zero();
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = a.add(&Nat::from_le(&b)).mulmod(&r, &p);
    }
    a.add(&s).low(128).to_le(16).try_into().unwrap()
}
fn mac_data(aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut m = aad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    m
}
fn otk(key: &[u8; 32], nonce: &[u8; 12]) -> [u8; 32] {
    block(key, nonce, 0)[..32].try_into().unwrap()
}
pub fn seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let ct = stream(key, nonce, 1, pt);
    let t = poly1305(&otk(key, nonce), &mac_data(aad, &ct));
    (ct, t)
}
pub fn open(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let t = poly1305(&otk(key, nonce), &mac_data(aad, ct));
    (t[..] == *tag).then(|| stream(key, nonce, 1, ct))
}
