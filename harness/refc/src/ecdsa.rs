//! ECDSA over P-256 (FIPS 186-5), on integers.
use crate::nat::Nat;
use crate::p256::{self, Pt};

/// The leftmost 256 bits of a digest as an integer.
pub fn z(hash: &[u8]) -> Nat {
    Nat::from_be(&hash[..hash.len().min(32)])
}
pub fn inv_n(a: &Nat) -> Nat {
    let f = p256::fn_();
    Nat::from_digits(&f.leave(&f.inv(&f.enter(&a.rem(&p256::n_nat()).arr()))))
}
/// `None` if this nonce is unusable.
pub fn sign(d: &Nat, hash: &[u8], k: &Nat) -> Option<(Nat, Nat)> {
    let n = p256::n_nat();
    let k = k.rem(&n);
    let (x, _) = p256::mul_base(&k)?;
    let r = Nat::from_digits(&x).rem(&n);
    if r.is_zero() {
        return None;
    }
    let s = inv_n(&k).mulmod(&z(hash).add(&r.mul(d)), &n);
    (!s.is_zero()).then_some((r, s))
}
pub fn verify(q: &Pt, hash: &[u8], r: &Nat, s: &Nat) -> bool {
    let n = p256::n_nat();
    if q.is_none() || r.is_zero() || s.is_zero() || *r >= n || *s >= n {
        return false;
    }
    let w = inv_n(s);
    let u1 = z(hash).mulmod(&w, &n);
    let u2 = r.mulmod(&w, &n);
    match p256::add(&p256::mul_base(&u1), &p256::mul(&u2, q)) {
        None => false,
        Some((x, _)) => Nat::from_digits(&x).rem(&n) == *r,
    }
}
