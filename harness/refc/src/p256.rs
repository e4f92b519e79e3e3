//! NIST P-256 with Montgomery field arithmetic and explicit case analysis in the group law.
use crate::nat::Nat;
use std::sync::OnceLock;

pub type Fe = [u64; 4];

/// A 256-bit odd modulus with Montgomery constants.
pub struct Mont {
    pub m: Fe,
    n0: u64,
    r2: Fe,
    one: Fe,
}
fn geq(a: &Fe, b: &Fe) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_in(a: &mut Fe, b: &Fe) -> bool {
    let mut br = false;
    for i in 0..4 {
        let (x, c) = a[i].overflowing_sub(b[i]);
        let (x, d) = x.overflowing_sub(br as u64);
        a[i] = x;
        br = c | d;
    }
    br
}
fn add_in(a: &mut Fe, b: &Fe) -> bool {
    let mut ca = false;
    for i in 0..4 {
        let (x, c) = a[i].overflowing_add(b[i]);
        let (x, d) = x.overflowing_add(ca as u64);
        a[i] = x;
        ca = c | d;
    }
    ca
}
impl Mont {
    pub fn new(m: Fe) -> Self {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mn = Nat::from_digits(&m);
        Mont { m, n0: inv.wrapping_neg(), r2: Nat::pow2(512).rem(&mn).arr(), one: Nat::pow2(256).rem(&mn).arr() }
    }
    pub fn mul(&self, a: &Fe, b: &Fe) -> Fe {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let mut r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.m) {
            sub_in(&mut r, &self.m);
        }
        r
    }
    pub fn add(&self, a: &Fe, b: &Fe) -> Fe {
        let mut r = *a;
        if add_in(&mut r, b) || geq(&r, &self.m) {
            sub_in(&mut r, &self.m);
        }
        r
    }
    pub fn sub(&self, a: &Fe, b: &Fe) -> Fe {
        let mut r = *a;
        if sub_in(&mut r, b) {
            add_in(&mut r, &self.m);
        }
        r
    }
    /// Into Montgomery form; the argument must be below the modulus.
    pub fn enter(&self, a: &Fe) -> Fe {
        self.mul(a, &self.r2)
    }
    pub fn leave(&self, a: &Fe) -> Fe {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn inv(&self, a: &Fe) -> Fe {
        let mut e = self.m;
        sub_in(&mut e, &[2, 0, 0, 0]);
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
}

pub const P: Fe = [u64::MAX, 0xffff_ffff, 0, 0xffff_ffff_0000_0001];
pub const N: Fe = [0xf3b9_cac2_fc63_2551, 0xbce6_faad_a717_9e84, u64::MAX, 0xffff_ffff_0000_0000];
const B_HEX: &str = "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b";
const GX_HEX: &str = "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296";
const GY_HEX: &str = "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5";

pub fn fp() -> &'static Mont {
    static C: OnceLock<Mont> = OnceLock::new();
    C.get_or_init(|| Mont::new(P))
}
pub fn fn_() -> &'static Mont {
    static C: OnceLock<Mont> = OnceLock::new();
    C.get_or_init(|| Mont::new(N))
}
pub fn p_nat() -> Nat {
    Nat::from_digits(&P)
}
pub fn n_nat() -> Nat {
    Nat::from_digits(&N)
}
pub fn fe_from_be(b: &[u8]) -> Fe {
    Nat::from_be(b).arr()
}
pub fn fe_to_be(f: &Fe) -> [u8; 32] {
    Nat::from_digits(f).to_be(32).try_into().unwrap()
}
pub fn b() -> Fe {
    fe_from_be(&crate::unhex(B_HEX))
}

/// An affine point with plain (non-Montgomery) coordinates; `None` is infinity.
pub type Pt = Option<(Fe, Fe)>;

pub fn base() -> Pt {
    Some((fe_from_be(&crate::unhex(GX_HEX)), fe_from_be(&crate::unhex(GY_HEX))))
}
/// y^2 = x^3 - 3x + b, coordinates below p.
pub fn on_curve(x: &Fe, y: &Fe) -> bool {
    if geq(x, &P) || geq(y, &P) {
        return false;
    }
    let f = fp();
    let (x, y) = (f.enter(x), f.enter(y));
    f.mul(&y, &y) == rhs(&x)
}
fn rhs(x: &Fe) -> Fe {
    let f = fp();
    let x3 = f.mul(&f.mul(x, x), x);
    let t = f.add(&f.add(x, x), x);
    f.add(&f.sub(&x3, &t), &f.enter(&b()))
}
/// A y for this x if one exists (p = 3 mod 4).
pub fn lift_x(x: &Fe) -> Option<Fe> {
    let f = fp();
    let v = rhs(&f.enter(x));
    let e = p_nat().add(&Nat::one()).shr(2);
    let mut r = f.one;
    for i in (0..e.bits()).rev() {
        r = f.mul(&r, &r);
        if e.bit(i) {
            r = f.mul(&r, &v);
        }
    }
    (f.mul(&r, &r) == v).then(|| f.leave(&r))
}
pub fn neg(p: &Pt) -> Pt {
    p.map(|(x, y)| (x, if y == [0; 4] { y } else { fp().sub(&[0; 4], &y) }))
}
pub fn add(p: &Pt, q: &Pt) -> Pt {
    let f = fp();
    let ((x1, y1), (x2, y2)) = match (p, q) {
        (None, q) => return *q,
        (p, None) => return *p,
        (Some(a), Some(b)) => (*a, *b),
    };
    let (x1, y1, x2, y2) = (f.enter(&x1), f.enter(&y1), f.enter(&x2), f.enter(&y2));
    let l = if x1 == x2 {
        if f.add(&y1, &y2) == [0; 4] {
            return None;
        }
        let xx = f.mul(&x1, &x1);
        let num = f.sub(&f.add(&f.add(&xx, &xx), &xx), &f.enter(&[3, 0, 0, 0]));
        f.mul(&num, &f.inv(&f.add(&y1, &y1)))
    } else {
        f.mul(&f.sub(&y2, &y1), &f.inv(&f.sub(&x2, &x1)))
    };
    let x3 = f.sub(&f.sub(&f.mul(&l, &l), &x1), &x2);
    let y3 = f.sub(&f.mul(&l, &f.sub(&x1, &x3)), &y1);
    Some((f.leave(&x3), f.leave(&y3)))
}
// Jacobian coordinates in Montgomery form, z = 0 for infinity.
type Jac = [Fe; 3];
fn jdbl(p: &Jac) -> Jac {
    let f = fp();
    let [x, y, z] = p;
    if *z == [0; 4] || *y == [0; 4] {
        return [[0; 4]; 3];
    }
    let d = f.mul(z, z);
    let g = f.mul(y, y);
    let be = f.mul(x, &g);
    let t = f.mul(&f.sub(x, &d), &f.add(x, &d));
    let al = f.add(&f.add(&t, &t), &t);
    let b4 = {
        let b2 = f.add(&be, &be);
        f.add(&b2, &b2)
    };
    let x3 = f.sub(&f.mul(&al, &al), &f.add(&b4, &b4));
    let yz = f.mul(y, z);
    let z3 = f.add(&yz, &yz);
    let mut g8 = f.mul(&g, &g);
    for _ in 0..3 {
        g8 = f.add(&g8, &g8);
    }
    let y3 = f.sub(&f.mul(&al, &f.sub(&b4, &x3)), &g8);
    [x3, y3, z3]
}
fn jadd(p: &Jac, q: &Jac) -> Jac {
    let f = fp();
    if p[2] == [0; 4] {
        return *q;
    }
    if q[2] == [0; 4] {
        return *p;
    }
    let z1 = f.mul(&p[2], &p[2]);
    let z2 = f.mul(&q[2], &q[2]);
    let u1 = f.mul(&p[0], &z2);
    let u2 = f.mul(&q[0], &z1);
    let s1 = f.mul(&p[1], &f.mul(&z2, &q[2]));
    let s2 = f.mul(&q[1], &f.mul(&z1, &p[2]));
    let h = f.sub(&u2, &u1);
    let r = f.sub(&s2, &s1);
    if h == [0; 4] {
        return if r == [0; 4] { jdbl(p) } else { [[0; 4]; 3] };
    }
    let hh = f.mul(&h, &h);
    let hhh = f.mul(&h, &hh);
    let v = f.mul(&u1, &hh);
    let x3 = f.sub(&f.sub(&f.mul(&r, &r), &hhh), &f.add(&v, &v));
    let y3 = f.sub(&f.mul(&r, &f.sub(&v, &x3)), &f.mul(&s1, &hhh));
    let z3 = f.mul(&h, &f.mul(&p[2], &q[2]));
    [x3, y3, z3]
}
/// k * p for any natural k.
pub fn mul(k: &Nat, p: &Pt) -> Pt {
    let f = fp();
    let Some((x, y)) = p else { return None };
    let q: Jac = [f.enter(x), f.enter(y), f.one];
    let mut r: Jac = [[0; 4]; 3];
    for i in (0..k.bits()).rev() {
        r = jdbl(&r);
        if k.bit(i) {
            r = jadd(&r, &q);
        }
    }
    if r[2] == [0; 4] {
        return None;
    }
    let zi = f.inv(&r[2]);
    let zi2 = f.mul(&zi, &zi);
    Some((f.leave(&f.mul(&r[0], &zi2)), f.leave(&f.mul(&r[1], &f.mul(&zi2, &zi)))))
}
pub fn mul_base(k: &Nat) -> Pt {
    mul(k, &base())
}
/// Uncompressed SEC1 encoding of a finite point.
pub fn encode(p: &Pt) -> Vec<u8> {
    let (x, y) = p.unwrap();
    let mut v = vec![4];
    v.extend(fe_to_be(&x));
    v.extend(fe_to_be(&y));
    v
}
pub fn decode(b: &[u8]) -> Option<Pt> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let (x, y) = (fe_from_be(&b[1..33]), fe_from_be(&b[33..]));
    on_curve(&x, &y).then_some(Some((x, y)))
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn group() {
        let mut r = crate::rng::Rng::new(1);
        let g = base();
        assert!(on_curve(&g.unwrap().0, &g.unwrap().1));
        assert_eq!(mul_base(&n_nat()), None);
        assert_eq!(mul_base(&n_nat().sub(&Nat::one())), neg(&g));
        for _ in 0..50 {
            let a = Nat::from_digits(&r.digits::<4>());
            let b = Nat::from_digits(&r.digits::<4>());
            let (pa, pb) = (mul_base(&a), mul_base(&b));
            assert_eq!(add(&pa, &pb), mul_base(&a.add(&b)));
            assert_eq!(mul(&b, &pa), mul_base(&a.mul(&b)));
            if let Some((x, y)) = pa {
                assert!(on_curve(&x, &y));
                let l = lift_x(&x).unwrap();
                assert!(l == y || neg(&Some((x, l))) == pa);
            }
        }
        let f = fp();
        for _ in 0..2000 {
            let a = Nat::from_digits(&r.digits::<4>()).rem(&p_nat());
            let b = Nat::from_digits(&r.digits::<4>()).rem(&p_nat());
            let m = f.leave(&f.mul(&f.enter(&a.arr()), &f.enter(&b.arr())));
            assert_eq!(Nat::from_digits(&m), a.mulmod(&b, &p_nat()));
        }
    }
}
