//! Workloads and oracles for the curve and ECDSA.
use crate::cx::{hex, short, Cx};
use crylib::big_int::UBigInt;
use crylib::ec::ecdsa::{sign, verify_signature, Signature};
use crylib::ec::{AffinePoint, EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use crylib::hash::{Hasher, Sha256};
use refc::nat::Nat;
use refc::p256::{self, Fe, Pt};
use refc::{ecdsa, hash, special};

type C = Secp256r1;
type Order = <Secp256r1 as EllipticCurve>::Order;
type Fp = FieldElement<4, C>;
type Fn_ = FieldElement<4, Order>;
type Proj = ProjectivePoint<C>;
type Aff = AffinePoint<C>;

fn fp(x: &Fe) -> Fp {
    // SAFETY: reference elements are reduced
    unsafe { Fp::new_unchecked(UBigInt(*x)) }
}
fn fnn(x: &Nat) -> Fn_ {
    unsafe { Fn_::new_unchecked(UBigInt(x.arr())) }
}
fn nz(cx: &mut Cx) -> Fe {
    loop {
        let v = Nat::from_digits(&cx.rng.digits::<4>()).rem(&p256::p_nat());
        if !v.is_zero() {
            return v.arr();
        }
    }
}
/// A projective representation of `p` with a random (or unit) scale.
fn proj(cx: &mut Cx, p: &Pt) -> (Proj, Fe) {
    let m = p256::fp();
    let z = if cx.rng.chance(1, 3) { [1, 0, 0, 0] } else { nz(cx) };
    let mul = |a: &Fe, b: &Fe| m.leave(&m.mul(&m.enter(a), &m.enter(b)));
    let pr = match p {
        None => unsafe { Proj::new_unchecked(fp(&[0; 4]), fp(&z), fp(&[0; 4])) },
        Some((x, y)) => unsafe { Proj::new_unchecked(fp(&mul(x, &z)), fp(&mul(y, &z)), fp(&z)) },
    };
    (pr, z)
}
fn show(p: &Pt) -> String {
    match p {
        None => "infinity".into(),
        Some((x, y)) => format!("({}, {})", hex(&p256::fe_to_be(x)), hex(&p256::fe_to_be(y))),
    }
}
fn same(cx: &mut Cx, what: &str, got: &Proj, want: &Pt) {
    let g: Vec<u8> = match got.as_affine() {
        None => vec![],
        Some(a) => [a.x().into_inner().to_be_bytes(), a.y().into_inner().to_be_bytes()].concat(),
    };
    let w: Vec<u8> = match want {
        None => vec![],
        Some((x, y)) => [p256::fe_to_be(x), p256::fe_to_be(y)].concat(),
    };
    cx.eq(what, &g, &w);
    cx.eqn(&format!("{what}: is_infinity"), got.is_infinity() as u64, want.is_none() as u64);
    // it must also be a usable representation: not the degenerate triple, comparable with itself
    let wp: Proj = match want {
        None => Proj::POINT_AT_INF,
        Some((x, y)) => unsafe { Aff::new_unchecked(fp(x), fp(y)).as_projective() },
    };
    cx.ok(&format!("{what}: equals the expected point"), *got == wp);
    let other: Pt = match want {
        None => p256::base(),
        Some((x, y)) => p256::neg(&Some((*x, *y))),
    };
    let (ox, oy) = other.unwrap();
    let op = unsafe { Aff::new_unchecked(fp(&ox), fp(&oy)).as_projective() };
    cx.ok(&format!("{what}: differs from another point"), *got != op);
    if want.is_some() {
        cx.ok(&format!("{what}: differs from infinity"), *got != Proj::POINT_AT_INF);
    }
}
pub fn scalar(cx: &mut Cx) -> Nat {
    let n = p256::n_nat();
    let k = if cx.small { cx.rng.below(20) as u64 } else { 0 };
    if cx.small {
        return Nat::from_u64(k);
    }
    match cx.rng.below(14) {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => Nat::from_u64(2),
        3 => n.sub(&Nat::one()),
        4 => n.sub(&Nat::from_u64(2)),
        5 => n.shr(1),
        6 => n.shr(1).add(&Nat::one()),
        7 => Nat::pow2(cx.rng.below(256)).rem(&n),
        8 => {
            let k = cx.rng.range(1, 256);
            Nat::pow2(k).sub(&Nat::one()).rem(&n)
        },
        9 => Nat::from_u64(cx.rng.below(300) as u64),
        10 => Nat::from_digits(&[0xaaaaaaaaaaaaaaaau64 >> cx.rng.below(2); 4]).rem(&n),
        _ => Nat::from_digits(&cx.rng.digits::<4>()).rem(&n),
    }
}
fn special_point(cx: &mut Cx) -> Pt {
    let p = Some(special::point(cx.rng.below(special::count())));
    if cx.rng.chance(1, 4) {
        p256::neg(&p)
    } else {
        p
    }
}
pub fn point(cx: &mut Cx) -> Pt {
    if cx.small {
        return match cx.rng.below(4) {
            0 => None,
            k => p256::mul_base(&Nat::from_u64(k as u64)),
        };
    }
    match cx.rng.below(12) {
        10 | 11 => special_point(cx),
        0 => None,
        1 => p256::base(),
        2 => p256::mul_base(&Nat::from_u64(cx.rng.below(10) as u64)),
        3 => p256::neg(&p256::mul_base(&Nat::from_u64(cx.rng.below(10) as u64))),
        4..=6 => {
            // points with structured coordinates
            loop {
                let x = Nat::from_digits(&cx.rng.digits::<4>()).rem(&p256::p_nat()).arr::<4>();
                if let Some(y) = p256::lift_x(&x) {
                    let p = Some((x, y));
                    return if cx.rng.chance(1, 2) { p256::neg(&p) } else { p };
                }
            }
        },
        _ => {
            let k = scalar(cx);
            p256::mul_base(&k)
        },
    }
}

pub fn c08(cx: &mut Cx) {
    let p = point(cx);
    let q = match cx.rng.below(7) {
        0 => p,
        1 => p256::neg(&p),
        2 => p256::add(&p, &p),
        3 if !cx.small => {
            // the sum is conspicuous
            cx.rep.count("sums that are special points");
            let t = special_point(cx);
            p256::add(&t, &p256::neg(&p))
        },
        _ => point(cx),
    };
    let (pp, z1) = proj(cx, &p);
    let (qq, z2) = proj(cx, &q);
    cx.ctx(format!("P={} z={} Q={} z={}", show(&p), hex(&p256::fe_to_be(&z1)), show(&q), hex(&p256::fe_to_be(&z2))));
    let rel = match (&p, &q) {
        (None, None) => "both infinite",
        (None, _) => "P infinite",
        (_, None) => "Q infinite",
        _ if p == q => "equal",
        _ if p == p256::neg(&q) => "opposite",
        _ => "distinct",
    };
    cx.rep.count(&format!("point pairs: {rel}"));
    cx.op(&format!("representation ({rel})"));
    same(cx, "projective representation", &pp, &p);
    cx.op(&format!("equality ({rel})"));
    cx.eqn(&format!("ProjectivePoint == ({rel})"), (pp == qq) as u64, (p == q) as u64);
    cx.op(&format!("ProjectivePoint::add ({rel})"));
    let sum = p256::add(&p, &q);
    same(cx, &format!("ProjectivePoint::add ({rel})"), &pp.add(&qq), &sum);
    let mut x = pp;
    x.add_assign(&qq);
    same(cx, &format!("ProjectivePoint::add_assign ({rel})"), &x, &sum);
    if rel == "distinct" {
        same(cx, "ProjectivePoint::add_fast (distinct)", &pp.add_fast(&qq), &sum);
        let mut x = pp;
        x.add_assign_fast(&qq);
        same(cx, "ProjectivePoint::add_assign_fast (distinct)", &x, &sum);
    }
    let inf = if p.is_none() { " (infinity)" } else { "" };
    cx.op(&format!("ProjectivePoint::double{inf}"));
    let dbl = p256::add(&p, &p);
    same(cx, &format!("ProjectivePoint::double{inf}"), &pp.double(), &dbl);
    let mut x = pp;
    x.double_assign();
    same(cx, &format!("ProjectivePoint::double_assign{inf}"), &x, &dbl);
    cx.op(&format!("ProjectivePoint::neg{inf}"));
    let neg = p256::neg(&p);
    same(cx, &format!("ProjectivePoint::neg{inf}"), &pp.neg(), &neg);
    let mut x = pp;
    x.neg_assign();
    same(cx, &format!("ProjectivePoint::neg_assign{inf}"), &x, &neg);
    // chained: results stay usable
    cx.op(&format!("chained group operations ({rel})"));
    let mut x = pp.add(&qq).double();
    x.add_assign(&pp.neg());
    let w = p256::add(&p256::add(&sum, &sum), &neg);
    same(cx, &format!("double(P+Q) - P ({rel})"), &x, &w);

    // affine
    cx.op("affine");
    if let (Some((px, py)), Some(a)) = (&p, pp.as_affine()) {
        cx.ok("TryFrom<ProjectivePoint>", Aff::try_from(pp).map(|t| t == a).unwrap_or(false));
        cx.ok("AffinePoint accessors", a.x() == fp(px) && *a.x_ref() == fp(px) && a.y() == fp(py) && *a.y_ref() == fp(py));
        same(cx, "AffinePoint::as_projective", &a.as_projective(), &p);
        same(cx, "From<AffinePoint>", &Proj::from(a), &p);
        same(cx, "AffinePoint::double", &a.double().as_projective(), &dbl);
        let mut t = a;
        t.double_assign();
        same(cx, "AffinePoint::double_assign", &t.as_projective(), &dbl);
        same(cx, "AffinePoint::neg", &a.neg().as_projective(), &neg);
        let mut t = a;
        t.neg_assign();
        same(cx, "AffinePoint::neg_assign", &t.as_projective(), &neg);
        if let (true, Some(b)) = (rel == "distinct", qq.as_affine()) {
            same(cx, "AffinePoint::add (distinct)", &a.add(&b).as_projective(), &sum);
        }
    } else {
        cx.ok("infinity has no affine form", p.is_none() && pp.as_affine().is_none() && Aff::try_from(pp).is_err());
    }

    // acceptance of coordinate pairs
    cx.op("AffinePoint::new");
    let (mut x, mut y) = match point(cx) {
        Some(c) => c,
        None => (nz(cx), nz(cx)),
    };
    match cx.rng.below(7) {
        0 => {},
        1 => {
            let v = Nat::from_digits(&x).add(&Nat::one()).rem(&p256::p_nat());
            x = v.arr();
        },
        2 => {
            let i = cx.rng.below(4);
            y[i] ^= 1 << cx.rng.below(64);
            y = Nat::from_digits(&y).rem(&p256::p_nat()).arr();
        },
        3 => std::mem::swap(&mut x, &mut y),
        4 => x = [0; 4],
        5 => y = [0; 4],
        _ => {
            x = nz(cx);
        },
    }
    let on = p256::on_curve(&x, &y);
    cx.ctx(format!("x={} y={}", hex(&p256::fe_to_be(&x)), hex(&p256::fe_to_be(&y))));
    cx.eqn("AffinePoint::new accepts exactly the curve", Aff::new(fp(&x), fp(&y)).is_some() as u64, on as u64);
    cx.eqn("AffinePoint::is_on_curve", Aff::is_on_curve(&fp(&x), &fp(&y)) as u64, on as u64);
    cx.rep.count(if on { "coordinate pairs on the curve" } else { "coordinate pairs off the curve" });
}
pub fn c08_mul(cx: &mut Cx) {
    let mut p = if cx.rng.chance(1, 3) { p256::base() } else { point(cx) };
    let k = scalar(cx);
    if !cx.small && !k.is_zero() && cx.rng.chance(1, 5) {
        // the product is conspicuous
        cx.rep.count("products that are special points");
        let t = special_point(cx);
        p = p256::mul(&ecdsa::inv_n(&k), &t);
    }
    let (pp, z) = proj(cx, &p);
    cx.ctx(format!("P={} z={} k={}", show(&p), hex(&p256::fe_to_be(&z)), hex(&k.to_be(32))));
    let want = p256::mul(&k, &p);
    let inf = if p.is_none() { " (infinity)" } else { "" };
    cx.op(&format!("mul_scalar{inf}"));
    same(cx, &format!("mul_scalar{inf}"), &pp.mul_scalar(&fnn(&k)), &want);
    if cx.rng.chance(1, 3) {
        let mut x = pp;
        cx.op(&format!("mul_scalar_assign{inf}"));
        x.mul_scalar_assign(&fnn(&k));
        same(cx, &format!("mul_scalar_assign{inf}"), &x, &want);
    }
    cx.rep.count(match k.bits() {
        0 => "scalar 0",
        1..=9 => "small scalars",
        _ => "large scalars",
    });
}
/// Constants of the curve.
pub fn c08_const(cx: &mut Cx) {
    let (gx, gy) = p256::base().unwrap();
    same(cx, "base point", &C::BASE_POINT, &Some((gx, gy)));
    cx.eqd("modulus", &C::MODULUS.0, &p256::P);
    cx.eqd("order", &Order::MODULUS.0, &p256::N);
    cx.eqd("A", &C::A.inner().0, &p256::p_nat().sub(&Nat::from_u64(3)).arr::<4>());
    cx.eqd("B", &C::B.inner().0, &p256::b());
    same(cx, "infinity", &Proj::POINT_AT_INF, &None);
    cx.nontrivial = false;
}
/// k*G for consecutive small k, against repeated addition.
pub fn c08_small(cx: &mut Cx) {
    let k = cx.idx;
    let mut want: Pt = None;
    for _ in 0..k {
        want = p256::add(&want, &p256::base());
    }
    cx.ctx(format!("k={k}"));
    cx.op("mul_scalar small");
    same(cx, "k*G by repeated addition", &C::BASE_POINT.mul_scalar(&fnn(&Nat::from_u64(k))), &want);
    let nk = p256::n_nat().sub(&Nat::from_u64(k)).rem(&p256::n_nat());
    if !cx.small {
        cx.op("mul_scalar n-k");
        same(cx, "(n-k)*G", &C::BASE_POINT.mul_scalar(&fnn(&nk)), &p256::neg(&want));
    }
}

fn nonzero(cx: &mut Cx) -> Nat {
    loop {
        let k = scalar(cx);
        if !k.is_zero() {
            return k;
        }
    }
}
/// The value in bytes of a signature is only visible through equality.
fn sig(r: &Nat, s: &Nat) -> Signature<Order> {
    Signature::new(fnn(r), fnn(s))
}

pub fn c09_sign(cx: &mut Cx) {
    let d = nonzero(cx);
    let len = cx.rng.below(100);
    let msg = cx.rng.bytes(len);
    // an arbitrary hash function: real, constant, or extreme values
    let mode = cx.rng.below(6);
    let fixed: [u8; 32] = match mode {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => p256::n_nat().to_be(32).try_into().unwrap(),
        3 => p256::n_nat().sub(&Nat::one()).to_be(32).try_into().unwrap(),
        _ => hash::sha256(&msg),
    };
    // nonces: possibly unusable ones first
    let mut nonces: Vec<Nat> = vec![];
    for _ in 0..cx.rng.below(3) {
        nonces.push(Nat::zero());
    }
    let mut skipped = "";
    let mut dd = d.clone();
    if !nonces.is_empty() {
        skipped = " after zero nonces";
    }
    let mut h = fixed;
    if cx.rng.chance(1, 4) && !cx.small {
        // a nonce that makes s zero: z = -r*d mod n
        let k = nonzero(cx);
        let r = match p256::mul_base(&k) {
            Some((x, _)) => Nat::from_digits(&x).rem(&p256::n_nat()),
            None => Nat::one(),
        };
        let n = p256::n_nat();
        let z = n.sub(&r.mulmod(&d, &n)).rem(&n);
        h = z.to_be(32).try_into().unwrap();
        nonces.push(k);
        skipped = " after a nonce giving s = 0";
        dd = d.clone();
    }
    let hf = |m: &[u8]| -> [u8; 32] {
        assert!(m == &msg[..], "hash function called on something other than the message");
        h
    };
    let k = nonzero(cx);
    nonces.push(k.clone());
    // safety net: never run out
    for _ in 0..3 {
        nonces.push(nonzero(cx));
    }
    let want = nonces.iter().enumerate().find_map(|(i, k)| if k.is_zero() { None } else { ecdsa::sign(&dd, &h, k).map(|v| (i, v)) });
    let Some((used, (r, s))) = want else { return };
    cx.ctx(format!("d={} hash={} nonces={:?} msg={}", hex(&d.to_be(32)), hex(&h), nonces.iter().map(|k| hex(&k.to_be(32))).collect::<Vec<_>>(), short(&msg)));
    cx.op(&format!("ecdsa::sign{skipped}"));
    let i = std::cell::Cell::new(0);
    let got = sign::<C>(&msg, &fnn(&d), hf, || {
        let j = i.get();
        i.set(j + 1);
        if j >= nonces.len() {
            panic!("the signer kept asking for nonces");
        }
        fnn(&nonces[j])
    });
    cx.ok(&format!("signature equals the standard's (r, s){skipped}"), got == sig(&r, &s));
    cx.eqn(&format!("nonces drawn{skipped}"), i.get() as u64, used as u64 + 1);
    cx.out(format!("{got:?}").as_bytes());
    cx.rep.count(&format!("signatures{skipped}"));
    if !cx.small {
        let q = p256::mul_base(&d);
        let (pk, _) = proj(cx, &q);
        cx.op(&format!("verify own signature{skipped}"));
        cx.ok(&format!("own signature verifies{skipped}"), verify_signature::<C>(&msg, &pk, hf, &got).is_ok());
    }
}
pub fn c09_verify(cx: &mut Cx) {
    let n = p256::n_nat();
    let d = nonzero(cx);
    let q = p256::mul_base(&d);
    let len = cx.rng.below(60);
    let msg = cx.rng.bytes(len);
    let h: [u8; 32] = match cx.rng.below(5) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => hash::sha256(&msg),
    };
    let k = nonzero(cx);
    let Some((r, s)) = ecdsa::sign(&d, &h, &k) else { return };
    let (mut r2, mut s2, mut q2, mut h2) = (r.clone(), s.clone(), q, h);
    let what = match cx.rng.below(16) {
        0 | 1 => "genuine",
        2 => {
            s2 = n.sub(&s);
            "negated s" // valid: (r, n-s) verifies too
        },
        3 => {
            r2 = r.add(&Nat::one()).rem(&n);
            "r + 1"
        },
        4 => {
            s2 = s.add(&Nat::one()).rem(&n);
            "s + 1"
        },
        5 => {
            let mut b = h2;
            b[cx.rng.below(32)] ^= 1 << cx.rng.below(8);
            h2 = b;
            "other hash"
        },
        6 => {
            q2 = p256::neg(&q);
            "negated key"
        },
        7 => {
            q2 = p256::add(&q, &p256::base());
            "other key"
        },
        8 => {
            r2 = Nat::zero();
            "r = 0"
        },
        9 => {
            s2 = Nat::zero();
            "s = 0"
        },
        10 => {
            r2 = Nat::zero();
            s2 = Nat::zero();
            "r = s = 0"
        },
        11 => {
            std::mem::swap(&mut r2, &mut s2);
            "r and s swapped"
        },
        12 => {
            r2 = n.sub(&r);
            "negated r"
        },
        13 => {
            // u1*G + u2*Q is infinity: z*G = -r*Q, i.e. r = -z/d
            let zn = ecdsa::z(&h2);
            r2 = n.sub(&zn.mulmod(&ecdsa::inv_n(&d), &n)).rem(&n);
            "sum is infinity"
        },
        14 => {
            // u1*G == u2*Q: the addition is a doubling; r = z/d. Valid only if x matches.
            let zn = ecdsa::z(&h2);
            r2 = zn.mulmod(&ecdsa::inv_n(&d), &n);
            // pick s so that it verifies: R = 2*u1*G with u1 = z/s; x(R) must be r
            "sum is a doubling"
        },
        _ => {
            r2 = scalar(cx);
            s2 = scalar(cx);
            "random"
        },
    };
    if q2.is_none() {
        return; // not a valid public key
    }
    let want = ecdsa::verify(&q2, &h2, &r2, &s2);
    let (pk, _) = proj(cx, &q2);
    cx.ctx(format!("Q={} hash={} r={} s={} ({what})", show(&q2), hex(&h2), hex(&r2.to_be(32)), hex(&s2.to_be(32))));
    cx.op(&format!("verify_signature ({what})"));
    let got = verify_signature::<C>(&msg, &pk, |m| {
        assert!(m == &msg[..]);
        h2
    }, &sig(&r2, &s2))
    .is_ok();
    cx.eqn(&format!("verify_signature ({what})"), got as u64, want as u64);
    cx.rep.count(&format!("verified: {what} -> {}", if want { "accept" } else { "refuse" }));
}
/// Signatures built backwards so that the verifier's addition is a doubling and still valid:
/// choose u1 = u, u2 with u1*G = u2*Q.
pub fn c09_special(cx: &mut Cx) {
    let n = p256::n_nat();
    let d = nonzero(cx);
    let q = p256::mul_base(&d);
    let u = nonzero(cx);
    let e = nonzero(cx);
    if cx.rng.chance(1, 4) {
        return c09_large_x(cx);
    }
    let (u1, u2, what) = match cx.rng.below(3) {
        // u2*d = u1: both summands equal
        0 => (u.mulmod(&d, &n), u.clone(), "equal summands"),
        // u1 = 0 (hash is 0 mod n)
        1 => (Nat::zero(), u.clone(), "hash is zero"),
        _ => (e, u.clone(), "arbitrary summands"),
    };
    let sum = p256::add(&p256::mul_base(&u1), &p256::mul(&u2, &q));
    let Some((x, _)) = sum else { return };
    let r = Nat::from_digits(&x).rem(&n);
    if r.is_zero() {
        return;
    }
    // s = r / u2, z = u1 * s
    let s = r.mulmod(&ecdsa::inv_n(&u2), &n);
    let z = u1.mulmod(&s, &n);
    let h: [u8; 32] = z.to_be(32).try_into().unwrap();
    let (pk, _) = proj(cx, &q);
    cx.ctx(format!("d={} hash={} r={} s={} ({what})", hex(&d.to_be(32)), hex(&h), hex(&r.to_be(32)), hex(&s.to_be(32))));
    cx.op(&format!("verify_signature (constructed, {what})"));
    assert!(ecdsa::verify(&q, &h, &r, &s), "harness: constructed signature");
    let got = verify_signature::<C>(b"m", &pk, |_| h, &sig(&r, &s)).is_ok();
    cx.eqn(&format!("verify_signature (constructed, {what})"), got as u64, 1);
    cx.rep.count(&format!("constructed valid signatures: {what}"));
}
/// A valid signature whose ephemeral point's x-coordinate is at least the group order, so that
/// `r` is the reduced coordinate. The public key is recovered from the signature.
fn c09_large_x(cx: &mut Cx) {
    let n = p256::n_nat();
    let gap = p256::p_nat().sub(&n);
    let (x, y) = loop {
        let t = match cx.rng.below(3) {
            0 => Nat::from_u64(cx.rng.below(200) as u64),
            1 => gap.sub(&Nat::from_u64(1 + cx.rng.below(200) as u64)),
            _ => Nat::from_le(&cx.rng.bytes(20)).rem(&gap),
        };
        let x: p256::Fe = n.add(&t).arr();
        if let Some(y) = p256::lift_x(&x) {
            break (x, y);
        }
    };
    let rp = Some((x, y));
    let r = Nat::from_digits(&x).rem(&n);
    if r.is_zero() {
        return;
    }
    let s = nonzero(cx);
    let z = nonzero(cx);
    let si = ecdsa::inv_n(&s);
    let (u1, u2) = (z.mulmod(&si, &n), r.mulmod(&si, &n));
    let q = p256::mul(&ecdsa::inv_n(&u2), &p256::add(&rp, &p256::neg(&p256::mul_base(&u1))));
    if q.is_none() {
        return;
    }
    let h: [u8; 32] = z.to_be(32).try_into().unwrap();
    let (pk, _) = proj(cx, &q);
    cx.ctx(format!("large x: x={} hash={} r={} s={}", hex(&p256::fe_to_be(&x)), hex(&h), hex(&r.to_be(32)), hex(&s.to_be(32))));
    assert!(ecdsa::verify(&q, &h, &r, &s), "harness: large-x signature");
    cx.op("verify_signature (x-coordinate at least the order)");
    let got = verify_signature::<C>(b"m", &pk, |_| h, &sig(&r, &s)).is_ok();
    cx.eqn("verify_signature (x-coordinate at least the order)", got as u64, 1);
    let bad = r.add(&Nat::one());
    let got = verify_signature::<C>(b"m", &pk, |_| h, &sig(&bad, &s)).is_ok();
    cx.eqn("verify_signature (wrong r next to a large x)", got as u64, ecdsa::verify(&q, &h, &bad, &s) as u64);
    cx.rep.count("constructed valid signatures: x at least the order");
}
/// With the crate's own SHA-256 as the hash function.
pub fn c09_sha(cx: &mut Cx) {
    let d = nonzero(cx);
    let len = cx.rng.below(200);
    let msg = cx.rng.bytes(len);
    let k = nonzero(cx);
    let Some((r, s)) = ecdsa::sign(&d, &hash::sha256(&msg), &k) else { return };
    cx.ctx(format!("d={} k={} msg={}", hex(&d.to_be(32)), hex(&k.to_be(32)), short(&msg)));
    cx.op("ecdsa::sign with Sha256");
    let got = sign::<C>(&msg, &fnn(&d), Sha256::hash, || fnn(&k));
    cx.ok("signature with Sha256 equals the standard's", got == sig(&r, &s));
    let pk = C::BASE_POINT.mul_scalar(&fnn(&d));
    cx.ok("signature with Sha256 verifies", verify_signature(&msg, &pk, Sha256::hash, &got).is_ok());
    let mut m2 = msg.clone();
    m2.push(0);
    cx.ok("longer message refused", verify_signature(&m2, &pk, Sha256::hash, &got).is_err());
    if !msg.is_empty() {
        let i = cx.rng.below(msg.len());
        m2 = msg.clone();
        m2[i] ^= 1 << cx.rng.below(8);
        cx.ok("changed message refused", verify_signature(&m2, &pk, Sha256::hash, &got).is_err());
    }
    cx.rep.count("signatures over Sha256");
}
