//! Workloads and oracles for big integers and prime fields.
use crate::cx::{hex, Cx};
use crylib::big_int::{BigInt, UBigInt};
use crylib::finite_field::{FieldElement, FiniteField};
use refc::nat::Nat;
use std::cmp::Ordering;

fn n<const N: usize>(u: &UBigInt<N>) -> Nat {
    Nat::from_digits(&u.0)
}

/// Operations available at every width.
fn ubig_any<const N: usize>(cx: &mut Cx) {
    let w = format!("UBigInt<{N}>");
    let a = UBigInt::<N>(cx.rng.digits());
    let b = if cx.rng.chance(1, 8) { a } else { UBigInt::<N>(cx.rng.digits()) };
    let d = cx.rng.digit();
    cx.ctx(format!("{w} a={:x?} b={:x?} digit={d:#x}", a.0, b.0));
    let (na, nb) = (n(&a), n(&b));
    let m = Nat::pow2(64 * N);
    let sum = na.add(&nb);
    let diff = m.add(&na).sub(&nb).low(64 * N);
    let carry = sum.bits() > 64 * N;
    let borrow = na < nb;
    let sum = sum.low(64 * N).arr::<N>();
    let diff = diff.arr::<N>();

    cx.op("UBigInt add/sub");
    let (s, c) = a.overflowing_add(&b);
    cx.eqd("UBigInt::overflowing_add", &s.0, &sum);
    cx.eqn("UBigInt::overflowing_add carry", c as u64, carry as u64);
    let mut x = a;
    let c = x.overflowing_add_assign(&b);
    cx.eqd("UBigInt::overflowing_add_assign", &x.0, &sum);
    cx.eqn("UBigInt::overflowing_add_assign carry", c as u64, carry as u64);
    let (s, c) = a.overflowing_sub(&b);
    cx.eqd("UBigInt::overflowing_sub", &s.0, &diff);
    cx.eqn("UBigInt::overflowing_sub borrow", c as u64, borrow as u64);
    let mut x = a;
    let c = x.overflowing_sub_assign(&b);
    cx.eqd("UBigInt::overflowing_sub_assign", &x.0, &diff);
    cx.eqn("UBigInt::overflowing_sub_assign borrow", c as u64, borrow as u64);
    cx.eqd("UBigInt::add", &a.add(&b).0, &sum);
    let mut x = a;
    x.add_assign(&b);
    cx.eqd("UBigInt::add_assign", &x.0, &sum);
    cx.eqd("UBigInt::sub", &a.sub(&b).0, &diff);
    let mut x = a;
    x.sub_assign(&b);
    cx.eqd("UBigInt::sub_assign", &x.0, &diff);
    let dbl = na.shl(1).low(64 * N).arr::<N>();
    cx.op("UBigInt double");
    cx.eqd("UBigInt::double", &a.double().0, &dbl);
    let mut x = a;
    x.double_assign();
    cx.eqd("UBigInt::double_assign", &x.0, &dbl);

    cx.op("UBigInt mul_digit");
    let p = na.mul(&Nat::from_u64(d));
    let pl = p.low(64 * N).arr::<N>();
    let ph = p.shr(64 * N).arr::<1>()[0];
    cx.eqd("UBigInt::mul_digit", &a.mul_digit(d).0, &pl);
    let mut x = a;
    x.mul_digit_assign(d);
    cx.eqd("UBigInt::mul_digit_assign", &x.0, &pl);
    let (x, c) = a.overflowing_mul_digit(d);
    cx.eqd("UBigInt::overflowing_mul_digit", &x.0, &pl);
    cx.eqn("UBigInt::overflowing_mul_digit carry", c, ph);
    let mut x = a;
    let c = x.overflowing_mul_digit_assign(d);
    cx.eqd("UBigInt::overflowing_mul_digit_assign", &x.0, &pl);
    cx.eqn("UBigInt::overflowing_mul_digit_assign carry", c, ph);

    cx.op("UBigInt counting");
    let digits = na.bits().div_ceil(64);
    cx.eqn("UBigInt::count_digits", a.count_digits() as u64, digits as u64);
    cx.eqn("UBigInt::count_digits_fast", a.count_digits_fast() as u64, digits as u64);
    cx.eqn("UBigInt::count_bits", a.count_bits() as u64, na.bits() as u64);
    cx.eqn("UBigInt::len", a.len() as u64, N as u64);

    cx.op("UBigInt shifts");
    let sh = if cx.rng.chance(1, 4) { cx.rng.digit() } else { cx.rng.below(200) as u64 };
    cx.ctx(format!("{w} a={:x?} shift={sh}", a.0));
    let k = (sh % 64) as usize;
    let l = na.shl(k).low(64 * N).arr::<N>();
    let r = na.shr(k).arr::<N>();
    cx.eqd("UBigInt::shift_left", &a.shift_left(sh).0, &l);
    cx.eqd("UBigInt::shift_right", &a.shift_right(sh).0, &r);
    let mut x = a;
    x.shift_left_assign(sh);
    cx.eqd("UBigInt::shift_left_assign", &x.0, &l);
    let mut x = a;
    x.shift_right_assign(sh);
    cx.eqd("UBigInt::shift_right_assign", &x.0, &r);
    if digits > 0 {
        cx.op("UBigInt::left_align");
        let mut x = a;
        let by = x.left_align();
        let want = (64 - (na.bits() - 1) % 64 - 1) as u64;
        cx.eqn("UBigInt::left_align shift", by, want);
        cx.eqd("UBigInt::left_align", &x.0, &na.shl(want as usize).arr::<N>());
    }

    cx.op("UBigInt bitwise");
    cx.ctx(format!("{w} a={:x?} b={:x?}", a.0, b.0));
    fn z<const N: usize>(a: &UBigInt<N>, b: &UBigInt<N>, f: impl Fn(u64, u64) -> u64) -> [u64; N] {
        std::array::from_fn(|i| f(a.0[i], b.0[i]))
    }
    macro_rules! bitop {
        ($f:ident, $g:ident, $e:expr) => {{
            let want = z(&a, &b, $e);
            cx.eqd(concat!("UBigInt::", stringify!($f)), &a.$f(&b).0, &want);
            let mut x = a;
            x.$g(&b);
            cx.eqd(concat!("UBigInt::", stringify!($g)), &x.0, &want);
        }};
    }
    bitop!(xor, xor_assign, |x, y| x ^ y);
    bitop!(and, and_assign, |x, y| x & y);
    bitop!(or, or_assign, |x, y| x | y);
    bitop!(nor, nor_assign, |x, y| !(x | y));
    bitop!(xnor, xnor_assign, |x, y| !(x ^ y));
    bitop!(nand, nand_assign, |x, y| !(x & y));
    let want = z(&a, &b, |x, _| !x);
    cx.eqd("UBigInt::not", &a.not().0, &want);
    let mut x = a;
    x.not_assign();
    cx.eqd("UBigInt::not_assign", &x.0, &want);
    for t in [false, true] {
        let want = if t { a.0 } else { [0; N] };
        cx.eqd("UBigInt::and_bool", &a.and_bool(t).0, &want);
        let mut x = a;
        x.and_bool_assign(t);
        cx.eqd("UBigInt::and_bool_assign", &x.0, &want);
    }

    cx.op("UBigInt compare");
    let o = na.cmp(&nb);
    cx.eqn("UBigInt::cmp", a.cmp(&b) as i8 as u64, o as i8 as u64);
    cx.ok("UBigInt::partial_cmp", a.partial_cmp(&b) == Some(o));
    cx.eqn("UBigInt <", (a < b) as u64, (o == Ordering::Less) as u64);
    cx.eqn("UBigInt <=", (a <= b) as u64, (o != Ordering::Greater) as u64);
    cx.eqn("UBigInt >", (a > b) as u64, (o == Ordering::Greater) as u64);
    cx.eqn("UBigInt >=", (a >= b) as u64, (o != Ordering::Less) as u64);
    cx.eqn("UBigInt ==", (a == b) as u64, (o == Ordering::Equal) as u64);
    cx.ok("UBigInt::max", n(&a.max(b)) == na.clone().max(nb.clone()));

    cx.op("UBigInt bit access");
    let bit = match cx.rng.below(3) {
        0 => cx.rng.below(N) * 64 + *cx.rng.pick(&[0usize, 63]),
        _ => cx.rng.below(64 * N),
    };
    let byte = cx.rng.below(8 * N);
    let v = cx.rng.u8();
    let on = v & 1 == 1;
    cx.ctx(format!("{w} a={:x?} bit={bit} byte={byte} value={v}", a.0));
    cx.eqn("UBigInt::get_bit", a.get_bit(bit) as u64, na.bit(bit) as u64);
    let mut x = a;
    x.set_bit(bit, on);
    let mut want = a.0;
    want[bit / 64] = want[bit / 64] & !(1 << (bit % 64)) | ((on as u64) << (bit % 64));
    cx.eqd("UBigInt::set_bit", &x.0, &want);
    let mut x = a;
    x.set_byte(byte, v);
    let mut le = na.to_le(8 * N);
    le[byte] = v;
    cx.eqd("UBigInt::set_byte", &x.0, &Nat::from_le(&le).arr::<N>());

    cx.op("UBigInt format and conversions");
    let hexs = hex(&na.to_be(8 * N));
    cx.eqs("UBigInt {:x}", &format!("{a:x}"), &format!("0x{hexs}"));
    cx.eqs("UBigInt {}", &format!("{a}"), &format!("0x{hexs}"));
    cx.eqs("UBigInt {:X}", &format!("{a:X}"), &format!("0x{}", hexs.to_uppercase()));
    let dbg: String = a.0.iter().map(|d| format!("{d:016x}, ")).collect();
    cx.eqs("UBigInt {:?}", &format!("{a:?}"), &format!("{{ {dbg}}}"));
    let arr: [u64; N] = a.into();
    cx.eqd("UBigInt into array", &arr, &a.0);
    cx.eqd("UBigInt from array", &UBigInt::<N>::from(a.0).0, &a.0);
    cx.eqd("UBigInt::new", &UBigInt::<N>::new(a.0).0, &a.0);
    cx.eqd("UBigInt from u64", &UBigInt::<N>::from(d).0, &Nat::from_u64(d).arr::<N>());
    cx.eqd("UBigInt::from_ref", &UBigInt::from_ref(&a.0).0, &a.0);
    let mut arr = a.0;
    UBigInt::from_ref_mut(&mut arr).add_assign(&b);
    cx.eqd("UBigInt::from_ref_mut", &arr, &sum);
    let r: &[u64; N] = a.as_ref();
    cx.eqd("UBigInt as array ref", r, &a.0);
    let mut x = a;
    let r: &mut [u64; N] = x.as_mut();
    *r = b.0;
    cx.eqd("UBigInt as array mut", &x.0, &b.0);
    let mut arr = a.0;
    let r: &mut UBigInt<N> = arr.as_mut();
    r.add_assign(&b);
    cx.eqd("array as UBigInt mut", &arr, &sum);
    let r: &UBigInt<N> = a.0.as_ref();
    cx.eqd("array as UBigInt ref", &r.0, &a.0);
    let t = UBigInt::<N>::try_from(&a.0[..]);
    cx.ok("UBigInt from slice", t.map(|x| x.0 == a.0).unwrap_or(false));
    cx.ok("UBigInt from a slice of the wrong length", UBigInt::<N>::try_from(&a.0[..N - 1]).is_err());
    cx.eqd("UBigInt constants", &[UBigInt::<N>::ZERO.0, UBigInt::<N>::MAX.0, UBigInt::<N>::MIN.0, UBigInt::<N>::ONE.0, UBigInt::<N>::default().0].concat(), &[[0; N], [u64::MAX; N], [0; N], Nat::one().arr::<N>(), [0; N]].concat());

    cx.op("UBigInt::resize");
    macro_rules! rs {
        ($($o:literal),*) => {$( cx.eqd("UBigInt::resize", &a.resize::<$o>().0, &na.low(64 * $o).arr::<$o>()); )*};
    }
    rs!(1, 2, 3, 4, 5, 6, 8, 9, 16);
    cx.rep.count(&format!("{w} operand pairs"));
}

/// Operand pairs that make long division's quotient estimate work hard.
fn div_pair<const N: usize>(cx: &mut Cx) -> (Nat, Nat) {
    let mut d = Nat::from_digits(&cx.rng.digits::<N>());
    match cx.rng.below(8) {
        0 => {
            // divisor of few digits
            let k = cx.rng.range(1, 64 * N);
            d = d.low(k);
        },
        1 => {
            // top digit 2^63 (or just above), then zeros or ones
            let k = cx.rng.range(1, N);
            let mut x = vec![*cx.rng.pick(&[0u64, 0, u64::MAX, 1]); k];
            x[k - 1] = *cx.rng.pick(&[1u64 << 63, (1 << 63) + 1, u64::MAX, 1, u64::MAX - 1]);
            x[0] = cx.rng.digit();
            d = Nat::from_digits(&x);
        },
        _ => {},
    }
    if d.is_zero() {
        d = Nat::one();
    }
    let m = Nat::pow2(64 * N);
    let num = match cx.rng.below(4) {
        0 => Nat::from_digits(&cx.rng.digits::<N>()),
        k => {
            // q * d + r with r at the ends of its range
            let room = (64 * N).saturating_sub(d.bits());
            let q = Nat::from_digits(&cx.rng.digits::<N>()).low(room.max(1) - (k == 1) as usize * (room > 1) as usize);
            let r = match cx.rng.below(4) {
                0 => Nat::zero(),
                1 => d.sub(&Nat::one()),
                2 => Nat::from_digits(&cx.rng.digits::<N>()).rem(&d),
                _ => Nat::one().rem(&d),
            };
            q.mul(&d).add(&r)
        },
    };
    (if num < m { num } else { num.low(64 * N) }, d)
}

macro_rules! ubig_width {
    ($name:ident, $n:literal) => {
        fn $name(cx: &mut Cx) {
            ubig_any::<$n>(cx);
            let w = concat!("UBigInt<", $n, ">");
            let a = UBigInt::<$n>(cx.rng.digits());
            let b = UBigInt::<$n>(cx.rng.digits());
            cx.ctx(format!("{w} a={:x?} b={:x?}", a.0, b.0));
            cx.op("UBigInt::widening_mul");
            cx.eqd("UBigInt::widening_mul", &a.widening_mul(&b).0, &n(&a).mul(&n(&b)).arr::<{ 2 * $n }>());
            let sh = if cx.rng.chance(1, 4) { cx.rng.digit() } else { cx.rng.below(130) as u64 };
            cx.ctx(format!("{w} a={:x?} shift={sh}", a.0));
            cx.op("UBigInt::widening_shift_left");
            cx.eqd("UBigInt::widening_shift_left", &a.widening_shift_left(sh).0, &n(&a).shl((sh % 64) as usize).arr::<{ $n + 1 }>());
            let (nn, nd) = div_pair::<$n>(cx);
            let (q, r) = nn.divrem(&nd);
            let (x, d) = (UBigInt::<$n>(nn.arr()), UBigInt::<$n>(nd.arr()));
            cx.ctx(format!("{w} n={:x?} d={:x?}", x.0, d.0));
            cx.op("UBigInt::div");
            let (gq, gr) = x.div(&d);
            cx.eqd("UBigInt::div quotient", &gq.0, &q.arr::<$n>());
            cx.eqd("UBigInt::div remainder", &gr.0, &r.arr::<$n>());
            let mut y = x;
            y.div_assign(&d);
            cx.eqd("UBigInt::div_assign", &y.0, &q.arr::<$n>());
            if cx.rng.chance(1, 20) {
                cx.panics("UBigInt::div by zero panics", || {
                    std::hint::black_box(a.div(&UBigInt::ZERO));
                });
            }
            cx.rep.count(match (q.bits().div_ceil(64), nd.bits().div_ceil(64)) {
                (0, _) => "division: quotient 0",
                (_, 1) => "division: one-digit divisor",
                (1, _) => "division: one-digit quotient",
                _ => "division: several digits",
            });
            cx.op("UBigInt bytes");
            let be = n(&a).to_be(8 * $n);
            let le = n(&a).to_le(8 * $n);
            cx.ctx(format!("{w} a={:x?}", a.0));
            cx.eq("UBigInt::to_be_bytes", &a.to_be_bytes(), &be);
            cx.eq("UBigInt::to_le_bytes", &a.to_le_bytes(), &le);
            cx.eqd("UBigInt::from_be_bytes", &UBigInt::<$n>::from_be_bytes(be.try_into().unwrap()).0, &a.0);
            cx.eqd("UBigInt::from_le_bytes", &UBigInt::<$n>::from_le_bytes(le.try_into().unwrap()).0, &a.0);
        }
    };
}
ubig_width!(u2, 2);
ubig_width!(u3, 3);
ubig_width!(u4, 4);
ubig_width!(u5, 5);
ubig_width!(u6, 6);
ubig_width!(u8_, 8);
pub fn c05(cx: &mut Cx) {
    match cx.rng.below(9) {
        0 => u2(cx),
        1 | 2 => u3(cx),
        3 | 4 => u4(cx),
        5 => u5(cx),
        6 => u6(cx),
        7 => u8_(cx),
        _ => match cx.rng.below(3) {
            0 => ubig_any::<1>(cx),
            1 => ubig_any::<7>(cx),
            _ => ubig_any::<9>(cx),
        },
    }
}

/// Mathematical value of a signed big integer: magnitude and sign.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Int {
    neg: bool,
    mag: Nat,
}
impl Int {
    fn new(neg: bool, mag: Nat) -> Int {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    fn negate(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, self.mag.add(&o.mag));
        }
        if self.mag >= o.mag {
            Int::new(self.neg, self.mag.sub(&o.mag))
        } else {
            Int::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    /// Two's complement on 64n bits plus a sign bit.
    fn wrap(&self, n: usize) -> (Vec<u64>, bool) {
        let bits = 64 * n + 1;
        let m = Nat::pow2(bits);
        let v = if self.neg { m.sub(&self.mag.low(bits)).low(bits) } else { self.mag.low(bits) };
        (v.digits(n), v.bit(64 * n))
    }
    fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}
/// Builds a `BigInt` from its two's complement image through the public interface.
fn mk<const N: usize>(d: [u64; N], neg: bool) -> BigInt<N> {
    let b = BigInt::<N>::from(UBigInt(d));
    if neg {
        b.xor(&BigInt::MIN)
    } else {
        b
    }
}
fn val<const N: usize>(d: [u64; N], neg: bool) -> Int {
    let m = Nat::from_digits(&d);
    if neg {
        Int::new(true, Nat::pow2(64 * N).sub(&m))
    } else {
        Int::new(false, m)
    }
}
fn read<const N: usize>(b: &BigInt<N>) -> (Vec<u64>, bool) {
    // strip the sign bit, then the digits are available through `TryFrom`
    let neg = b.is_negative();
    let pos = if neg { b.xor(&BigInt::MIN) } else { *b };
    match UBigInt::<N>::try_from(pos) {
        Ok(d) => (d.0.to_vec(), neg),
        Err(_) => (vec![0xbad], neg),
    }
}
fn same<const N: usize>(cx: &mut Cx, what: &str, got: &BigInt<N>, want: &Int) {
    let (d, s) = read(got);
    let (wd, ws) = want.wrap(N);
    let mut g = d;
    g.push(s as u64);
    let mut w = wd;
    w.push(ws as u64);
    cx.eqd(what, &g, &w);
}
fn sop<const N: usize>(cx: &mut Cx) -> ([u64; N], bool) {
    match cx.rng.below(8) {
        0 => ([0; N], true),         // MIN
        1 => ([u64::MAX; N], true),  // -1
        2 => ([u64::MAX; N], false), // MAX
        3 => {
            let mut d = [0; N];
            d[0] = cx.rng.below(4) as u64;
            (d, cx.rng.chance(1, 2))
        },
        _ => (cx.rng.digits(), cx.rng.chance(1, 2)),
    }
}
fn big_any<const N: usize>(cx: &mut Cx) {
    let (da, sa) = sop::<N>(cx);
    let (db, sb) = match cx.rng.below(8) {
        0 => (da, sa),
        1 => (da, !sa),
        _ => sop::<N>(cx),
    };
    cx.ctx(format!("BigInt<{N}> a={da:x?} sign {} b={db:x?} sign {} (two's complement)", sa as u8, sb as u8));
    cx.op("BigInt construction");
    let (a, b) = (mk(da, sa), mk(db, sb));
    let (va, vb) = (val(da, sa), val(db, sb));
    let sgn = match (sa, sb) {
        (false, false) => "both non-negative",
        (true, true) => "both negative",
        _ => "signs differ",
    };
    same(cx, "BigInt construction", &a, &va);
    cx.eqn("BigInt::is_negative", a.is_negative() as u64, sa as u64);
    cx.eqn("BigInt::is_positive", a.is_positive() as u64, (!sa && !va.mag.is_zero()) as u64);
    cx.op("BigInt add/sub/neg");
    macro_rules! two {
        ($f:ident, $g:ident, $e:expr) => {{
            let want = $e;
            same(cx, concat!("BigInt::", stringify!($f)), &a.$f(&b), &want);
            let mut x = a;
            x.$g(&b);
            same(cx, concat!("BigInt::", stringify!($g)), &x, &want);
        }};
    }
    two!(add, add_assign, va.add(&vb));
    two!(sub, sub_assign, va.add(&vb.negate()));
    let xd: [u64; N] = std::array::from_fn(|i| da[i] ^ db[i]);
    two!(xor, xor_assign, val(xd, sa ^ sb));
    macro_rules! one {
        ($f:ident, $g:ident, $sig:expr, $e:expr) => {{
            let want = $e;
            let s = $sig;
            same(cx, &format!("BigInt::{}{s}", stringify!($f)), &a.$f(), &want);
            let mut x = a;
            x.$g();
            same(cx, &format!("BigInt::{}{s}", stringify!($g)), &x, &want);
        }};
    }
    one!(neg, neg_assign, "", va.negate());
    one!(not, not_assign, "", val::<N>(std::array::from_fn(|i| !da[i]), !sa));
    let min = sa && da == [0; N];
    cx.op("BigInt::abs");
    one!(abs, abs_assign, if min { " of MIN" } else if sa { " of a negative" } else { " of a non-negative" }, if min { Int::new(false, Nat::zero()) } else { Int::new(false, va.mag.clone()) });
    cx.eqn("BigInt::len", a.len() as u64, N as u64);

    cx.op("BigInt compare");
    let o = va.cmp(&vb);
    cx.eqn(&format!("BigInt::cmp ({sgn})"), a.cmp(&b) as i8 as u64, o as i8 as u64);
    cx.ok(&format!("BigInt::partial_cmp ({sgn})"), a.partial_cmp(&b) == Some(o));
    cx.eqn(&format!("BigInt < ({sgn})"), (a < b) as u64, (o == Ordering::Less) as u64);
    cx.eqn(&format!("BigInt <= ({sgn})"), (a <= b) as u64, (o != Ordering::Greater) as u64);
    cx.eqn(&format!("BigInt > ({sgn})"), (a > b) as u64, (o == Ordering::Greater) as u64);
    cx.eqn(&format!("BigInt >= ({sgn})"), (a >= b) as u64, (o != Ordering::Less) as u64);
    cx.eqn("BigInt ==", (a == b) as u64, (o == Ordering::Equal) as u64);
    same(cx, &format!("BigInt::max ({sgn})"), &a.max(b), if o == Ordering::Less { &vb } else { &va });

    cx.op("BigInt conversions");
    let t = UBigInt::<N>::try_from(a);
    match (sa, t) {
        (true, Err(_)) => cx.ok("UBigInt::try_from(negative) fails", true),
        (false, Ok(d)) => cx.eqd("UBigInt::try_from(non-negative)", &d.0, &da),
        _ => cx.ok("UBigInt::try_from(BigInt) depends on the sign only", false),
    }
    same(cx, "BigInt::from(UBigInt)", &BigInt::from(UBigInt(da)), &val(da, false));
    let s = if sa { " of a negative" } else { "" };
    macro_rules! rs {
        ($($o:literal),*) => {$(
            if $o >= N {
                same(cx, &format!("BigInt::resize (widening){s}"), &a.resize::<$o>(), &va);
            }
        )*};
    }
    rs!(3, 4, 6, 8, 9, 16);
    for (g, w) in [
        (BigInt::<N>::ZERO, val([0; N], false)),
        (BigInt::<N>::ONE, Int::new(false, Nat::one())),
        (BigInt::<N>::NEG_ONE, Int::new(true, Nat::one())),
        (BigInt::<N>::MAX, val([u64::MAX; N], false)),
        (BigInt::<N>::MIN, val([0; N], true)),
        (BigInt::<N>::default(), val([0; N], false)),
    ] {
        same(cx, "BigInt constants", &g, &w);
    }
    cx.rep.count(&format!("BigInt<{N}> {sgn}"));
}
macro_rules! big_width {
    ($name:ident, $n:literal) => {
        fn $name(cx: &mut Cx) {
            big_any::<$n>(cx);
            let (da, sa) = sop::<$n>(cx);
            let (db, sb) = sop::<$n>(cx);
            let (a, b) = (mk(da, sa), mk(db, sb));
            let (va, vb) = (val(da, sa), val(db, sb));
            cx.ctx(format!("BigInt<{}> a={da:x?} sign {} b={db:x?} sign {} (two's complement)", $n, sa as u8, sb as u8));
            let sgn = if sa || sb { " with a negative operand" } else { "" };
            cx.op(&format!("BigInt::widening_mul{sgn}"));
            same(cx, &format!("BigInt::widening_mul{sgn}"), &a.widening_mul(&b), &Int::new(sa ^ sb, va.mag.mul(&vb.mag)));

            // division, with operands as hard as the unsigned ones
            let (nn, nd) = div_pair::<$n>(cx);
            let (sn, sd) = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
            let (mut vn, mut vd) = (Int::new(sn, nn), Int::new(sd, nd));
            if cx.rng.chance(1, 16) {
                vn = val([0; $n], true);
            }
            if cx.rng.chance(1, 16) {
                vd = val([0; $n], true);
            }
            let (xn, tn) = vn.wrap($n);
            let (xd, td) = vd.wrap($n);
            let (x, d) = (mk::<$n>(xn.clone().try_into().unwrap(), tn), mk::<$n>(xd.clone().try_into().unwrap(), td));
            cx.ctx(format!("BigInt<{}> n={xn:x?} sign {} d={xd:x?} sign {} (two's complement)", $n, tn as u8, td as u8));
            let (q, r) = vn.mag.divrem(&vd.mag);
            let sgn = if tn || td { " with a negative operand" } else { "" };
            cx.op(&format!("BigInt::div{sgn}"));
            let (gq, gr) = x.div(&d);
            let wq = Int::new(vn.neg ^ vd.neg, q);
            same(cx, &format!("BigInt::div quotient{sgn}"), &gq, &wq);
            same(cx, &format!("BigInt::div remainder{sgn}"), &gr, &Int::new(vn.neg, r));
            let mut y = x;
            y.div_assign(&d);
            same(cx, &format!("BigInt::div_assign{sgn}"), &y, &wq);
            if cx.rng.chance(1, 20) {
                cx.panics("BigInt::div by zero panics", || {
                    std::hint::black_box(x.div(&BigInt::ZERO));
                });
            }
        }
    };
}
big_width!(b3, 3);
big_width!(b4, 4);
big_width!(b8, 8);
pub fn c06(cx: &mut Cx) {
    match cx.rng.below(8) {
        0 | 1 => b3(cx),
        2..=4 => b4(cx),
        5 | 6 => b8(cx),
        _ => match cx.rng.below(3) {
            0 => big_any::<1>(cx),
            1 => big_any::<2>(cx),
            _ => big_any::<6>(cx),
        },
    }
}

// ---- prime fields ----
macro_rules! field {
    ($t:ident, $n:literal, [$($d:expr),*]) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $t;
        // SAFETY: the moduli are primes (checked by `check_primes`).
        unsafe impl FiniteField<$n> for $t {
            const MODULUS: UBigInt<$n> = UBigInt([$($d),*]);
        }
    };
}
const M: u64 = u64::MAX;
// width 3
field!(P130, 3, [0xfffffffffffffffb, M, 3]); // 2^130 - 5
field!(P192, 3, [M, M - 1, M]); // NIST P-192
field!(P192hi, 3, [M - 236, M, M]); // 2^192 - 237
field!(P3tiny, 3, [2, 0, 0]);
field!(P3seven, 3, [7, 0, 0]);
field!(P3m61, 3, [(1 << 61) - 1, 0, 0]); // 2^61 - 1
field!(P3m127, 3, [M, M >> 1, 0]); // 2^127 - 1
// width 4
field!(P256, 4, [M, 0xffffffff, 0, 0xffffffff00000001]);
field!(N256, 4, [0xf3b9cac2fc632551, 0xbce6faada7179e84, M, 0xffffffff00000000]);
field!(P25519, 4, [M - 18, M, M, M >> 1]);
field!(P256hi, 4, [M - 188, M, M, M]); // 2^256 - 189
field!(PK1, 4, [0xfffffffefffffc2f, M, M, M]); // secp256k1
field!(P4three, 4, [3, 0, 0, 0]);
field!(P4m89, 4, [M, (1 << 25) - 1, 0, 0]); // 2^89 - 1
field!(P4mid, 4, [M - 58, 0, 0, 0]); // 2^64 - 59

pub fn check_primes(rep: &mut refc::report::Report) {
    let all: Vec<Nat> = vec![
        n(&P130::MODULUS),
        n(&P192::MODULUS),
        n(&P192hi::MODULUS),
        n(&P3tiny::MODULUS),
        n(&P3seven::MODULUS),
        n(&P3m61::MODULUS),
        n(&P3m127::MODULUS),
        n(&P256::MODULUS),
        n(&N256::MODULUS),
        n(&P25519::MODULUS),
        n(&P256hi::MODULUS),
        n(&PK1::MODULUS),
        n(&P4three::MODULUS),
        n(&P4m89::MODULUS),
        n(&P4mid::MODULUS),
    ];
    for (i, p) in all.iter().enumerate() {
        assert!(p.is_prime(), "harness modulus {i} is not prime");
    }
    rep.add("prime moduli", all.len() as u64);
}

fn felt<const N: usize>(cx: &mut Cx, p: &Nat) -> Nat {
    let half = p.shr(1);
    match cx.rng.below(10) {
        0 => Nat::zero(),
        1 => Nat::one().rem(p),
        2 => p.sub(&Nat::one()),
        3 => half.clone(),
        4 => half.add(&Nat::one()).rem(p),
        5 => {
            let k = cx.rng.below(4) as u64;
            let m = p.sub(&Nat::one());
            m.sub(&Nat::from_u64(k).rem(p))
        },
        6 => Nat::from_u64(cx.rng.digit()).rem(p),
        _ => Nat::from_digits(&cx.rng.digits::<N>()).rem(p),
    }
}

macro_rules! field_case {
    ($name:ident, $n:literal) => {
        fn $name<F: FiniteField<$n>, G: FiniteField<$n>>(cx: &mut Cx, nm: &str) {
            let p = n(&F::MODULUS);
            let (na, nb) = (felt::<$n>(cx, &p), felt::<$n>(cx, &p));
            let nb = if cx.rng.chance(1, 8) { na.clone() } else if cx.rng.chance(1, 8) { p.sub(&na).rem(&p) } else { nb };
            let d = cx.rng.digit();
            cx.ctx(format!("field {nm} p={:x?} a={:x?} b={:x?} digit={d:#x}", F::MODULUS.0, na.arr::<$n>(), nb.arr::<$n>()));
            type E<F> = FieldElement<$n, F>;
            // SAFETY: reduced
            let (a, b): (E<F>, E<F>) = unsafe { (E::new_unchecked(UBigInt(na.arr())), E::new_unchecked(UBigInt(nb.arr()))) };
            macro_rules! is {
                ($w:expr, $g:expr, $e:expr) => {{
                    let g: E<F> = $g;
                    cx.eqd($w, &g.inner().0, &$e.arr::<$n>());
                }};
            }
            macro_rules! two {
                ($f:ident, $g:ident, $e:expr) => {{
                    let want = $e;
                    cx.op(concat!("FieldElement<", $n, ">::", stringify!($f)));
                    is!(concat!("FieldElement<", $n, ">::", stringify!($f)), a.$f(&b), want);
                    let mut x = a;
                    x.$g(&b);
                    is!(concat!("FieldElement<", $n, ">::", stringify!($g)), x, want);
                }};
            }
            macro_rules! one {
                ($f:ident, $g:ident, $e:expr) => {{
                    let want = $e;
                    cx.op(concat!("FieldElement<", $n, ">::", stringify!($f)));
                    is!(concat!("FieldElement<", $n, ">::", stringify!($f)), a.$f(), want);
                    let mut x = a;
                    x.$g();
                    is!(concat!("FieldElement<", $n, ">::", stringify!($g)), x, want);
                }};
            }
            two!(add, add_assign, na.add(&nb).rem(&p));
            two!(sub, sub_assign, p.add(&na).sub(&nb).rem(&p));
            two!(mul, mul_assign, na.mulmod(&nb, &p));
            one!(double, double_assign, na.add(&na).rem(&p));
            one!(neg, neg_assign, p.sub(&na).rem(&p));
            one!(sqr, sqr_assign, na.mulmod(&na, &p));
            if !na.is_zero() {
                // SAFETY: not zero
                is!("FieldElement::neg_unchecked", unsafe { a.neg_unchecked() }, p.sub(&na));
                let mut x = a;
                unsafe { x.neg_assign_unchecked() };
                is!("FieldElement::neg_assign_unchecked", x, p.sub(&na));
            }
            cx.op(concat!("FieldElement<", $n, ">::mul_digit"));
            let want = na.mul(&Nat::from_u64(d)).rem(&p);
            is!(concat!("FieldElement<", $n, ">::mul_digit"), a.mul_digit(d), want);
            let mut x = a;
            x.mul_digit_assign(d);
            is!(concat!("FieldElement<", $n, ">::mul_digit_assign"), x, want);
            if !nb.is_zero() {
                let inv = nb.powmod(&p.sub(&Nat::from_u64(2)), &p);
                let inv = if p == Nat::from_u64(2) { nb.clone() } else { inv };
                cx.op(concat!("FieldElement<", $n, ">::inverse"));
                is!(concat!("FieldElement<", $n, ">::inverse"), b.inverse(), inv);
                cx.op(concat!("FieldElement<", $n, ">::div"));
                is!(concat!("FieldElement<", $n, ">::div"), a.div(&b), na.mulmod(&inv, &p));
                cx.rep.count("inversions");
            }
            // construction
            let raw = match cx.rng.below(5) {
                0 => p.clone(),
                1 => p.sub(&Nat::one()),
                2 => p.add(&Nat::one()).low(64 * $n),
                3 => p.add(&na).low(64 * $n),
                _ => Nat::from_digits(&cx.rng.digits::<$n>()),
            };
            cx.ctx(format!("field {nm} p={:x?} raw={:x?}", F::MODULUS.0, raw.arr::<$n>()));
            cx.op("FieldElement::new");
            is!(concat!("FieldElement<", $n, ">::new"), E::<F>::new(UBigInt(raw.arr())), raw.rem(&p));
            let t = E::<F>::try_new(UBigInt(raw.arr()));
            cx.eqn("FieldElement::try_new succeeds below the modulus only", t.is_some() as u64, (raw < p) as u64);
            if let Some(x) = t {
                is!("FieldElement::try_new", x, raw);
            }
            cx.eqn("TryFrom<UBigInt> succeeds below the modulus only", E::<F>::try_from(UBigInt(raw.arr())).is_ok() as u64, (raw < p) as u64);
            cx.ctx(format!("field {nm} p={:x?} a={:x?} into modulus {:x?}", F::MODULUS.0, na.arr::<$n>(), G::MODULUS.0));
            cx.op("FieldElement::convert");
            let g: FieldElement<$n, G> = a.convert();
            cx.eqd("FieldElement::convert", &g.inner().0, &na.rem(&n(&G::MODULUS)).arr::<$n>());
            // accessors
            cx.eqn("FieldElement::count_digits", a.count_digits() as u64, na.bits().div_ceil(64) as u64);
            cx.eqd("FieldElement::into_inner", &a.into_inner().0, &na.arr::<$n>());
            cx.eqn("FieldElement ==", (a == b) as u64, (na == nb) as u64);
            cx.ok("FieldElement constants", n(E::<F>::ZERO.inner()).is_zero() && n(E::<F>::ONE.inner()) == Nat::one());
            cx.rep.count(&format!("field {nm}"));
        }
    };
}
field_case!(f3, 3);
field_case!(f4, 4);
pub fn c07(cx: &mut Cx) {
    use crylib::ec::{EllipticCurve, Secp256r1};
    type Ord_ = <Secp256r1 as EllipticCurve>::Order;
    match cx.rng.below(18) {
        0 => f3::<P130, P3m127>(cx, "2^130-5"),
        1 => f3::<P192, P130>(cx, "P-192"),
        2 => f3::<P192hi, P192>(cx, "2^192-237"),
        3 => f3::<P3tiny, P130>(cx, "2 (width 3)"),
        4 => f3::<P3seven, P3tiny>(cx, "7 (width 3)"),
        5 => f3::<P3m61, P3seven>(cx, "2^61-1 (width 3)"),
        6 => f3::<P3m127, P3m61>(cx, "2^127-1 (width 3)"),
        7 | 8 => f4::<Secp256r1, Ord_>(cx, "P-256"),
        9 | 10 => f4::<Ord_, Secp256r1>(cx, "P-256 order"),
        11 => f4::<P25519, N256>(cx, "2^255-19"),
        12 => f4::<P256hi, P256>(cx, "2^256-189"),
        13 => f4::<PK1, P4mid>(cx, "secp256k1"),
        14 => f4::<P4three, P4m89>(cx, "3 (width 4)"),
        15 => f4::<P4m89, P4three>(cx, "2^89-1 (width 4)"),
        16 => f4::<P4mid, PK1>(cx, "2^64-59 (width 4)"),
        _ => f4::<P256, N256>(cx, "P-256 (harness)"),
    }
}
