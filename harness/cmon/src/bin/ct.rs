//! C10: instruction traces of compiled code. Each traced call runs with the processor's trap flag
//! set, so that the kernel delivers SIGTRAP after every instruction; the handler records the
//! instruction address. Two calls of one operation at one width must leave the same trace.
use crylib::aead::chacha::ChaCha20Poly1305;
use crylib::aead::gcm::{Aes128, Aes256, Gcm};
use crylib::aead::Aead;
use crylib::big_int::{BigInt, UBigInt};
use crylib::finite_field::{FieldElement, FiniteField};
use crylib::hash::{BlockHasher, BufHasher, Sha256, Sha512};
use crylib::hmac::Hmac;
use refc::report::{fnv, Report};
use refc::rng::Rng;
use std::arch::asm;
use std::cell::Cell;
use std::hint::black_box;

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const CAP: usize = 1 << 21;
struct Trace {
    n: usize,
    hash: u64,
    pcs: Vec<u64>,
}
thread_local! {
    static T: Cell<*mut Trace> = const { Cell::new(std::ptr::null_mut()) };
}
extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    // SAFETY: x86-64 Linux ucontext layout; REG_RIP is gregs[16] at offset 40
    let rip = unsafe { *(uc.add(40 + 16 * 8) as *const u64) };
    let t = T.with(|t| t.get());
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if t.n < CAP {
        t.pcs[t.n] = rip;
    }
    t.n += 1;
    t.hash = (t.hash ^ rip).wrapping_mul(0x100000001b3).rotate_left(23);
}
/// Runs `f` with single-step traps on.
#[inline(never)]
fn traced(t: &mut Trace, f: &mut dyn FnMut()) {
    t.n = 0;
    t.hash = 0xcbf29ce484222325;
    T.with(|c| c.set(t));
    unsafe {
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    unsafe {
        asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    T.with(|c| c.set(std::ptr::null_mut()));
}

/// One operation at one width: `run` performs the operation on operand set number `i`.
struct Op {
    name: String,
    n: usize,
    prep: Box<dyn Fn(usize) -> (Box<dyn FnMut()>, String) + Send + Sync>,
}

fn vals(n: usize, rng: &mut Rng, extra: usize) -> Vec<Vec<u64>> {
    let mut v = vec![vec![0; n], vec![u64::MAX; n]];
    let mut one = vec![0; n];
    one[0] = 1;
    v.push(one);
    for i in 0..n {
        let mut d = vec![0; n];
        d[i] = 1;
        v.push(d.clone());
        d[i] = 1 << 63;
        v.push(d.clone());
        d[i] = u64::MAX;
        v.push(d);
        let mut d = vec![u64::MAX; n];
        d[i] = 0;
        v.push(d.clone());
        d[i] = u64::MAX - 1;
        v.push(d);
        let mut d: Vec<u64> = (0..n).map(|_| rng.u64()).collect();
        for x in d[i..].iter_mut() {
            *x = 0;
        }
        v.push(d);
    }
    for _ in 0..extra {
        v.push((0..n).map(|_| rng.u64()).collect());
    }
    v
}
fn pairs(n: usize, rng: &mut Rng, cnt: usize) -> Vec<(Vec<u64>, Vec<u64>)> {
    let v = vals(n, rng, 12);
    let mut out = vec![];
    for a in v.iter() {
        out.push((a.clone(), a.clone()));
        out.push((a.clone(), vec![0; n]));
        out.push((vec![0; n], a.clone()));
        out.push((a.clone(), vec![u64::MAX; n]));
        out.push((vec![u64::MAX; n], a.clone()));
    }
    for _ in 0..cnt {
        out.push((v[rng.below(v.len())].clone(), v[rng.below(v.len())].clone()));
    }
    out
}
fn arr<const N: usize>(v: &[u64]) -> [u64; N] {
    v.try_into().unwrap()
}

/// A traced operation on owned operands: `$body` is evaluated in a function of its own.
macro_rules! op2 {
    ($ops:ident, $name:expr, $n:literal, $set:expr, $ta:ty, $mk:expr, |$a:ident, $b:ident| $body:expr) => {{
        #[inline(never)]
        fn go($a: &mut $ta, $b: &$ta) {
            black_box($body);
        }
        let set = $set;
        $ops.push(Op {
            name: format!("{}/{}", $name, $n),
            n: set.len(),
            prep: Box::new(move |i| {
                let (a, b) = &set[i];
                let d = format!("a={:016x?} b={:016x?}", a, b);
                let mk = $mk;
                let (a, b): ($ta, $ta) = (mk(a), mk(b));
                (
                    Box::new(move || {
                        let mut a = black_box(a);
                        let b = black_box(b);
                        go(&mut a, &b);
                        black_box(&a);
                    }),
                    d,
                )
            }),
        });
    }};
}
macro_rules! ubig {
    ($ops:ident, $rng:ident, $n:literal) => {{
        let set = pairs($n, &mut $rng, 40);
        macro_rules! o {
            ($name:expr, |$a:ident, $b:ident| $body:expr) => {
                op2!($ops, concat!("UBigInt::", $name), $n, set.clone(), UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |$a, $b| $body)
            };
        }
        o!("overflowing_add", |a, b| a.overflowing_add(b));
        o!("overflowing_sub", |a, b| a.overflowing_sub(b));
        o!("overflowing_add_assign", |a, b| a.overflowing_add_assign(b));
        o!("overflowing_sub_assign", |a, b| a.overflowing_sub_assign(b));
        o!("count_digits", |a, _b| a.count_digits());
        o!("add", |a, b| a.add(b));
        o!("add_assign", |a, b| a.add_assign(b));
        o!("sub", |a, b| a.sub(b));
        o!("sub_assign", |a, b| a.sub_assign(b));
        o!("mul_digit_assign", |a, b| a.mul_digit_assign(b.0[0]));
        o!("and_bool", |a, b| a.and_bool(b.0[0] & 1 == 1));
        o!("and_bool_assign", |a, b| a.and_bool_assign(b.0[0] & 1 == 1));
        o!("shift_right", |a, b| a.shift_right(b.0[0]));
        o!("shift_right_assign", |a, b| a.shift_right_assign(b.0[0]));
        o!("shift_left", |a, b| a.shift_left(b.0[0]));
        o!("shift_left_assign", |a, b| a.shift_left_assign(b.0[0]));
        o!("not", |a, _b| a.not());
        o!("not_assign", |a, _b| a.not_assign());
        o!("xor", |a, b| a.xor(b));
        o!("xor_assign", |a, b| a.xor_assign(b));
        o!("and", |a, b| a.and(b));
        o!("and_assign", |a, b| a.and_assign(b));
        o!("or", |a, b| a.or(b));
        o!("or_assign", |a, b| a.or_assign(b));
        o!("nor", |a, b| a.nor(b));
        o!("nor_assign", |a, b| a.nor_assign(b));
        o!("xnor", |a, b| a.xnor(b));
        o!("xnor_assign", |a, b| a.xnor_assign(b));
        o!("nand", |a, b| a.nand(b));
        o!("nand_assign", |a, b| a.nand_assign(b));
        o!("len", |a, _b| a.len());
        // the shift amounts themselves
        let sh: Vec<_> = (0..130u64).map(|s| (set[(s as usize * 7) % set.len()].0.clone(), { let mut d = vec![0; $n]; d[0] = s; d })).collect();
        op2!($ops, "UBigInt::shift_left(amounts)", $n, sh.clone(), UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, b| a.shift_left(b.0[0]));
        op2!($ops, "UBigInt::shift_right(amounts)", $n, sh.clone(), UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, b| a.shift_right(b.0[0]));
        let nz: Vec<_> = set.iter().filter(|(a, _)| a.iter().any(|d| *d != 0)).cloned().collect();
        op2!($ops, "UBigInt::left_align", $n, nz, UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, _b| a.left_align());
    }};
}
macro_rules! ubig_ng {
    ($ops:ident, $rng:ident, $n:literal) => {{
        let set = pairs($n, &mut $rng, 60);
        op2!($ops, "UBigInt::widening_mul", $n, set.clone(), UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, b| a.widening_mul(b));
        op2!($ops, "UBigInt::widening_shift_left", $n, set.clone(), UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, b| a.widening_shift_left(b.0[0]));
        let sh: Vec<_> = (0..130u64).map(|s| (set[(s as usize * 7) % set.len()].0.clone(), { let mut d = vec![0; $n]; d[0] = s; d })).collect();
        op2!($ops, "UBigInt::widening_shift_left(amounts)", $n, sh, UBigInt<$n>, |v: &[u64]| UBigInt::<$n>(arr(v)), |a, b| a.widening_shift_left(b.0[0]));
    }};
}
macro_rules! big {
    ($ops:ident, $rng:ident, $n:literal) => {{
        let set = pairs($n, &mut $rng, 40);
        macro_rules! o {
            ($name:expr, |$a:ident, $b:ident| $body:expr) => {
                op2!($ops, concat!("BigInt::", $name), $n, set.clone(), BigInt<$n>, |v: &[u64]| BigInt::<$n>::from(UBigInt::<$n>(arr(v))), |$a, $b| $body)
            };
        }
        o!("len", |a, _b| a.len());
        o!("neg", |a, _b| a.neg());
        o!("neg_assign", |a, _b| a.neg_assign());
        o!("add", |a, b| a.add(b));
        o!("add_assign", |a, b| a.add_assign(b));
        o!("sub", |a, b| a.sub(b));
        o!("sub_assign", |a, b| a.sub_assign(b));
        o!("is_negative", |a, _b| a.is_negative());
        o!("is_positive", |a, _b| a.is_positive());
        o!("not", |a, _b| a.not());
        o!("not_assign", |a, _b| a.not_assign());
        o!("xor", |a, b| a.xor(b));
        o!("xor_assign", |a, b| a.xor_assign(b));
        o!("abs", |a, _b| a.abs());
        o!("abs_assign", |a, _b| a.abs_assign());
    }};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Poly;
// SAFETY: prime
unsafe impl FiniteField<3> for Poly {
    const MODULUS: UBigInt<3> = UBigInt([0xfffffffffffffffb, 0xffffffffffffffff, 0x3]);
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct P256;
// SAFETY: prime
unsafe impl FiniteField<4> for P256 {
    const MODULUS: UBigInt<4> = UBigInt([0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001]);
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Order;
// SAFETY: prime
unsafe impl FiniteField<4> for Order {
    const MODULUS: UBigInt<4> = UBigInt([0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000]);
}
fn in_field<const N: usize>(v: &[u64], m: &UBigInt<N>, i: usize) -> Vec<u64> {
    let mut u = UBigInt::<N>(arr(v));
    // elements close to the modulus
    if i % 5 == 0 {
        u = m.sub(&UBigInt::<N>({
            let mut d = [0; N];
            d[0] = 1 + (v[0] & 3);
            d
        }));
    }
    let mut k = 0;
    while u.cmp(m) != std::cmp::Ordering::Less && k < 64 {
        let top = N - 1;
        u.0[top] &= m.0[top] >> 1;
        k += 1;
    }
    u.0.to_vec()
}
macro_rules! field {
    ($ops:ident, $rng:ident, $n:literal, $f:ty, $fname:literal) => {{
        let set: Vec<_> = pairs($n, &mut $rng, 60)
            .into_iter()
            .enumerate()
            .map(|(i, (a, b))| (in_field::<$n>(&a, &<$f>::MODULUS, i), in_field::<$n>(&b, &<$f>::MODULUS, i / 5)))
            .collect();
        macro_rules! o {
            ($name:expr, |$a:ident, $b:ident| $body:expr) => {
                op2!($ops, concat!("FieldElement<", $fname, ">::", $name), $n, set.clone(), FieldElement<$n, $f>,
                    |v: &[u64]| FieldElement::<$n, $f>::try_new(UBigInt::<$n>(arr(v))).unwrap(), |$a, $b| $body)
            };
        }
        o!("add", |a, b| a.add(b));
        o!("sub", |a, b| a.sub(b));
        o!("sub_assign", |a, b| a.sub_assign(b));
        o!("count_digits", |a, _b| a.count_digits());
    }};
}

fn bytes(n: usize, i: usize, rng: &mut Rng) -> Vec<u8> {
    match i {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        3 => (0..n).map(|i| i as u8).collect(),
        _ => rng.bytes(n),
    }
}
fn hmac_op<const H: usize, const B: usize, X: BlockHasher<H, B>>(ops: &mut Vec<Op>, name: &str, key: usize, msg: usize, seed: u64, n: usize) {
    #[inline(never)]
    fn go<const H: usize, const B: usize, X: BlockHasher<H, B>>(k: &[u8], m: &[u8]) {
        black_box(Hmac::<H, B, X>::auth(k, m));
    }
    ops.push(Op {
        name: format!("HMAC-{name} key {key} message {msg}"),
        n,
        prep: Box::new(move |i| {
            let mut rng = Rng::new(seed ^ i as u64);
            let k = bytes(key, i % 7, &mut rng);
            let m = bytes(msg, i / 7, &mut rng);
            let d = format!("key={k:02x?} msg={m:02x?}");
            (Box::new(move || go::<H, B, X>(&k, &m)), d)
        }),
    });
}
enum Mode {
    /// Computing the tag only: encryption of an empty plaintext with `len` bytes of associated data.
    Mac,
    /// A forged tag over varying keys and data.
    Forged,
    /// One key and message, wrong tag at every position.
    Position,
}
fn aead_op<A: Aead + 'static>(ops: &mut Vec<Op>, name: &str, mk: fn(&[u8]) -> A, klen: usize, mode: Mode, aad: usize, len: usize, seed: u64, n: usize) {
    #[inline(never)]
    fn enc<A: Aead>(c: &A, m: &mut [u8], a: &[u8], iv: &[u8; 12]) {
        black_box(c.encrypt_inline(m, a, iv));
    }
    #[inline(never)]
    fn dec<A: Aead>(c: &A, m: &mut [u8], a: &[u8], iv: &[u8; 12], t: &[u8; 16]) {
        black_box(c.decrypt_inline(m, a, iv, t).is_ok());
    }
    let mname = match mode {
        Mode::Mac => "tag",
        Mode::Forged => "forged tag",
        Mode::Position => "forged tag position",
    };
    ops.push(Op {
        name: format!("{name} {mname} aad {aad} message {len}"),
        n,
        prep: Box::new(move |i| {
            let vary = if let Mode::Position = mode { 0 } else { i };
            let mut rng = Rng::new(seed ^ vary as u64);
            let key = bytes(klen, vary % 6, &mut rng);
            let a = bytes(aad, vary / 6, &mut rng);
            let mut m = bytes(len, vary / 4, &mut rng);
            let iv: [u8; 12] = bytes(12, vary % 5, &mut rng).try_into().unwrap();
            let c = mk(&key);
            let d = format!("key={key:02x?} aad={a:02x?} msg={m:02x?} iv={iv:02x?}");
            match mode {
                Mode::Mac => (Box::new(move || enc(&c, &mut m, &a, &iv)) as Box<dyn FnMut()>, d),
                Mode::Forged | Mode::Position => {
                    let mut tag = mk(&key).encrypt_inline(&mut m, &a, &iv);
                    // wrong in one byte, from one byte on, up to one byte, or everywhere
                    let mut rng = Rng::new(seed ^ 0x55 ^ i as u64);
                    let pos = i % 16;
                    match i / 16 % 4 {
                        0 => tag[pos] ^= 1 << rng.below(8),
                        1 => tag[pos..].iter_mut().for_each(|b| *b = !*b),
                        2 => tag[..=pos].iter_mut().for_each(|b| *b ^= 0x80),
                        _ => tag = rng.bytes(16).try_into().unwrap(),
                    }
                    let d = format!("{d} forged tag={tag:02x?}");
                    (Box::new(move || dec(&c, &mut m, &a, &iv, &tag)), d)
                },
            }
        }),
    });
}

fn ops(seed: u64, deep: bool) -> Vec<Op> {
    let mut ops = vec![];
    let mut rng = Rng::new(seed ^ 0xc10);
    ubig!(ops, rng, 1);
    ubig!(ops, rng, 2);
    ubig!(ops, rng, 3);
    ubig!(ops, rng, 4);
    ubig!(ops, rng, 5);
    ubig!(ops, rng, 6);
    ubig!(ops, rng, 8);
    ubig_ng!(ops, rng, 2);
    ubig_ng!(ops, rng, 3);
    ubig_ng!(ops, rng, 4);
    ubig_ng!(ops, rng, 5);
    ubig_ng!(ops, rng, 6);
    ubig_ng!(ops, rng, 8);
    big!(ops, rng, 1);
    big!(ops, rng, 2);
    big!(ops, rng, 3);
    big!(ops, rng, 4);
    big!(ops, rng, 5);
    big!(ops, rng, 8);
    field!(ops, rng, 3, Poly, "2^130-5");
    field!(ops, rng, 4, P256, "P-256");
    field!(ops, rng, 4, Order, "P-256 order");
    let k = if deep { 20 } else { 1 };
    for (key, msg) in [(0, 0), (20, 50), (32, 32), (64, 64), (32, 200), (100, 119), (131, 10)] {
        hmac_op::<32, 64, Sha256>(&mut ops, "SHA-256", key, msg, rng.u64(), 11 * k);
        hmac_op::<64, 128, Sha512>(&mut ops, "SHA-512", key, msg, rng.u64(), 8 * k);
        hmac_op::<32, 64, BufHasher<32, 64, Sha256>>(&mut ops, "SHA-256 (buffered)", key, msg, rng.u64(), 6 * k);
    }
    let g128 = |k: &[u8]| Gcm::<Aes128>::new(k.try_into().unwrap());
    let g256 = |k: &[u8]| Gcm::<Aes256>::new(k.try_into().unwrap());
    let cc = |k: &[u8]| ChaCha20Poly1305::new(k.try_into().unwrap());
    for aad in [0, 5, 16, 45] {
        aead_op(&mut ops, "AES-128-GCM", g128, 16, Mode::Mac, aad, 0, rng.u64(), 14 * k);
        aead_op(&mut ops, "AES-256-GCM", g256, 32, Mode::Mac, aad, 0, rng.u64(), 8 * k);
    }
    for (aad, len) in [(0, 0), (5, 1), (5, 17), (13, 64), (32, 100)] {
        aead_op(&mut ops, "AES-128-GCM", g128, 16, Mode::Forged, aad, len, rng.u64(), 16 * k);
        aead_op(&mut ops, "AES-256-GCM", g256, 32, Mode::Forged, aad, len, rng.u64(), 8 * k);
        aead_op(&mut ops, "AES-128-GCM", g128, 16, Mode::Position, aad, len, rng.u64(), if len < 2 { 64 } else { 18 } * k);
        aead_op(&mut ops, "AES-256-GCM", g256, 32, Mode::Position, aad, len, rng.u64(), if len < 2 { 48 } else { 17 } * k);
        aead_op(&mut ops, "ChaCha20-Poly1305", cc, 32, Mode::Position, aad, len, rng.u64(), if len < 2 { 64 } else { 18 } * k);
    }
    // outside the claim, measured for information only
    if std::env::var("CT_POLY").is_ok() {
        aead_op(&mut ops, "ChaCha20-Poly1305", cc, 32, Mode::Forged, 5, 17, rng.u64(), 64);
        aead_op(&mut ops, "ChaCha20-Poly1305", cc, 32, Mode::Mac, 45, 0, rng.u64(), 64);
    }
    ops
}

/// Address of this program in memory, to print addresses that `objdump` understands.
fn base() -> u64 {
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    m.split('-').next().and_then(|s| u64::from_str_radix(s, 16).ok()).unwrap_or(0)
}

fn worker(all: &[Op], k0: usize, step: usize, seed: u64) {
    let base = base();
    let mut a = Trace { n: 0, hash: 0, pcs: vec![0; CAP] };
    let mut b = Trace { n: 0, hash: 0, pcs: vec![0; CAP] };
    let mut sampled = false;
    for op in all.iter().skip(k0).step_by(step) {
        let mut first = String::new();
        let mut total = 0;
        for i in 0..op.n {
            let (mut f, d) = (op.prep)(i);
            if i == 0 {
                f(); // resolve lazily bound symbols
                let (mut f, _) = (op.prep)(i);
                traced(&mut a, &mut *f);
                first = d.clone();
            }
            let (mut f, _) = (op.prep)(i);
            traced(&mut b, &mut *f);
            drop(f);
            total += b.n;
            println!("E\t{}\t{}", fnv(format!("{}/{i}/{seed}", op.name).as_bytes()), d != first || op.n == 1);
            if b.n < 3 {
                println!("I\t{}: no trace", op.name);
            }
            if a.n != b.n || a.hash != b.hash {
                let m = a.n.min(b.n).min(CAP);
                let p = (0..m).find(|j| a.pcs[*j] != b.pcs[*j]).unwrap_or(m);
                let at = if p > 0 { a.pcs[p - 1].wrapping_sub(base) } else { 0 };
                println!(
                    "V\ttrace of {}\t{} instructions versus {}; the executions part after instruction {p}, at address {at:#x}\tfirst:  {first}\tsecond: {d}",
                    op.name, a.n, b.n
                );
                break;
            }
            if !sampled && i == 3 {
                sampled = true;
                let d: String = d.chars().take(200).collect();
                println!("S\t{}: {} instructions, {d}", op.name, b.n);
            }
        }
        println!("C\tinstructions observed\t{total}");
        println!("C\toperations (one width each)\t1");
    }
}

fn main() {
    let mut rep = Report::new(
        "C10",
        "every operation documented as constant-time at every width, on pairs of extreme (carry chains, single digits, zero, maximum) and random operands, HMAC and GCM over extreme and random keys and data, forged tags at every position; non-trivial: operands differ from the reference run's",
    );
    let sa = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4 /* SA_SIGINFO */, restorer: 0 };
    assert_eq!(unsafe { sigaction(5, &sa, std::ptr::null_mut()) }, 0);
    let all = ops(rep.seed, rep.thorough());
    const W: usize = 8;
    let arg: Vec<String> = std::env::args().collect();
    if arg.len() == 3 && arg[1] == "worker" {
        worker(&all, arg[2].parse().unwrap(), W, rep.seed);
        return;
    }
    // one process per core: signals of the threads of one process contend for one kernel lock
    let me = std::env::current_exe().expect("exe");
    let kids: Vec<_> = (0..W)
        .map(|k| std::process::Command::new(&me).arg("worker").arg(k.to_string()).stdout(std::process::Stdio::piped()).spawn().expect("worker"))
        .collect();
    let outs: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = kids.into_iter().map(|k| s.spawn(|| k.wait_with_output().expect("worker output"))).collect();
        hs.into_iter().map(|h| h.join().expect("join")).collect()
    });
    for (k, o) in outs.iter().enumerate() {
        if !o.status.success() {
            println!("worker {k} failed: {}", o.status);
            std::process::exit(2);
        }
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" => rep.add(f[1], f[2].parse().unwrap_or(0)),
                "E" => rep.eval(f[1].parse().unwrap_or(0), f[2] == "true"),
                "V" => rep.violation(f[1], f[2..].join("\n  ")),
                "I" => rep.inconclusive.push(f[1].into()),
                "S" => rep.sample(|| f[1].into()),
                _ => {},
            }
        }
    }
    rep.samples.truncate(5);
    rep.assumptions.push("instruction addresses only: data-dependent memory addresses (AES tables) and instruction latencies are outside the property".into());
    rep.assumptions.push("code generated by this machine's rustc for x86-64 in the release profile".into());
    rep.floor = 1000;
    rep.finish()
}
