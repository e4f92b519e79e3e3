//! Natural numbers of any size (little-endian u32 digits), schoolbook algorithms.
use std::cmp::Ordering;
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Nat(pub Vec<u32>);
impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x")?;
        for d in self.0.iter().rev() {
            write!(f, "{d:08x}")?;
        }
        Ok(())
    }
}
impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
impl Nat {
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> Self {
        Nat(vec![])
    }
    pub fn one() -> Self {
        Nat(vec![1])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn from_u64(x: u64) -> Self {
        Nat(vec![x as u32, (x >> 32) as u32]).norm()
    }
    pub fn from_u128(x: u128) -> Self {
        Nat((0..4).map(|i| (x >> (32 * i)) as u32).collect()).norm()
    }
    pub fn from_digits(d: &[u64]) -> Self {
        Nat(d.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).norm()
    }
    /// The low 64n bits as digits.
    pub fn digits(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| {
                let g = |j: usize| *self.0.get(j).unwrap_or(&0) as u64;
                g(2 * i) | g(2 * i + 1) << 32
            })
            .collect()
    }
    pub fn arr<const N: usize>(&self) -> [u64; N] {
        self.digits(N).try_into().unwrap()
    }
    pub fn from_be(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_le(&v)
    }
    pub fn from_le(b: &[u8]) -> Self {
        Nat(b
            .chunks(4)
            .map(|c| {
                let mut x = [0; 4];
                x[..c.len()].copy_from_slice(c);
                u32::from_le_bytes(x)
            })
            .collect())
        .norm()
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|d| d.to_le_bytes()).collect();
        v.resize(n, 0);
        v
    }
    pub fn to_be(&self, n: usize) -> Vec<u8> {
        let mut v = self.to_le(n);
        v.reverse();
        v
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(d) => 32 * self.0.len() - d.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |d| d >> (i % 32) & 1 == 1)
    }
    pub fn add(&self, o: &Self) -> Self {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat(v).norm()
    }
    /// Panics if `o > self`.
    pub fn sub(&self, o: &Self) -> Self {
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut x = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if x < 0 {
                x += 1 << 32;
                b = 1;
            }
            v.push(x as u32);
        }
        assert!(b == 0 && o.0.len() <= self.0.len());
        Nat(v).norm()
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                c += *a as u64 * *b as u64 + v[i + j] as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Nat(v).norm()
    }
    pub fn shl(&self, n: usize) -> Self {
        if self.is_zero() {
            return Nat::zero();
        }
        let mut v = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for d in &self.0 {
            c |= (*d as u64) << s;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat(v).norm()
    }
    pub fn shr(&self, n: usize) -> Self {
        let k = n / 32;
        if k >= self.0.len() {
            return Nat::zero();
        }
        let s = n % 32;
        let mut v = Vec::new();
        for i in k..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            v.push((((hi << 32) | self.0[i] as u64) >> s) as u32);
        }
        Nat(v).norm()
    }
    /// Low n bits.
    pub fn low(&self, n: usize) -> Self {
        let mut v = self.0.clone();
        v.truncate((n + 31) / 32);
        if n % 32 != 0 && v.len() == n / 32 + 1 {
            v[n / 32] &= (1u32 << (n % 32)) - 1;
        }
        Nat(v).norm()
    }
    pub fn pow2(n: usize) -> Self {
        Nat::one().shl(n)
    }
    /// Long division, one bit at a time over the estimated quotient digits (Knuth's algorithm D
    /// replaced by base-2^32 shift-and-subtract on the top 64 bits; always corrected exactly).
    pub fn divrem(&self, d: &Self) -> (Self, Self) {
        assert!(!d.is_zero());
        if self < d {
            return (Nat::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut r = 0u64;
            let mut q = vec![0; self.0.len()];
            for i in (0..self.0.len()).rev() {
                r = r << 32 | self.0[i] as u64;
                q[i] = (r / d.0[0] as u64) as u32;
                r %= d.0[0] as u64;
            }
            return (Nat(q).norm(), Nat::from_u64(r));
        }
        let sh = d.0.last().unwrap().leading_zeros() as usize;
        let dn = d.shl(sh);
        let n = self.shl(sh);
        let top = *dn.0.last().unwrap() as u64;
        let mut q = vec![0u32; n.0.len() - dn.0.len() + 1];
        let mut r = n.shr(32 * q.len());
        for i in (0..q.len()).rev() {
            // r = r * 2^32 + n[i]
            r.0.insert(0, *n.0.get(i).unwrap_or(&0));
            r = r.norm();
            let k = dn.0.len();
            let hi = *r.0.get(k).unwrap_or(&0) as u64;
            let lo = *r.0.get(k - 1).unwrap_or(&0) as u64;
            let mut est = ((hi << 32 | lo) / top).min(u32::MAX as u64);
            let mut p = dn.mul(&Nat::from_u64(est));
            while p > r {
                est -= 1;
                p = p.sub(&dn);
            }
            r = r.sub(&p);
            debug_assert!(r < dn);
            q[i] = est as u32;
        }
        (Nat(q).norm(), r.shr(sh))
    }
    pub fn rem(&self, d: &Self) -> Self {
        self.divrem(d).1
    }
    pub fn mulmod(&self, o: &Self, m: &Self) -> Self {
        self.mul(o).rem(m)
    }
    pub fn powmod(&self, e: &Self, m: &Self) -> Self {
        let mut r = Nat::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(&r, m);
            if e.bit(i) {
                r = r.mulmod(self, m);
            }
        }
        r
    }
    /// Miller-Rabin with the first 24 primes as bases.
    pub fn is_prime(&self) -> bool {
        let small = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
        for p in small {
            let p = Nat::from_u64(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        if *self < Nat::from_u64(4) {
            return self > &Nat::one();
        }
        let n1 = self.sub(&Nat::one());
        let mut s = 0;
        while !n1.bit(s) {
            s += 1;
        }
        let d = n1.shr(s);
        'a: for p in small {
            let mut x = Nat::from_u64(p).powmod(&d, self);
            if x == Nat::one() || x == n1 {
                continue;
            }
            for _ in 1..s {
                x = x.mulmod(&x, self);
                if x == n1 {
                    continue 'a;
                }
            }
            return false;
        }
        true
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn divrem_identity() {
        let mut r = crate::rng::Rng::new(7);
        for _ in 0..20000 {
            let a = Nat::from_digits(&r.digits::<6>());
            let b = Nat::from_digits(&r.digits::<4>());
            if b.is_zero() {
                continue;
            }
            let (q, m) = a.divrem(&b);
            assert!(m < b);
            assert_eq!(q.mul(&b).add(&m), a);
            assert_eq!(a.add(&b).sub(&b), a);
        }
    }
}
