//! AES (FIPS 197, S-box computed algebraically) and GCM (SP 800-38D, 96-bit IVs).
use std::sync::OnceLock;
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    while b != 0 {
        if b & 1 == 1 {
            p ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    p
}
fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0; 256];
        // powers of the generator 3: the inverse of 3^i is 3^(255-i)
        let mut pow = [1u8; 256];
        for i in 1..256 {
            pow[i] = gmul(pow[i - 1], 3);
        }
        let mut invs = [0u8; 256];
        for i in 0..255 {
            invs[pow[i] as usize] = pow[255 - i];
        }
        for x in 0..256usize {
            let inv = invs[x];
            s[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}
/// Multiples of every byte by 2 and by 3.
fn twice() -> &'static [[u8; 256]; 2] {
    static T: OnceLock<[[u8; 256]; 2]> = OnceLock::new();
    T.get_or_init(|| [2, 3].map(|k| std::array::from_fn(|x| gmul(x as u8, k))))
}
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let s = sbox();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let [t2, t3] = twice();
        let mut x = *b;
        let ark = |x: &mut [u8; 16], k: &[u8; 16]| (0..16).for_each(|i| x[i] ^= k[i]);
        ark(&mut x, &self.rk[0]);
        let n = self.rk.len() - 1;
        for r in 1..=n {
            let mut y = [0; 16];
            for c in 0..4 {
                for row in 0..4 {
                    y[4 * c + row] = s[x[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = y[4 * c..4 * c + 4].try_into().unwrap();
                    for row in 0..4 {
                        y[4 * c + row] = t2[a[row] as usize] ^ t3[a[(row + 1) % 4] as usize] ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            ark(&mut y, &self.rk[r]);
            x = y;
        }
        x
    }
}
/// Multiplication in GF(2^128) in GCM's bit order, bit by bit from the standard's definition.
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let mut y = 0;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0; 16];
            b[..c.len()].copy_from_slice(c);
            y = gf_mul(y ^ u128::from_be_bytes(b), h);
        }
    }
    gf_mul(y ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8), h)
}
fn ctr(a: &Aes, iv: &[u8; 12], start: u32, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut c = start;
    for ch in data.chunks(16) {
        let mut b = [0; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&c.to_be_bytes());
        let k = a.block(&b);
        out.extend(ch.iter().zip(k).map(|(x, y)| x ^ y));
        c = c.wrapping_add(1);
    }
    out
}
pub fn gcm_seal(key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.block(&[0; 16]));
    let ct = ctr(&a, iv, 2, pt);
    let s = ghash(h, aad, &ct);
    let tag = ctr(&a, iv, 1, &s.to_be_bytes());
    (ct, tag.try_into().unwrap())
}
pub fn gcm_open(key: &[u8], iv: &[u8; 12], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.block(&[0; 16]));
    let t = ctr(&a, iv, 1, &ghash(h, aad, ct).to_be_bytes());
    (t == tag).then(|| ctr(&a, iv, 2, ct))
}
