//! Workloads and oracles for hashes, MACs, key derivation and AEADs.
use crate::cx::{hex, short, Cx};
use crylib::aead::chacha::poly1305::{poly1305_key_gen, Poly1305};
use crylib::aead::chacha::{chacha20, ChaCha20Poly1305};
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm};
use crylib::aead::Aead;
use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};
use crylib::hkdf;
use crylib::hmac::Hmac;
use refc::{aes, chacha, hash};

/// Message length biased towards block boundaries.
pub fn len(cx: &mut Cx, block: usize, max: usize) -> usize {
    let max = if cx.small { max.min(3 * block + 2) } else { max };
    let r = &mut cx.rng;
    let n = match r.below(10) {
        0 => 0,
        1 => r.below(4),
        2..=6 => {
            let k = r.below(max / block + 1) * block;
            let d = *r.pick(&[0isize, 0, 0, 0, 1, -1, 8, -8, -9, -7, -16, -17, -15, 2]);
            (k as isize + d).max(0) as usize
        },
        _ => r.below(max + 1),
    };
    n.min(max)
}

fn sha<const H: usize, const B: usize, T: BlockHasher<H, B> + Clone>(cx: &mut Cx, nm: &str, reference: &dyn Fn(&[u8]) -> Vec<u8>) {
    let n = len(cx, B, 5 * B + 7);
    let msg = cx.rng.biased_bytes(n);
    cx.ctx(format!("{nm} len={n} msg={}", short(&msg)));
    let want = reference(&msg);
    cx.op(&format!("{nm}::hash"));
    let got = T::hash(&msg);
    cx.eq(&format!("{nm}::hash"), &got, &want);
    cx.op(&format!("{nm}::finish_with"));
    let got = T::new().finish_with(&msg);
    cx.eq(&format!("{nm}::new.finish_with"), &got, &want);
    // block-wise
    let k = cx.rng.below(n / B + 1);
    cx.op(&format!("{nm}::update"));
    let mut h = T::new();
    for b in msg[..k * B].chunks_exact(B) {
        h.update(b.try_into().unwrap());
    }
    let mid = h.clone();
    let got = h.finish_with(&msg[k * B..]);
    cx.eq(&format!("{nm} update x{} then finish_with", if k == 0 { "0" } else { "n" }), &got, &want);
    let got = mid.finish();
    cx.eq(&format!("{nm} update then finish"), &got, &reference(&msg[..k * B]));
    // buffered, random chunking
    cx.op(&format!("BufHasher<{nm}>::hash"));
    let got = BufHasher::<H, B, T>::hash(&msg);
    cx.eq(&format!("BufHasher<{nm}>::hash"), &got, &want);
    let mut h = BufHasher::<H, B, T>::new();
    let mut pos = 0;
    let mut plan = String::new();
    let stop = cx.rng.below(n + 1);
    while pos < stop || cx.rng.chance(1, 3) {
        if plan.len() > 400 {
            break;
        }
        if cx.rng.chance(1, 4) && n - pos >= B {
            plan += "B ";
            cx.op(&format!("BufHasher<{nm}>::update"));
            h.update(msg[pos..pos + B].try_into().unwrap());
            pos += B;
        } else {
            let left = n - pos;
            let c = match cx.rng.below(6) {
                0 => 0,
                1 => cx.rng.below(3).min(left),
                2 => (B - pos % B).min(left),
                3 => (B - pos % B + B).min(left),
                4 => (B + cx.rng.below(3)).min(left),
                _ => cx.rng.below(left + 1),
            };
            plan += &format!("{c} ");
            cx.op(&format!("BufHasher<{nm}>::update_with"));
            h.update_with(&msg[pos..pos + c]);
            pos += c;
        }
        if cx.rng.chance(1, 4) {
            cx.op(&format!("BufHasher<{nm}>::get"));
            let got = h.get();
            cx.rep.count("intermediate digests read");
            cx.ctx(format!("{nm} len={n} chunks [{plan}] get at {pos} msg={}", short(&msg)));
            cx.eq(&format!("BufHasher<{nm}>::get"), &got, &reference(&msg[..pos]));
        }
    }
    cx.ctx(format!("{nm} len={n} chunks [{plan}] rest from {pos} msg={}", short(&msg)));
    cx.op(&format!("BufHasher<{nm}>::finish_with"));
    let got = h.clone().finish_with(&msg[pos..]);
    cx.eq(&format!("BufHasher<{nm}> chunks then finish_with"), &got, &want);
    cx.op(&format!("BufHasher<{nm}>::finish"));
    let got = h.finish();
    cx.eq(&format!("BufHasher<{nm}> chunks then finish"), &got, &reference(&msg[..pos]));
    cx.rep.count(&format!("{nm} residue {}", match n % B {
        0 => "0".to_string(),
        r if r < B - B / 8 => "fits".into(),
        _ => "extra block".into(),
    }));
}
pub fn c01(cx: &mut Cx) {
    if cx.rng.chance(1, 2) {
        sha::<32, 64, Sha256>(cx, "Sha256", &|m| hash::sha256(m).to_vec());
    } else {
        sha::<64, 128, Sha512>(cx, "Sha512", &|m| hash::sha512(m).to_vec());
    }
}
/// Exhaustive over lengths: every message length below four blocks, every split in two.
pub fn c01_len(cx: &mut Cx) {
    let i = cx.idx as usize;
    let m = cx.rng.bytes(i);
    let (w2, w5) = (hash::sha256(&m), hash::sha512(&m));
    cx.ctx(format!("len={i} msg={}", short(&m)));
    cx.op("hash");
    cx.eq("Sha256::hash", &Sha256::hash(&m), &w2);
    cx.eq("Sha512::hash", &Sha512::hash(&m), &w5);
    cx.op("BufHasher two-part");
    for s in 0..=i {
        let mut h = BufHasher::<32, 64, Sha256>::new();
        h.update_with(&m[..s]);
        cx.eq("BufHasher<Sha256> two parts", &h.finish_with(&m[s..]), &w2);
        let mut h = BufHasher::<64, 128, Sha512>::new();
        h.update_with(&m[..s]);
        h.update_with(&m[s..]);
        cx.eq("BufHasher<Sha512> two parts", &h.finish(), &w5);
    }
}

/// Like `len`, but sometimes around 2^8, 2^9, .. 2^16.
fn long_len(cx: &mut Cx, block: usize, max: usize) -> usize {
    if cx.small || !cx.rng.chance(1, 16) {
        return len(cx, block, max);
    }
    let bits = if cx.rng.chance(1, 12) { 12 + cx.rng.below(5) } else { 8 + cx.rng.below(4) };
    cx.rep.count(&format!("HMAC or HKDF input of about 2^{bits} bytes"));
    (1 << bits) + cx.rng.below(2 * block) - cx.rng.below(block)
}
fn hm<const H: usize, const B: usize, T: BlockHasher<H, B> + Clone>(cx: &mut Cx, nm: &str, mac: &dyn Fn(&[u8], &[u8]) -> Vec<u8>, exp: &dyn Fn(&[u8], &[u8], usize) -> Vec<u8>) {
    let kl = long_len(cx, B, 3 * B + 5);
    let key = cx.rng.biased_bytes(kl);
    let n = long_len(cx, B, 3 * B + 5);
    let msg = cx.rng.biased_bytes(n);
    cx.ctx(format!("{nm} key({kl})={} msg({n})={}", short(&key), short(&msg)));
    let want = mac(&key, &msg);
    cx.rep.count(match kl.cmp(&B) {
        std::cmp::Ordering::Less => "key shorter than block",
        std::cmp::Ordering::Equal => "key equal to block",
        _ => "key longer than block",
    });
    let long = if kl > B { " (key > block)" } else { "" };
    cx.op(&format!("Hmac<{nm}>::auth{long}"));
    let got = Hmac::<H, B, T>::auth(&key, &msg);
    cx.eq(&format!("Hmac<{nm}>::auth{long}"), &got, &want);
    let mut h = Hmac::<H, B, T>::new(&key);
    let k = cx.rng.below(n / B + 1);
    for b in msg[..k * B].chunks_exact(B) {
        h.update(b.try_into().unwrap());
    }
    if k * B == n && cx.rng.chance(1, 2) {
        cx.eq(&format!("Hmac<{nm}> update, finish{long}"), &h.finish(), &want);
    } else {
        cx.eq(&format!("Hmac<{nm}> update, finish_with{long}"), &h.finish_with(&msg[k * B..]), &want);
    }
    // buffered
    let got = Hmac::<H, B, BufHasher<H, B, T>>::auth(&key, &msg);
    cx.eq(&format!("Hmac<BufHasher<{nm}>>::auth{long}"), &got, &want);
    let mut h = Hmac::<H, B, BufHasher<H, B, T>>::new(&key);
    let mut pos = 0;
    cx.op(&format!("Hmac<BufHasher<{nm}>> chunks{long}"));
    for _ in 0..cx.rng.below(8) {
        if cx.rng.chance(1, 4) && n - pos >= B {
            h.update(msg[pos..pos + B].try_into().unwrap());
            pos += B;
        } else {
            let c = cx.rng.below(n - pos + 1);
            h.update_with(&msg[pos..pos + c]);
            pos += c;
        }
    }
    if cx.rng.chance(1, 2) {
        h.update_with(&msg[pos..]);
        cx.eq(&format!("Hmac<BufHasher<{nm}>> chunks, finish{long}"), &h.finish(), &want);
    } else {
        cx.eq(&format!("Hmac<BufHasher<{nm}>> chunks, finish_with{long}"), &h.finish_with(&msg[pos..]), &want);
    }
    // HKDF
    cx.op(&format!("hkdf::extract<{nm}>{long}"));
    let prk = hkdf::extract::<H, B, T>(&msg, &key);
    cx.eq(&format!("hkdf::extract<{nm}>{long}"), &prk, &want);
    let full = 255 * H;
    let cap = if cx.small { 3 * H } else { full };
    let ol = match cx.rng.below(12) {
        0 => full.min(cap),
        1 => (full - cx.rng.below(H + 2)).min(cap),
        2 => 0,
        3..=6 => {
            let k = cx.rng.below(6) * H;
            (k + cx.rng.below(3)).saturating_sub(1).min(cap)
        },
        7..=10 => cx.rng.below((5 * H).min(cap)),
        _ => cx.rng.below(cap + 1),
    };
    let il = if ol <= 3 * H { long_len(cx, B, 2 * B + 3) } else { len(cx, B, 2 * B + 3) };
    let info = cx.rng.biased_bytes(il);
    let prk: [u8; H] = cx.rng.biased_arr();
    cx.ctx(format!("{nm} prk={} info({il})={} out length {ol}", hex(&prk), short(&info)));
    cx.op(&format!("hkdf::expand<{nm}>{}", if ol > 254 * H { " (255 blocks)" } else { "" }));
    let mut buf = vec![0xa5u8; ol + 40];
    hkdf::expand::<H, B, T>(&mut buf[20..20 + ol], &prk, &info);
    let op = cx.op.clone();
    cx.eq(&op, &buf[20..20 + ol], &exp(&prk, &info, ol));
    cx.ok("hkdf::expand writes only its buffer", buf[..20].iter().chain(&buf[20 + ol..]).all(|b| *b == 0xa5));
    cx.rep.add("HKDF output bytes", ol as u64);
}
pub fn c02(cx: &mut Cx) {
    if cx.rng.chance(1, 2) {
        hm::<32, 64, Sha256>(cx, "Sha256", &|k, m| hash::hmac256(k, m).to_vec(), &hash::hkdf_expand256);
    } else {
        hm::<64, 128, Sha512>(cx, "Sha512", &|k, m| hash::hmac512(k, m).to_vec(), &hash::hkdf_expand512);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Alg {
    A128,
    A192,
    A256,
    Cha,
}
pub const ALGS: [Alg; 4] = [Alg::A128, Alg::A192, Alg::A256, Alg::Cha];
impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::A128 => "Gcm<Aes128>",
            Alg::A192 => "Gcm<Aes192>",
            Alg::A256 => "Gcm<Aes256>",
            Alg::Cha => "ChaCha20Poly1305",
        }
    }
    pub fn key_len(self) -> usize {
        match self {
            Alg::A128 => 16,
            Alg::A192 => 24,
            _ => 32,
        }
    }
    pub fn seal(self, key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        match self {
            Alg::Cha => chacha::seal(key.try_into().unwrap(), iv, aad, pt),
            _ => aes::gcm_seal(key, iv, aad, pt),
        }
    }
    /// Runs `f` with the implementation under test.
    pub fn with<R>(self, key: &[u8], f: impl FnOnce(&dyn DynAead) -> R) -> R {
        match self {
            Alg::A128 => f(&Gcm::<Aes128>::new(key.try_into().unwrap())),
            Alg::A192 => f(&Gcm::<Aes192>::new(key.try_into().unwrap())),
            Alg::A256 => f(&Gcm::<Aes256>::new(key.try_into().unwrap())),
            Alg::Cha => f(&ChaCha20Poly1305::new(key.try_into().unwrap())),
        }
    }
}
/// Object-safe view of the `Aead` trait.
pub trait DynAead: Sync {
    fn ei(&self, m: &mut [u8], aad: &[u8], iv: &[u8; 12]) -> [u8; 16];
    fn e(&self, b: &mut [u8], p: &[u8], aad: &[u8], iv: &[u8; 12]) -> [u8; 16];
    fn di(&self, m: &mut [u8], aad: &[u8], iv: &[u8; 12], t: &[u8; 16]) -> bool;
    fn d(&self, b: &mut [u8], c: &[u8], aad: &[u8], iv: &[u8; 12], t: &[u8; 16]) -> bool;
}
impl<T: Aead + Sync> DynAead for T {
    fn ei(&self, m: &mut [u8], aad: &[u8], iv: &[u8; 12]) -> [u8; 16] {
        self.encrypt_inline(m, aad, iv)
    }
    fn e(&self, b: &mut [u8], p: &[u8], aad: &[u8], iv: &[u8; 12]) -> [u8; 16] {
        self.encrypt(b, p, aad, iv)
    }
    fn di(&self, m: &mut [u8], aad: &[u8], iv: &[u8; 12], t: &[u8; 16]) -> bool {
        self.decrypt_inline(m, aad, iv, t).is_ok()
    }
    fn d(&self, b: &mut [u8], c: &[u8], aad: &[u8], iv: &[u8; 12], t: &[u8; 16]) -> bool {
        self.decrypt(b, c, aad, iv, t).is_ok()
    }
}

fn aead_case(cx: &mut Cx, alg: Alg, max: usize) -> (Vec<u8>, [u8; 12], Vec<u8>, Vec<u8>) {
    let key = cx.rng.biased_bytes(alg.key_len());
    let iv: [u8; 12] = cx.rng.biased_arr();
    let al = len(cx, 16, 80);
    let aad = cx.rng.biased_bytes(al);
    let b = if alg == Alg::Cha { 64 } else { 16 };
    let pl = len(cx, b, max);
    let pt = cx.rng.biased_bytes(pl);
    cx.ctx(format!("{} key={} iv={} aad({al})={} text({pl})={}", alg.name(), hex(&key), hex(&iv), short(&aad), short(&pt)));
    cx.rep.count(&format!(
        "{} aad {} text {}",
        alg.name(),
        if al == 0 { "empty" } else if al % 16 == 0 { "aligned" } else { "ragged" },
        if pl == 0 { "empty" } else if pl % 16 == 0 { "aligned" } else { "ragged" }
    ));
    (key, iv, aad, pt)
}
fn shape(n: usize) -> &'static str {
    if n % 16 == 0 {
        "aligned"
    } else {
        "ragged"
    }
}

pub fn c03(cx: &mut Cx) {
    match cx.rng.below(8) {
        0 => aes_block(cx),
        1 => cha_stream(cx),
        2 => poly(cx),
        _ => {
            let alg = *cx.rng.pick(&ALGS);
            let max = if cx.rng.chance(1, 10) { 1200 } else { 200 };
            let (key, iv, aad, pt) = aead_case(cx, alg, max);
            let (ct, tag) = alg.seal(&key, &iv, &aad, &pt);
            let sig = format!("{} aad {} text {}", alg.name(), shape(aad.len()), shape(pt.len()));
            alg.with(&key, |c| {
                cx.op(&format!("{sig}: encrypt_inline"));
                let mut m = pt.clone();
                let t = c.ei(&mut m, &aad, &iv);
                cx.eq(&format!("{sig}: encrypt_inline ciphertext"), &m, &ct);
                cx.eq(&format!("{sig}: encrypt_inline tag"), &t, &tag);
                cx.op(&format!("{sig}: encrypt"));
                let pad = cx.rng.below(70);
                let fill = cx.rng.u8();
                let mut b = vec![fill; pt.len() + pad];
                let t = c.e(&mut b, &pt, &aad, &iv);
                cx.eq(&format!("{sig}: encrypt ciphertext"), &b[..pt.len()], &ct);
                cx.eq(&format!("{sig}: encrypt tag"), &t, &tag);
                cx.ok("encrypt writes only the message length", b[pt.len()..].iter().all(|x| *x == fill));
                // an unrelated call in between changes nothing
                let mut junk = cx.rng.bytes(33);
                c.ei(&mut junk, &[1, 2, 3], &[9; 12]);
                c.di(&mut junk, &[1, 2], &[9; 12], &[0; 16]);
                let mut m = pt.clone();
                let t = c.ei(&mut m, &aad, &iv);
                cx.ok(&format!("{sig}: repeated call agrees"), m == ct && t == tag);
            });
        },
    }
}
fn aes_block(cx: &mut Cx) {
    let b: [u8; 16] = cx.rng.biased_arr();
    fn one<C: AesCipher>(cx: &mut Cx, nm: &str, c: C, want: [u8; 16], b: [u8; 16]) {
        cx.op(&format!("{nm}::encrypt"));
        cx.eq(&format!("{nm}::encrypt"), &c.encrypt(&b), &want);
        let mut x = b;
        c.encrypt_inline(&mut x);
        cx.eq(&format!("{nm}::encrypt_inline"), &x, &want);
        cx.rep.count(&format!("{nm} blocks"));
    }
    let k: [u8; 16] = cx.rng.biased_arr();
    cx.ctx(format!("AES block={} key={}", hex(&b), hex(&k)));
    one(cx, "Aes128", Aes128::new(k), aes::Aes::new(&k).block(&b), b);
    let k: [u8; 24] = cx.rng.biased_arr();
    cx.ctx(format!("AES block={} key={}", hex(&b), hex(&k)));
    one(cx, "Aes192", Aes192::new(k), aes::Aes::new(&k).block(&b), b);
    let k: [u8; 32] = cx.rng.biased_arr();
    cx.ctx(format!("AES block={} key={}", hex(&b), hex(&k)));
    one(cx, "Aes256", Aes256::new(k), aes::Aes::new(&k).block(&b), b);
}
fn cha_stream(cx: &mut Cx) {
    let k: [u8; 32] = cx.rng.biased_arr();
    let nonce: [u8; 12] = cx.rng.biased_arr();
    let n = len(cx, 64, 400);
    let m = cx.rng.biased_bytes(n);
    let blocks = n.div_ceil(64) as u32;
    let c = match cx.rng.below(5) {
        0 => 0,
        1 => 1,
        2 => u32::MAX - blocks.saturating_sub(1), // the last block counter is the largest one
        3 => 0x7fff_ffff - cx.rng.below(3) as u32,
        _ => (cx.rng.u64() as u32).min(u32::MAX - 16),
    };
    cx.ctx(format!("chacha20 key={} nonce={} counter={c} len={n} msg={}", hex(&k), hex(&nonce), short(&m)));
    let want = chacha::stream(&k, &nonce, c, &m);
    cx.op("chacha20::encrypt_inline");
    let mut x = m.clone();
    chacha20::encrypt_inline(&mut x, &k, &nonce, c);
    cx.eq("chacha20::encrypt_inline", &x, &want);
    // copying: the buffer may be longer than the message
    let pad = if cx.rng.chance(1, 2) { 0 } else { cx.rng.below(150) };
    let fill = cx.rng.u8();
    let mut b = vec![fill; n + pad];
    let w = if pad > 0 { " (longer buffer)" } else { "" };
    cx.op(&format!("chacha20::encrypt{w}"));
    chacha20::encrypt(&m, &k, &nonce, c, &mut b);
    cx.eq(&format!("chacha20::encrypt{w}"), &b[..n], &want);
    cx.ok(&format!("chacha20::encrypt writes only the message length{w}"), b[n..].iter().all(|x| *x == fill));
    cx.op("poly1305_key_gen");
    cx.eq("poly1305_key_gen", &poly1305_key_gen(&k, &nonce), &chacha::block(&k, &nonce, 0)[..32]);
    cx.rep.count(if c > 1 { "chacha20 other counter" } else { "chacha20 counter 0 or 1" });
}
/// Message blocks that drive the accumulator close to the modulus 2^130 - 5.
fn poly(cx: &mut Cx) {
    let mut k: [u8; 32] = cx.rng.biased_arr();
    if cx.rng.chance(1, 3) {
        // r = 0, 1, 2 or 4: the accumulator is then a small multiple of the blocks
        k[..16].fill(0);
        k[0] = *cx.rng.pick(&[0u8, 1, 2, 4, 5]);
        if cx.rng.chance(1, 2) {
            k[16..].fill(0xff);
        }
    }
    let n = len(cx, 16, 200);
    let mut m = cx.rng.biased_bytes(n);
    if cx.rng.chance(1, 3) {
        m.fill(0xff);
        if n > 0 && cx.rng.chance(1, 2) {
            let i = cx.rng.below(n);
            m[i] = m[i].wrapping_sub(cx.rng.below(8) as u8);
        }
    }
    cx.ctx(format!("poly1305 key={} msg({n})={}", hex(&k), short(&m)));
    let want = chacha::poly1305(&k, &m);
    cx.op("Poly1305::auth");
    cx.eq("Poly1305::auth", &Poly1305::auth(&m, &k), &want);
    cx.eq("Poly1305::new.finish_with", &Poly1305::new(&k).finish_with(&m), &want);
    let mut p = Poly1305::new(&k);
    let cut = cx.rng.below(n / 16 + 1);
    for b in m[..16 * cut].chunks_exact(16) {
        p.update(b.try_into().unwrap());
    }
    cx.op("Poly1305::update");
    cx.eq("Poly1305 update, finish_with", &p.finish_with(&m[16 * cut..]), &want);
    // update_with zero-pads the last block
    let mut p = Poly1305::new(&k);
    p.update_with(&m[..16 * cut]);
    p.update_with(&m[16 * cut..]);
    let mut padded = m.clone();
    padded.resize(n.div_ceil(16) * 16, 0);
    cx.op("Poly1305::update_with");
    cx.eq("Poly1305 update_with, finish", &p.finish(), &chacha::poly1305(&k, &padded));
    cx.rep.count("poly1305 messages");
}

pub fn c04(cx: &mut Cx) {
    let alg = *cx.rng.pick(&ALGS);
    let (key, iv, aad, pt) = aead_case(cx, alg, 150);
    let n = pt.len();
    let sig = alg.name();
    alg.with(&key, |c| {
        // the implementation's own ciphertext opens to the plaintext
        cx.op(&format!("{sig} roundtrip"));
        let mut ct = pt.clone();
        let tag = c.ei(&mut ct, &aad, &iv);
        let mut x = ct.clone();
        cx.ok(&format!("{sig}: genuine message accepted (in place)"), c.di(&mut x, &aad, &iv, &tag));
        cx.eq(&format!("{sig}: decrypt_inline plaintext"), &x, &pt);
        let pad = cx.rng.below(40);
        let mut b = vec![0x5a; n + pad];
        cx.ok(&format!("{sig}: genuine message accepted (copying)"), c.d(&mut b, &ct, &aad, &iv, &tag));
        cx.eq(&format!("{sig}: decrypt plaintext"), &b[..n], &pt);
        cx.ok("decrypt writes only the message length", b[n..].iter().all(|x| *x == 0x5a));
        // and so does the standard's
        let (rc, rt) = alg.seal(&key, &iv, &aad, &pt);
        let mut x = rc.clone();
        let ok = c.di(&mut x, &aad, &iv, &rt);
        cx.ok(&format!("{sig}: standard ciphertext accepted (aad {} text {})", shape(aad.len()), shape(n)), ok && x == pt);

        // every forgery is refused
        let mut rng = cx.rng.fork("forge");
        let rounds = if cx.small { 6 } else { 26 };
        for _ in 0..rounds {
            let (mut k2, mut iv2, mut a2, mut c2, mut t2) = (key.clone(), iv, aad.clone(), ct.clone(), tag);
            let what = match rng.below(13) {
                0 | 1 => {
                    t2[rng.below(16)] ^= 1 << rng.below(8);
                    "tag bit"
                },
                2 => {
                    // wrong only in one byte, the others right; or several bytes
                    let i = rng.below(16);
                    t2[i] = t2[i].wrapping_add(1 + rng.below(255) as u8);
                    "tag byte"
                },
                3 => {
                    for b in t2.iter_mut().skip(rng.below(16)) {
                        *b = !*b;
                    }
                    "tag tail"
                },
                4 if n > 0 => {
                    c2[rng.below(n)] ^= 1 << rng.below(8);
                    "ciphertext bit"
                },
                5 if !a2.is_empty() => {
                    let i = rng.below(a2.len());
                    a2[i] ^= 1 << rng.below(8);
                    "aad bit"
                },
                6 => {
                    iv2[rng.below(12)] ^= 1 << rng.below(8);
                    "nonce bit"
                },
                7 => {
                    let i = rng.below(k2.len());
                    k2[i] ^= 1 << rng.below(8);
                    "key bit"
                },
                8 if n > 0 => {
                    c2.truncate(rng.below(n));
                    "truncated ciphertext"
                },
                9 => {
                    let k = rng.range(1, 17);
                    c2.extend(vec![0; k]);
                    "zero-extended ciphertext"
                },
                10 => {
                    let k = rng.range(1, 17);
                    a2.extend(vec![0; k]);
                    "zero-extended aad"
                },
                11 if !a2.is_empty() && aad != ct => {
                    // move bytes between aad and ciphertext
                    let mut all = a2.clone();
                    all.extend(&c2);
                    let s = rng.below(all.len() + 1);
                    if s == a2.len() {
                        continue;
                    }
                    c2 = all.split_off(s);
                    a2 = all;
                    "re-split aad/ciphertext"
                },
                12 if !a2.is_empty() && aad != ct => {
                    std::mem::swap(&mut a2, &mut c2);
                    "swapped aad and ciphertext"
                },
                _ => continue,
            };
            if (&k2, &iv2, &a2, &c2, &t2) == (&key, &iv, &aad, &ct, &tag) {
                continue;
            }
            // A forged input could by accident be authentic only with probability 2^-128; the
            // key/nonce changes are excluded when the reference says it is authentic.
            let authentic = match alg {
                Alg::Cha => chacha::open(k2[..].try_into().unwrap(), &iv2, &a2, &c2, &t2).is_some(),
                _ => aes::gcm_open(&k2, &iv2, &a2, &c2, &t2).is_some(),
            };
            if authentic {
                continue;
            }
            cx.op(&format!("{sig} forged {what}"));
            alg.with(&k2, |c| {
                let mut x = c2.clone();
                let acc = c.di(&mut x, &a2, &iv2, &t2);
                cx.ok(&format!("{sig}: forged {what} refused (in place)"), !acc);
                cx.ok(&format!("{sig}: buffer unchanged after refusal (in place)"), x == c2);
                let pad = rng.below(40);
                let fill = rng.u8();
                let mut b = vec![fill; c2.len() + pad];
                let acc = c.d(&mut b, &c2, &a2, &iv2, &t2);
                cx.ok(&format!("{sig}: forged {what} refused (copying)"), !acc);
                // what the stream cipher would have produced
                let would = alg.seal(&k2, &iv2, &[], &c2).0;
                let leak = (0..c2.len()).step_by(8).any(|i| {
                    let e = (i + 8).min(c2.len());
                    let told: Vec<usize> = (i..e).filter(|j| would[*j] != c2[*j] && would[*j] != fill).collect();
                    told.len() >= 5 && told.iter().all(|j| b[*j] == would[*j]) && b[i..e].iter().any(|x| *x != b[i])
                });
                cx.ok(&format!("{sig}: no plaintext in the buffer after refusal (copying)"), !leak);
                cx.ok("refused decrypt writes only the message length", b[c2.len()..].iter().all(|x| *x == fill));
            });
            cx.rep.count(&format!("refused: {what}"));
        }
    });
}
/// Messages and associated data of many blocks: opened, and refused whichever part was changed.
pub fn c04_long(cx: &mut Cx) {
    let alg = ALGS[cx.idx as usize % 4];
    let sizes = [(0, (1 << 18) + 17), (8191, 4096 + 5), (8192, 64 * 256 + 1), (70_001, 64 * 255), (3, 40_000), (1 << 16, 0), (13, 1 << 14), (5, (1 << 16) + 1)];
    let (al, pl) = sizes[cx.idx as usize / 4 % sizes.len()];
    let key = cx.rng.bytes(alg.key_len());
    let iv: [u8; 12] = cx.rng.arr();
    let aad = cx.rng.bytes(al);
    let pt = cx.rng.bytes(pl);
    let sig = alg.name();
    cx.ctx(format!("{sig} key={} iv={} aad({al}) text({pl})", hex(&key), hex(&iv)));
    let mut rng = cx.rng.fork("long");
    alg.with(&key, |c| {
        cx.op(&format!("{sig} long message"));
        let (ct, tag) = alg.seal(&key, &iv, &aad, &pt);
        let mut own = pt.clone();
        let own_tag = c.ei(&mut own, &aad, &iv);
        for (ct, tag, of) in [(&ct, &tag, "standard's"), (&own, &own_tag, "own")] {
            let mut x = ct.clone();
            let ok = c.di(&mut x, &aad, &iv, tag);
            cx.ok(&format!("{sig}: {of} long message accepted (in place)"), ok && x == pt);
            let mut b = vec![0x5a; pl + 9];
            let ok = c.d(&mut b, ct, &aad, &iv, tag);
            cx.ok(&format!("{sig}: {of} long message accepted (copying)"), ok && b[..pl] == pt && b[pl..] == [0x5a; 9]);
        }
        let mut at = |n: usize, round: usize| match round {
            0 => 0,
            1 => n - 1,
            2 => n - 1 - rng.below(n.min(40)),
            3 => n / 2,
            4 => n.saturating_sub(17),
            _ => rng.below(n),
        };
        for round in 0..18 {
            let (mut a2, mut c2, mut t2) = (aad.clone(), own.clone(), own_tag);
            let what = match round % 9 {
                0 => {
                    t2[at(16, 5)] ^= 1 << at(8, 5);
                    "tag"
                },
                1..=5 if pl > 0 => {
                    let r = if round < 9 { round - 1 } else { 5 };
                    c2[at(pl, r)] ^= 1 << at(8, 5);
                    "ciphertext"
                },
                1..=6 if al > 0 => {
                    let r = if round < 9 { round - 1 } else { 5 };
                    a2[at(al, r)] ^= 1 << at(8, 5);
                    "aad"
                },
                7 if pl > 0 => {
                    c2.truncate(if round < 9 { pl - 1 } else { at(pl, 5) });
                    "truncated ciphertext"
                },
                8 => {
                    c2.extend(vec![0; 1 + at(64, 5)]);
                    "extended ciphertext"
                },
                _ => continue,
            };
            cx.op(&format!("{sig} long message, forged {what}"));
            let mut x = c2.clone();
            let acc = c.di(&mut x, &a2, &iv, &t2);
            cx.ok(&format!("{sig}: long message with forged {what} refused (in place)"), !acc);
            cx.ok(&format!("{sig}: long buffer unchanged after refusal (in place)"), x == c2);
            let mut b = vec![0x5a; c2.len()];
            let acc = c.d(&mut b, &c2, &a2, &iv, &t2);
            cx.ok(&format!("{sig}: long message with forged {what} refused (copying)"), !acc);
            let n = c2.len().min(pl);
            let leak = (0..n).step_by(16).filter(|i| i + 16 <= n).any(|i| b[i..i + 16] == pt[i..i + 16] && b[i..i + 16] != c2[i..i + 16]);
            cx.ok(&format!("{sig}: no plaintext of a long message in the buffer after refusal (copying)"), !leak);
            cx.rep.count(&format!("long, refused: {what}"));
        }
    });
    cx.rep.count("long messages");
}

/// Every single-bit change of tag, nonce, key, aad and ciphertext of one message.
pub fn c04_bits(cx: &mut Cx) {
    let alg = ALGS[cx.idx as usize % 4];
    let (key, iv, aad, pt) = aead_case(cx, alg, 40);
    let mut ct = pt.clone();
    let tag = alg.with(&key, |c| c.ei(&mut ct, &aad, &iv));
    let sig = alg.name();
    let parts: [usize; 5] = [16, 12, key.len(), aad.len(), ct.len()];
    for (part, l) in parts.iter().enumerate() {
        for bit in 0..l * 8 {
            let (mut k2, mut iv2, mut a2, mut c2, mut t2) = (key.clone(), iv, aad.clone(), ct.clone(), tag);
            let (i, m) = (bit / 8, 1u8 << (bit % 8));
            let what = match part {
                0 => {
                    t2[i] ^= m;
                    "tag"
                },
                1 => {
                    iv2[i] ^= m;
                    "nonce"
                },
                2 => {
                    k2[i] ^= m;
                    "key"
                },
                3 => {
                    a2[i] ^= m;
                    "aad"
                },
                _ => {
                    c2[i] ^= m;
                    "ciphertext"
                },
            };
            if part == 2 && i >= 8 {
                continue; // every key byte is covered by the random forgeries; keep this cheap
            }
            cx.op(&format!("{sig} forged {what} bit"));
            let orig = c2.clone();
            let acc = alg.with(&k2, |c| c.di(&mut c2, &a2, &iv2, &t2));
            cx.ok(&format!("{sig}: forged {what} bit refused (in place)"), !acc);
            cx.ok(&format!("{sig}: buffer unchanged after refusal (in place)"), c2 == orig);
        }
        cx.rep.add("single-bit forgeries", *l as u64 * 8);
    }
}

/// Messages long enough to leave every narrower length or block counter behind.
pub fn c01_huge(cx: &mut Cx) {
    let chunk: Vec<u8> = (0..(1usize << 20) + 3).map(|i| ((i * 7 + 3) % 251) as u8).collect();
    fn feed<const H: usize, const B: usize, T: BlockHasher<H, B>>(chunk: &[u8], total: usize) -> [u8; H] {
        let mut h = BufHasher::<H, B, T>::new();
        let mut left = total;
        while left > chunk.len() {
            h.update_with(chunk);
            left -= chunk.len();
        }
        h.finish_with(&chunk[..left])
    }
    // expected values for the longest ones computed with an independent implementation
    let unhex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let long = (1usize << 29) + 77;
    cx.ctx(format!("huge message {}", cx.idx));
    match cx.idx {
        0 => {
            cx.op("Sha256 of 2^29+77 bytes");
            cx.eq("Sha256 of 2^29+77 bytes", &feed::<32, 64, Sha256>(&chunk, long), &unhex(HUGE256));
        },
        1 => {
            cx.op("Sha512 of 2^29+77 bytes");
            cx.eq("Sha512 of 2^29+77 bytes", &feed::<64, 128, Sha512>(&chunk, long), &unhex(HUGE512));
        },
        i => {
            let n = [8191, 8192, 65535, 65536 + 9, 1 << 20, (2 << 20) + 1][i as usize % 6];
            let m: Vec<u8> = chunk.iter().cycle().take(n).copied().collect();
            cx.op("hash of a long message");
            cx.eq("Sha256 of a long message", &Sha256::hash(&m), &hash::sha256(&m));
            cx.eq("Sha512 of a long message", &Sha512::hash(&m), &hash::sha512(&m));
        },
    }
    cx.rep.count("long messages");
}
const HUGE256: &str = "7436025fcafb81a8bd986ef8f4f55368674359b42a5b98ab4c7d9c203b959d56";
const HUGE512: &str = "61a01f96e8ea2bcfe172fe606596f230417a6d75e3a430f867c113c5015cf521da05bf15c8cad770360de83c3f974bcd4d3fd41c6601df40f7fa11d2ed5521d0";

/// Half a gigabyte: lengths in bits beyond 32 bits. Expected values from the reference, computed once.
pub fn c03_huge(cx: &mut Cx) {
    let unhex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let mut m: Vec<u8> = (0..(1usize << 29) + 21).map(|i| ((i * 7 + 3) % 251) as u8).collect();
    let iv = [9; 12];
    cx.ctx(format!("huge message {}", cx.idx));
    if cx.idx == 0 {
        cx.op("AES-128-GCM with 2^29+21 bytes of additional data");
        let mut text = b"text".to_vec();
        let tag = Gcm::<Aes128>::new(std::array::from_fn(|i| i as u8)).encrypt_inline(&mut text, &m, &iv);
        cx.eq("AES-128-GCM tag of huge additional data", &tag, &unhex("7ef6feef3ae5cd541b034f0fafd5622c"));
    } else {
        cx.op("AES-256-GCM of 2^29+21 bytes");
        let tag = Gcm::<Aes256>::new(std::array::from_fn(|i| i as u8)).encrypt_inline(&mut m, b"data", &iv);
        cx.eq("AES-256-GCM tag of a huge message", &tag, &unhex("7f67f3e9e8fbb240396234a3a2ae82ef"));
        let n = m.len();
        cx.eq(
            "AES-256-GCM end of a huge message",
            &m[n - 40..],
            &unhex("dfb44b51ded2d4fdfeb26f7ff5640fe1f79526b8bdc2a89e54c61e803ef1a46b5581850e91d1cd6a"),
        );
    }
    cx.rep.count("huge messages");
}

/// Messages of many blocks: block counters and length fields beyond 8, 16 and 20 bits.
pub fn c03_big(cx: &mut Cx) {
    let alg = ALGS[cx.idx as usize % 4];
    let (al, pl) = [(0, (1 << 20) + 17), (8191, 4096 + 5), (8192, 64 * 256 + 1), (70_001, 64 * 255), (3, 40_000), (1 << 16, 0)][cx.idx as usize / 4 % 6];
    let pl = if alg == Alg::Cha && pl > 1 << 20 { 4 * pl } else { pl };
    let key = cx.rng.bytes(alg.key_len());
    let iv: [u8; 12] = cx.rng.arr();
    let aad = cx.rng.bytes(al);
    let pt = cx.rng.bytes(pl);
    cx.ctx(format!("{} key={} iv={} aad({al}) text({pl})", alg.name(), hex(&key), hex(&iv)));
    let (ct, tag) = alg.seal(&key, &iv, &aad, &pt);
    alg.with(&key, |c| {
        cx.op(&format!("{} long message", alg.name()));
        let mut m = pt.clone();
        let t = c.ei(&mut m, &aad, &iv);
        cx.ok(&format!("{}: long message ciphertext", alg.name()), m == ct);
        cx.eq(&format!("{}: long message tag", alg.name()), &t, &tag);
        let ok = c.di(&mut m, &aad, &iv, &t);
        cx.ok(&format!("{}: long message opens", alg.name()), ok && m == pt);
    });
    cx.rep.count("long messages");
}
