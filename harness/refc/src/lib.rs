//! Independent reference implementations used as oracles. Nothing here depends on the code under
//! test; algorithms are written from the standards, in their most literal form.
pub mod aes;
pub mod chacha;
pub mod ecdsa;
pub mod hash;
pub mod nat;
pub mod p256;
pub mod report;
pub mod rng;
pub mod special;
pub mod tls;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
#[cfg(test)]
mod kat {
    use crate::*;
    /// RFC 8448, section 3: handshake traffic keys of the simple 1-RTT handshake.
    #[test]
    fn key_schedule() {
        let dh = unhex("8bd4054fb55b9d63fdfbacf9f04b9f0d35e6d63f537563efd46272900f89492d");
        let hs = tls::extract(&tls::expand_label(&tls::extract(&[0; 32], &[0; 32]), "derived", &hash::sha256(b""), 32), &dh);
        assert_eq!(hex(&hs), "1dc826e93606aa6fdc0aadc12f741b01046aa6b99f691ed221a9f0ca043fbeac");
        let th = unhex("860c06edc07858ee8e78f0e7428c58edd6b43f2ca3e6e95f02f063cf0e1cad8");
        let _ = th;
        let s = unhex("b67b7d690cc16c4e75e54213cb2d37b4e9c912bcded9105d42befd59d391ad38");
        let k = tls::Keys::new(tls::Suite::Aes128Gcm, &s);
        assert_eq!(hex(&k.key), "3fce516009c21727d0f2e4e86ee403bc");
        assert_eq!(hex(&k.iv), "5d313eb2671276ee13000b30");
    }
    #[test]
    fn known_answers() {
        assert_eq!(hex(&hash::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hex(&hash::sha512(b"abc")), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
        assert_eq!(hex(&hash::hmac256(b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
        assert_eq!(hex(&hash::hkdf_expand256(&unhex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"), &unhex("f0f1f2f3f4f5f6f7f8f9"), 42)), "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865");
        let a = aes::Aes::new(&unhex("000102030405060708090a0b0c0d0e0f1011121314151617"));
        assert_eq!(hex(&a.block(&unhex("00112233445566778899aabbccddeeff").try_into().unwrap())), "dda97ca4864cdfe06eaf70a0ec0d7191");
        let (c, t) = aes::gcm_seal(&unhex("feffe9928665731c6d6a8f9467308308"), &unhex("cafebabefacedbaddecaf888").try_into().unwrap(), &unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2"), &unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"));
        assert_eq!(hex(&c[..8]), "42831ec221777424");
        assert_eq!(hex(&t), "5bc94fbc3221a5db94fae95ae7121a47");
        let k: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
        let n: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
        let (c, t) = chacha::seal(&k, &n, &unhex("50515253c0c1c2c3c4c5c6c7"), b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.");
        assert_eq!(hex(&c[..8]), "d31a8d34648e60db");
        assert_eq!(hex(&t), "1ae10b594f09e26a7e902ecbd0600691");
        // RFC 6979 A.2.5, SHA-256, "sample"
        let d = nat::Nat::from_be(&unhex("C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721"));
        let kk = nat::Nat::from_be(&unhex("A6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60"));
        let h = hash::sha256(b"sample");
        let (r, s) = ecdsa::sign(&d, &h, &kk).unwrap();
        assert_eq!(hex(&r.to_be(32)).to_uppercase(), "EFD48B2AACB6A8FD1140DD9CD45E81D69D2C877B56AAF991C34D0EA84EAF3716");
        assert_eq!(hex(&s.to_be(32)).to_uppercase(), "F7CB1C942D657C41D436C7A1B6E29F65F3E900DBB9AFF4064DC4AB2F843ACDA8");
        assert!(ecdsa::verify(&p256::mul_base(&d), &h, &r, &s));
        assert!(!ecdsa::verify(&p256::mul_base(&d), &h, &s, &r));
    }
}
