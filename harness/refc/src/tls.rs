//! TLS 1.3 wire format, key schedule and record protection (RFC 8446), written from the standard.
use crate::hash::{hkdf_expand256, hmac256, sha256};
use crate::nat::Nat;
use crate::{aes, chacha, p256};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Suite {
    Aes128Gcm,
    ChaCha,
}
impl Suite {
    pub fn code(self) -> u16 {
        match self {
            Suite::Aes128Gcm => 0x1301,
            Suite::ChaCha => 0x1303,
        }
    }
    pub fn from_code(c: u16) -> Option<Suite> {
        match c {
            0x1301 => Some(Suite::Aes128Gcm),
            0x1303 => Some(Suite::ChaCha),
            _ => None,
        }
    }
    pub fn key_len(self) -> usize {
        match self {
            Suite::Aes128Gcm => 16,
            Suite::ChaCha => 32,
        }
    }
}

// ---------------------------------------------------------------- key schedule

/// HKDF-Expand-Label (section 7.1).
pub fn expand_label(secret: &[u8], label: &str, context: &[u8], len: usize) -> Vec<u8> {
    let mut info = (len as u16).to_be_bytes().to_vec();
    let l = format!("tls13 {label}");
    info.push(l.len() as u8);
    info.extend(l.as_bytes());
    info.push(context.len() as u8);
    info.extend(context);
    hkdf_expand256(secret, &info, len)
}
pub fn extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    hmac256(salt, ikm)
}

/// One direction of record protection.
#[derive(Clone)]
pub struct Keys {
    pub suite: Suite,
    pub key: Vec<u8>,
    pub iv: [u8; 12],
    pub seq: u64,
}
impl Keys {
    pub fn new(suite: Suite, secret: &[u8]) -> Self {
        Keys {
            suite,
            key: expand_label(secret, "key", b"", suite.key_len()),
            iv: expand_label(secret, "iv", b"", 12).try_into().unwrap(),
            seq: 0,
        }
    }
    pub fn nonce(&self, seq: u64) -> [u8; 12] {
        let mut n = self.iv;
        for i in 0..8 {
            n[4 + i] ^= seq.to_be_bytes()[i];
        }
        n
    }
    pub fn seal_raw(&self, seq: u64, aad: &[u8], inner: &[u8]) -> Vec<u8> {
        let n = self.nonce(seq);
        let (mut c, t) = match self.suite {
            Suite::Aes128Gcm => aes::gcm_seal(&self.key, &n, aad, inner),
            Suite::ChaCha => chacha::seal(&self.key.clone().try_into().unwrap(), &n, aad, inner),
        };
        c.extend(t);
        c
    }
    pub fn open_raw(&self, seq: u64, aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        if ct.len() < 16 {
            return None;
        }
        let n = self.nonce(seq);
        let (c, t) = ct.split_at(ct.len() - 16);
        match self.suite {
            Suite::Aes128Gcm => aes::gcm_open(&self.key, &n, aad, c, t),
            Suite::ChaCha => chacha::open(&self.key.clone().try_into().unwrap(), &n, aad, c, t),
        }
    }
    /// A protected record carrying `content` of type `ty` with `pad` zero bytes.
    pub fn seal(&mut self, ty: u8, content: &[u8], pad: usize) -> Vec<u8> {
        let mut inner = content.to_vec();
        inner.push(ty);
        inner.extend(vec![0; pad]);
        self.seal_inner(&inner, [3, 3])
    }
    /// A protected record around arbitrary inner bytes.
    pub fn seal_inner(&mut self, inner: &[u8], version: [u8; 2]) -> Vec<u8> {
        let len = inner.len() + 16;
        let hdr = [23, version[0], version[1], (len >> 8) as u8, len as u8];
        let mut r = hdr.to_vec();
        r.extend(self.seal_raw(self.seq, &hdr, inner));
        self.seq += 1;
        r
    }
    /// Opens a whole record with the next sequence number.
    pub fn open(&mut self, record: &[u8]) -> Option<Vec<u8>> {
        let r = self.open_raw(self.seq, &record[..5], &record[5..])?;
        self.seq += 1;
        Some(r)
    }
}

/// Handshake traffic keys: (client, server).
pub fn handshake_keys(suite: Suite, dh: &[u8], transcript: &[u8]) -> (Keys, Keys) {
    let early = extract(&[0; 32], &[0; 32]);
    let derived = expand_label(&early, "derived", &sha256(b""), 32);
    let hs = extract(&derived, dh);
    let th = sha256(transcript);
    let c = expand_label(&hs, "c hs traffic", &th, 32);
    let s = expand_label(&hs, "s hs traffic", &th, 32);
    (Keys::new(suite, &c), Keys::new(suite, &s))
}
/// x-coordinate of `k * point` as the shared secret.
pub fn ecdh(k: &Nat, point: &p256::Pt) -> Option<[u8; 32]> {
    p256::mul(k, point).map(|(x, _)| p256::fe_to_be(&x))
}

// ---------------------------------------------------------------- encoding

pub fn record(ty: u8, version: [u8; 2], body: &[u8]) -> Vec<u8> {
    let mut r = vec![ty, version[0], version[1], (body.len() >> 8) as u8, body.len() as u8];
    r.extend(body);
    r
}
pub fn handshake(ty: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut m = vec![ty, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    m.extend(body);
    m
}
pub fn vec8(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend(b);
    v
}
pub fn vec16(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend(b);
    v
}
pub fn vec24(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes()[1..].to_vec();
    v.extend(b);
    v
}
pub fn ext(ty: u16, data: &[u8]) -> Vec<u8> {
    let mut v = ty.to_be_bytes().to_vec();
    v.extend(vec16(data));
    v
}

// ---------------------------------------------------------------- strict parsing

pub struct Rd<'a> {
    pub b: &'a [u8],
}
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() < n {
            return Err(format!("{n} bytes wanted, {} left", self.b.len()));
        }
        let (a, b) = self.b.split_at(n);
        self.b = b;
        Ok(a)
    }
    pub fn int(&mut self, n: usize) -> Result<usize, String> {
        Ok(self.take(n)?.iter().fold(0, |a, &x| a << 8 | x as usize))
    }
    /// A vector whose length is encoded in `n` bytes.
    pub fn vec(&mut self, n: usize) -> Result<&'a [u8], String> {
        let l = self.int(n)?;
        self.take(l)
    }
    pub fn end(&self, what: &str) -> Result<(), String> {
        if self.b.is_empty() {
            Ok(())
        } else {
            Err(format!("{} bytes left after {what}", self.b.len()))
        }
    }
}
/// All extensions of a block without its length field, in order.
pub fn extensions(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut r = Rd { b };
    let mut v = vec![];
    while !r.b.is_empty() {
        let t = r.int(2)? as u16;
        v.push((t, r.vec(2)?.to_vec()));
    }
    Ok(v)
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Hello {
    /// The whole handshake message.
    pub msg: Vec<u8>,
    pub version: u16,
    pub random: Vec<u8>,
    pub session_id: Vec<u8>,
    pub ciphers: Vec<u16>,
    pub compression: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub sni: Option<Vec<u8>>,
    pub sig_algs: Option<Vec<u16>>,
    pub versions: Option<Vec<u16>>,
    pub groups: Option<Vec<u16>>,
    pub shares: Option<Vec<(u16, Vec<u8>)>>,
    pub alpn: Option<Vec<Vec<u8>>>,
}
fn u16s(b: &[u8], what: &str) -> Result<Vec<u16>, String> {
    if b.len() % 2 != 0 || b.is_empty() {
        return Err(format!("{what}: list of {} bytes", b.len()));
    }
    Ok(b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect())
}
/// Strict parser of a ClientHello handshake message.
pub fn client_hello(msg: &[u8]) -> Result<Hello, String> {
    let mut h = Hello { msg: msg.to_vec(), ..Default::default() };
    let mut r = Rd { b: msg };
    if r.int(1)? != 1 {
        return Err("not a ClientHello".into());
    }
    let body = r.vec(3)?;
    r.end("the message")?;
    let mut r = Rd { b: body };
    h.version = r.int(2)? as u16;
    h.random = r.take(32)?.to_vec();
    h.session_id = r.vec(1)?.to_vec();
    if h.session_id.len() > 32 {
        return Err("session id too long".into());
    }
    h.ciphers = u16s(r.vec(2)?, "cipher suites")?;
    h.compression = r.vec(1)?.to_vec();
    let e = r.vec(2)?;
    r.end("the extensions")?;
    h.exts = extensions(e)?;
    for (i, (t, d)) in h.exts.iter().enumerate() {
        if h.exts[..i].iter().any(|x| x.0 == *t) {
            return Err(format!("extension {t} repeated"));
        }
        let mut r = Rd { b: d };
        let ctx = |e: String| format!("extension {t}: {e}");
        match t {
            0 => {
                let mut l = Rd { b: r.vec(2).map_err(ctx)? };
                if l.int(1).map_err(ctx)? != 0 {
                    return Err("server name of unknown type".into());
                }
                let n = l.vec(2).map_err(ctx)?;
                l.end("the server name").map_err(ctx)?;
                if n.is_empty() {
                    return Err("empty server name".into());
                }
                h.sni = Some(n.to_vec());
            },
            13 => h.sig_algs = Some(u16s(r.vec(2).map_err(ctx)?, "signature algorithms")?),
            43 => h.versions = Some(u16s(r.vec(1).map_err(ctx)?, "versions")?),
            10 => h.groups = Some(u16s(r.vec(2).map_err(ctx)?, "groups")?),
            51 => {
                let mut l = Rd { b: r.vec(2).map_err(ctx)? };
                let mut v = vec![];
                while !l.b.is_empty() {
                    let g = l.int(2).map_err(ctx)? as u16;
                    v.push((g, l.vec(2).map_err(ctx)?.to_vec()));
                }
                h.shares = Some(v);
            },
            16 => {
                let mut l = Rd { b: r.vec(2).map_err(ctx)? };
                let mut v = vec![];
                while !l.b.is_empty() {
                    let p = l.vec(1).map_err(ctx)?.to_vec();
                    if p.is_empty() {
                        return Err("empty protocol name".into());
                    }
                    v.push(p);
                }
                if v.is_empty() {
                    return Err("empty protocol list".into());
                }
                h.alpn = Some(v);
            },
            _ => continue,
        }
        r.end("the extension").map_err(ctx)?;
    }
    Ok(h)
}

/// Splits an outgoing byte stream into records; the tail is what does not form a whole record.
pub fn split_records(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = vec![];
    let mut b = b;
    while b.len() >= 5 {
        let n = 5 + ((b[3] as usize) << 8 | b[4] as usize);
        if b.len() < n {
            break;
        }
        v.push(&b[..n]);
        b = &b[n..];
    }
    (v, b)
}
/// The first handshake message sent (complete) and the number of records it took, if it is there.
/// An error says how the stream is not a legal start of a connection.
pub fn first_message(out: &[u8]) -> Result<Option<(Vec<u8>, usize)>, String> {
    let (recs, _) = split_records(out);
    let mut m: Vec<u8> = vec![];
    for (i, r) in recs.iter().enumerate() {
        if r[0] != 22 {
            return Err(format!("record {i} inside the first message has type {}", r[0]));
        }
        let n = r.len() - 5;
        if n == 0 || n > 0x4000 {
            return Err(format!("record {i} has length {n}"));
        }
        m.extend(&r[5..]);
        if m.len() >= 4 {
            let want = 4 + ((m[1] as usize) << 16 | (m[2] as usize) << 8 | m[3] as usize);
            if m.len() > want {
                return Err("bytes after the first message in its record".into());
            }
            if m.len() == want {
                return Ok(Some((m, i + 1)));
            }
        }
    }
    Ok(None)
}

pub const HRR_RANDOM: [u8; 32] = [
    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16, 0x7A,
    0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
];
