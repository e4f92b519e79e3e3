//! Classifies the body of a TLS 1.3 Certificate message, from RFC 8446 4.4.2, X.690 and RFC 5280.
use refc::nat::Nat;
use refc::tls::Rd;

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// A well-formed chain of ECDSA-with-SHA256 v3 certificates.
    Well,
    /// Must be rejected as such.
    Mal(String),
    /// Outside of what the property settles (reason): any fatal alert is right.
    Gray(String),
}

/// One DER element: (tag, content, rest).
pub fn tlv(b: &[u8]) -> Result<(u8, &[u8], &[u8]), String> {
    if b.len() < 2 {
        return Err(format!("element of {} bytes", b.len()));
    }
    let tag = b[0];
    if tag & 0x1f == 0x1f {
        return Err("multi-byte tag".into());
    }
    let (len, at) = if b[1] < 0x80 {
        (b[1] as usize, 2)
    } else {
        let n = (b[1] & 0x7f) as usize;
        if n == 0 {
            return Err("indefinite length".into());
        }
        if b.len() < 2 + n {
            return Err("length cut".into());
        }
        let l = &b[2..2 + n];
        if l[0] == 0 || (n == 1 && l[0] < 0x80) {
            return Err("non-minimal length".into());
        }
        if n > 6 {
            return Err("huge length".into());
        }
        (l.iter().fold(0usize, |a, &x| a << 8 | x as usize), 2 + n)
    };
    if len > b.len() - at {
        return Err(format!("length {len} overruns the {} bytes left", b.len() - at));
    }
    Ok((tag, &b[at..at + len], &b[at + len..]))
}
fn want<'a>(b: &mut &'a [u8], tag: u8, what: &str) -> Result<&'a [u8], String> {
    let (t, c, r) = tlv(b).map_err(|e| format!("{what}: {e}"))?;
    if t != tag {
        return Err(format!("{what}: tag {t:#x}"));
    }
    *b = r;
    Ok(c)
}
/// Whether unexamined contents are themselves strict DER of unsuspicious shape.
fn deep(b: &[u8]) -> Result<(), String> {
    let mut b = b;
    while !b.is_empty() {
        let (t, c, r) = tlv(b)?;
        if t & 0x20 != 0 {
            deep(c)?;
        }
        match t {
            1 if c.len() != 1 => return Err("boolean".into()),
            2 | 10 if c.is_empty() => return Err("empty integer".into()),
            2 | 10 if c.len() > 1 && (c[0] == 0 && c[1] < 0x80 || c[0] == 0xff && c[1] >= 0x80) => return Err("integer not minimal".into()),
            3 if c.is_empty() || c[0] > 7 || c.len() == 1 && c[0] != 0 => return Err("bit string".into()),
            5 if !c.is_empty() => return Err("null".into()),
            6 if c.is_empty() || c[c.len() - 1] & 0x80 != 0 => return Err("object identifier".into()),
            0 | 0x10 | 0x11 => return Err(format!("tag {t}")),
            _ => (),
        }
        b = r;
    }
    Ok(())
}
fn name_shape(b: &[u8]) -> Result<(), String> {
    deep(b)?;
    if b.is_empty() {
        return Err("empty name".into());
    }
    let mut b = b;
    while !b.is_empty() {
        let mut set = want(&mut b, 0x31, "rdn")?;
        if set.is_empty() {
            return Err("empty rdn".into());
        }
        while !set.is_empty() {
            let mut a = want(&mut set, 0x30, "attribute")?;
            want(&mut a, 6, "attribute type")?;
            tlv(a)?;
        }
    }
    Ok(())
}
fn time_shape(tag: u8, c: &[u8]) -> Result<(), String> {
    let n = if tag == 0x17 { 13 } else { 15 };
    if c.len() == n && c[n - 1] == b'Z' && c[..n - 1].iter().all(u8::is_ascii_digit) {
        Ok(())
    } else {
        Err("time contents".into())
    }
}
struct Cx {
    gray: Option<String>,
}
impl Cx {
    fn gray(&mut self, r: Result<(), String>, what: &str) {
        if let Err(e) = r {
            if self.gray.is_none() {
                self.gray = Some(format!("{what}: {e}"));
            }
        }
    }
    fn cert(&mut self, b: &[u8]) -> Result<(), String> {
        let mut b = b;
        let mut c = want(&mut b, 0x30, "certificate")?;
        if !b.is_empty() {
            return Err("bytes after the certificate".into());
        }
        let tbs = want(&mut c, 0x30, "tbsCertificate")?;
        let alg = want(&mut c, 0x30, "signatureAlgorithm")?;
        let sig = want(&mut c, 3, "signatureValue")?;
        if !c.is_empty() {
            return Err("elements after the signature".into());
        }
        self.tbs(tbs, alg)?;
        self.alg(alg)?;
        self.sig(sig)
    }
    fn alg(&mut self, alg: &[u8]) -> Result<(), String> {
        let mut a = alg;
        let oid = want(&mut a, 6, "algorithm")?;
        if oid != [0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2] {
            return Err("unsupported signature algorithm".into());
        }
        if !a.is_empty() {
            let (_, _, r) = tlv(a).map_err(|e| format!("algorithm parameters: {e}"))?;
            if !r.is_empty() {
                return Err("elements after the algorithm parameters".into());
            }
            self.gray(Err("parameters present".into()), "algorithm");
        }
        Ok(())
    }
    fn sig(&mut self, sig: &[u8]) -> Result<(), String> {
        if sig.is_empty() {
            return Err("empty bit string".into());
        }
        if sig[0] != 0 {
            return Err("unused bits in the signature".into());
        }
        let mut s = &sig[1..];
        let mut q = want(&mut s, 0x30, "signature")?;
        if !s.is_empty() {
            return Err("bytes after the signature".into());
        }
        for what in ["r", "s"] {
            let v = want(&mut q, 2, what)?;
            if v.is_empty() {
                return Err(format!("{what} is empty"));
            }
            if v[0] & 0x80 != 0 {
                return Err(format!("{what} is negative"));
            }
            if v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0 {
                self.gray(Err("not minimal".into()), what);
            }
            let n = Nat::from_be(v);
            if n.is_zero() || n >= refc::p256::n_nat() {
                return Err(format!("{what} out of range"));
            }
        }
        if !q.is_empty() {
            return Err("elements after s".into());
        }
        Ok(())
    }
    fn tbs(&mut self, tbs: &[u8], alg: &[u8]) -> Result<(), String> {
        let mut t = tbs;
        let mut v = want(&mut t, 0xa0, "version")?;
        let n = want(&mut v, 2, "version number")?;
        if !v.is_empty() {
            return Err("elements after the version".into());
        }
        if n != [2] {
            return Err(format!("version number {n:?}"));
        }
        let serial = want(&mut t, 2, "serial number")?;
        if serial.is_empty() {
            return Err("empty serial number".into());
        }
        if serial.len() > 20 || serial[0] >= 0x80 || serial.len() > 1 && serial[0] == 0 && serial[1] < 0x80 {
            self.gray(Err("unusual".into()), "serial");
        }
        let a = want(&mut t, 0x30, "signature")?;
        if a != alg {
            self.gray(Err("differs from the outer one".into()), "signature");
        }
        let i = want(&mut t, 0x30, "issuer")?;
        self.gray(name_shape(i), "issuer");
        let mut w = want(&mut t, 0x30, "validity")?;
        for what in ["notBefore", "notAfter"] {
            let (tag, c, r) = tlv(w).map_err(|e| format!("{what}: {e}"))?;
            if tag != 0x17 && tag != 0x18 {
                return Err(format!("{what}: tag {tag:#x}"));
            }
            self.gray(time_shape(tag, c), what);
            w = r;
        }
        if !w.is_empty() {
            return Err("elements after notAfter".into());
        }
        let s = want(&mut t, 0x30, "subject")?;
        self.gray(name_shape(s), "subject");
        let p = want(&mut t, 0x30, "public key")?;
        self.gray(deep(p), "public key");
        let mut q = p;
        self.gray(want(&mut q, 0x30, "key algorithm").map(|_| ()), "public key");
        self.gray(want(&mut q, 3, "key bits").map(|_| ()), "public key");
        if !q.is_empty() {
            self.gray(Err("more elements".into()), "public key");
        }
        let mut last = 0;
        while !t.is_empty() {
            let (tag, c, r) = tlv(t).map_err(|e| format!("optional field: {e}"))?;
            let k = match tag {
                0x81 => 1,
                0x82 => 2,
                0xa3 => 3,
                _ => 0,
            };
            if k <= last {
                self.gray(Err(format!("tag {tag:#x}")), "optional field");
            }
            if k == 3 {
                self.gray(deep(c), "extensions");
                let mut e = c;
                let l = want(&mut e, 0x30, "extensions").map(|l| l.to_vec());
                if !e.is_empty() || l.as_ref().map_or(true, |l| l.is_empty()) {
                    self.gray(Err("shape".into()), "extensions");
                }
            }
            last = k;
            t = r;
        }
        Ok(())
    }
    fn message(&mut self, body: &[u8]) -> Result<(), String> {
        let mut r = Rd { b: body };
        let ctx = r.vec(1)?;
        if !ctx.is_empty() {
            return Err("request context not empty".into());
        }
        let list = r.vec(3)?;
        r.end("the certificate list")?;
        if list.is_empty() {
            return Err("empty chain".into());
        }
        let mut l = Rd { b: list };
        let mut certs = vec![];
        while !l.b.is_empty() {
            let c = l.vec(3)?;
            if c.is_empty() {
                return Err("empty certificate".into());
            }
            let e = l.vec(2)?;
            if !e.is_empty() {
                self.gray(Err("present".into()), "entry extensions");
            }
            certs.push(c);
        }
        for c in certs {
            self.cert(c)?;
        }
        Ok(())
    }
}
pub fn classify(body: &[u8]) -> Class {
    let mut x = Cx { gray: None };
    match x.message(body) {
        Err(e) => match x.gray {
            Some(g) => Class::Gray(format!("{g}; {e}")),
            None => Class::Mal(e),
        },
        Ok(()) => match x.gray {
            Some(g) => Class::Gray(g),
            None => Class::Well,
        },
    }
}
