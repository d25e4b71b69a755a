//! Argument and storage encoding / decoding (MultiversX serialisation format).
use crate::fx::Dec;
use num_bigint::BigUint;

#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new() -> Self {
        Enc(vec![])
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn bool(self, v: bool) -> Self {
        self.u8(v as u8)
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn buf(mut self, b: &[u8]) -> Self {
        self.0.extend((b.len() as u32).to_be_bytes());
        self.0.extend(b);
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend(b);
        self
    }
    pub fn big(self, v: &BigUint) -> Self {
        let b = top_big(v);
        self.buf(&b)
    }
    pub fn dec(self, d: &Dec) -> Self {
        self.big(&d.v).u32(d.s)
    }
    pub fn opt_big(self, v: &Option<BigUint>) -> Self {
        match v {
            None => self.u8(0),
            Some(v) => self.u8(1).big(v),
        }
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

pub fn top_big(v: &BigUint) -> Vec<u8> {
    if *v == BigUint::default() {
        vec![]
    } else {
        v.to_bytes_be()
    }
}
pub fn top_dec(v: &BigUint, s: u32) -> Vec<u8> {
    Enc::new().big(v).u32(s).done()
}
/// Shows a returned value: a decimal where it parses as one, hex otherwise.
pub fn show_out(b: &[u8]) -> String {
    if b.len() >= 8 {
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        if b.len() == 8 + n {
            let d = Rd::new(b).dec();
            return format!("{}e-{}", d.v, d.s);
        }
    }
    hex::encode(b)
}
pub fn top_u64(v: u64) -> Vec<u8> {
    top_big(&BigUint::from(v))
}
pub fn top_bool(v: bool) -> Vec<u8> {
    if v {
        vec![1]
    } else {
        vec![]
    }
}

pub struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_be_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_be_bytes(self.take(8).try_into().unwrap())
    }
    pub fn buf(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
    pub fn big(&mut self) -> BigUint {
        BigUint::from_bytes_be(self.buf())
    }
    pub fn dec(&mut self) -> Dec {
        let v = self.big();
        let s = self.u32();
        Dec { v, s }
    }
    pub fn opt_big(&mut self) -> Option<BigUint> {
        if self.u8() == 1 {
            Some(self.big())
        } else {
            None
        }
    }
    pub fn end(&self) -> bool {
        self.p >= self.b.len()
    }
}
pub fn big_of(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn u64_of(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for x in b {
        r = (r << 8) | *x as u64;
    }
    r
}
