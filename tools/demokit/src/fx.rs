//! Independent fixed-point arithmetic used by the reference model.
//! Written from the documented rounding rules, on plain big integers.
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};

pub const RAY: u32 = 27;
pub const WAD: u32 = 18;
pub const BPS: u32 = 4;

pub fn pow10(n: u32) -> BigUint {
    thread_local! {
        static T: Vec<BigUint> = {
            let mut v = vec![BigUint::one()];
            for i in 0..120 { let n: BigUint = &v[i] * 10u32; v.push(n); }
            v
        };
    }
    T.with(|t| t[n as usize].clone())
}

pub fn bu(v: u128) -> BigUint {
    BigUint::from(v)
}

/// Fixed point number: value `v / 10^s`.
#[derive(Clone, Debug)]
pub struct Dec {
    pub v: BigUint,
    pub s: u32,
}

impl Dec {
    pub fn new(v: BigUint, s: u32) -> Self {
        Dec { v, s }
    }
    pub fn zero(s: u32) -> Self {
        Dec { v: BigUint::zero(), s }
    }
    pub fn ray(v: BigUint) -> Self {
        Dec { v, s: RAY }
    }
    pub fn wad(v: BigUint) -> Self {
        Dec { v, s: WAD }
    }
    pub fn one(s: u32) -> Self {
        Dec { v: pow10(s), s }
    }
    pub fn is_zero(&self) -> bool {
        self.v.is_zero()
    }
    /// Truncating re-expression at another precision.
    pub fn at(&self, s: u32) -> Dec {
        if s >= self.s {
            Dec { v: &self.v * pow10(s - self.s), s }
        } else {
            Dec { v: &self.v / pow10(self.s - s), s }
        }
    }
    /// Half-up re-expression at another precision.
    pub fn round_to(&self, s: u32) -> Dec {
        if s >= self.s {
            self.at(s)
        } else {
            let f = pow10(self.s - s);
            Dec { v: (&self.v * 2u32 + &f) / (&f * 2u32), s }
        }
    }
    pub fn cmp(&self, o: &Dec) -> std::cmp::Ordering {
        let m = self.s.max(o.s);
        self.at(m).v.cmp(&o.at(m).v)
    }
    pub fn ge(&self, o: &Dec) -> bool {
        self.cmp(o) != std::cmp::Ordering::Less
    }
    pub fn gt(&self, o: &Dec) -> bool {
        self.cmp(o) == std::cmp::Ordering::Greater
    }
    pub fn lt(&self, o: &Dec) -> bool {
        self.cmp(o) == std::cmp::Ordering::Less
    }
    pub fn le(&self, o: &Dec) -> bool {
        self.cmp(o) != std::cmp::Ordering::Greater
    }
    pub fn eq(&self, o: &Dec) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
    /// Sum at the larger of the two precisions.
    pub fn add(&self, o: &Dec) -> Dec {
        let m = self.s.max(o.s);
        Dec { v: self.at(m).v + o.at(m).v, s: m }
    }
    /// Difference at the larger precision; None when negative.
    pub fn sub(&self, o: &Dec) -> Option<Dec> {
        let m = self.s.max(o.s);
        let (a, b) = (self.at(m).v, o.at(m).v);
        if a < b {
            None
        } else {
            Some(Dec { v: a - b, s: m })
        }
    }
    pub fn min(self, o: Dec) -> Dec {
        if self.lt(&o) {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: Dec) -> Dec {
        if self.gt(&o) {
            self
        } else {
            o
        }
    }
    pub fn f64(&self) -> f64 {
        use num_traits::ToPrimitive;
        self.v.to_f64().unwrap_or(f64::INFINITY) / 10f64.powi(self.s as i32)
    }
}

/// a*b at precision p, rounded half up.
pub fn mul(a: &Dec, b: &Dec, p: u32) -> Dec {
    let one = pow10(p);
    let prod = a.at(p).v * b.at(p).v;
    Dec { v: (prod * 2u32 + &one) / (one * 2u32), s: p }
}

/// a/b at precision p, rounded half up; None when b is zero at that precision.
pub fn div(a: &Dec, b: &Dec, p: u32) -> Option<Dec> {
    let d = b.at(p).v;
    if d.is_zero() {
        return None;
    }
    let n = a.at(p).v * pow10(p);
    Some(Dec { v: (n * 2u32 + &d) / (d * 2u32), s: p })
}

/// Signed fixed point.
#[derive(Clone, Debug)]
pub struct SDec {
    pub v: BigInt,
    pub s: u32,
}

fn round_div_signed(n: BigInt, d: BigInt) -> BigInt {
    let neg = n.is_negative() != d.is_negative();
    let (na, da) = (n.abs(), d.abs());
    let two = BigInt::from(2);
    let q: BigInt = (&na * &two + &da) / (&da * &two);
    if neg {
        -q
    } else {
        q
    }
}

impl SDec {
    pub fn from(d: &Dec) -> SDec {
        SDec { v: BigInt::from(d.v.clone()), s: d.s }
    }
    pub fn at(&self, s: u32) -> SDec {
        if s >= self.s {
            SDec { v: &self.v * BigInt::from(pow10(s - self.s)), s }
        } else {
            SDec { v: &self.v / BigInt::from(pow10(self.s - s)), s }
        }
    }
    pub fn sub(&self, o: &SDec) -> SDec {
        let m = self.s.max(o.s);
        SDec { v: self.at(m).v - o.at(m).v, s: m }
    }
    pub fn add(&self, o: &SDec) -> SDec {
        let m = self.s.max(o.s);
        SDec { v: self.at(m).v + o.at(m).v, s: m }
    }
    pub fn is_neg(&self) -> bool {
        self.v.is_negative()
    }
    pub fn abs(&self) -> Dec {
        Dec { v: self.v.abs().to_biguint().unwrap(), s: self.s }
    }
}

pub fn mul_s(a: &SDec, b: &SDec, p: u32) -> SDec {
    SDec { v: round_div_signed(a.at(p).v * b.at(p).v, BigInt::from(pow10(p))), s: p }
}
pub fn div_s(a: &SDec, b: &SDec, p: u32) -> Option<SDec> {
    let d = b.at(p).v;
    if d.is_zero() {
        return None;
    }
    Some(SDec { v: round_div_signed(a.at(p).v * BigInt::from(pow10(p)), d), s: p })
}
