//! C01: the real fixed-point arithmetic against exact rational arithmetic.
//! The only module that links against a library interface of the repository.
use crate::model::c;
use crate::fx::pow10;
use crate::pure::{half_up, Outcome};
use crate::sim::*;
use crate::world::World;
use common_math::SharedMathModule;
use multiversx_sc::types::{BigInt as MInt, BigUint as MBig, ManagedDecimal, ManagedDecimalSigned};
use multiversx_sc_scenario::api::StaticApi;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, Zero};

struct T;
impl multiversx_sc::contract_base::ContractBase for T {
    type Api = StaticApi;
}
impl SharedMathModule for T {}
type D = ManagedDecimal<StaticApi, usize>;
type S = ManagedDecimalSigned<StaticApi, usize>;

fn to_m(v: &BigUint) -> MBig<StaticApi> {
    MBig::from_bytes_be(&v.to_bytes_be())
}
fn of_m(v: &MBig<StaticApi>) -> BigUint {
    BigUint::from_bytes_be(v.to_bytes_be().into_vec().as_slice())
}
fn to_mi(v: &BigInt) -> MInt<StaticApi> {
    let m = MInt::from(to_m(v.magnitude()));
    if v.is_negative() {
        -m
    } else {
        m
    }
}
fn of_mi(v: &MInt<StaticApi>) -> BigInt {
    let neg = v.sign() == multiversx_sc::types::Sign::Minus;
    let m = of_m(&v.magnitude());
    BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, m)
}
/// A magnitude: edge values, powers of ten and their neighbours, or random up to ~10^60.
fn mag(a: u32, b: u32, c: u32) -> BigUint {
    match a % 8 {
        0 => BigUint::from((a / 8) % 12),
        1 => pow10((a / 8) % 46) + b % 3,
        2 => {
            let p = pow10((a / 8) % 46);
            if p > BigUint::one() {
                p - (1 + b % 3)
            } else {
                p
            }
        }
        3 => pow10((a / 8) % 46) * 5u32 + b % 2,
        4 => (pow10((a / 8) % 46) * 5u32).max(BigUint::from(2u32)) - BigUint::one(),
        5 => BigUint::from(b) * BigUint::from(c),
        6 => (BigUint::from(b) << ((a / 8) % 160)) + c,
        _ => BigUint::from(b),
    }
}
fn scale(g: u32) -> u32 {
    [27u32, 18, 4, 0, 6, 8, 2, 1, 30, 26, 28, 19, 36][(g % 13) as usize]
}
fn precision(g: u32) -> u32 {
    [27u32, 18, 4, 0, 6, 8, 27, 18, 1, 2, 36][(g % 11) as usize]
}
fn half_away(n: &BigInt, d: &BigInt) -> BigInt {
    let neg = (n.is_negative()) != (d.is_negative());
    let q = BigInt::from(half_up(n.magnitude(), d.magnitude()));
    if neg {
        -q
    } else {
        q
    }
}
fn trunc(v: &BigUint, from: u32, to: u32) -> BigUint {
    if to >= from {
        v * pow10(to - from)
    } else {
        v / pow10(from - to)
    }
}
fn trunc_s(v: &BigInt, from: u32, to: u32) -> BigInt {
    let m = BigInt::from(trunc(v.magnitude(), from, to));
    if v.is_negative() {
        -m
    } else {
        m
    }
}

fn eval_c01(op: &Op) -> (&'static str, bool, Result<String, String>) {
    let f = &op.f;
    let (sa, sb, p) = (scale(f[0]), scale(f[1]), precision(f[2]));
    let (a, b) = (mag(f[3], f[4], f[5]), mag(f[6], f[7], f[8]));
    let t = T;
    let d = |v: &BigUint, s: u32| -> D { ManagedDecimal::from_raw_units(to_m(v), s as usize) };
    let ds = |v: &BigInt, s: u32| -> S { ManagedDecimalSigned::from_raw_units(to_mi(v), s as usize) };
    let res = |x: D| (of_m(x.into_raw_units()), x.scale() as u32);
    let (ax, bx) = (trunc(&a, sa, p), trunc(&b, sb, p));
    let sgn = |v: &BigUint, n: bool| if n { -BigInt::from(v.clone()) } else { BigInt::from(v.clone()) };
    let (na, nb) = (f[9] & 1 == 1, f[9] & 2 == 2);
    let cmp = |what: &str, got: (String, u32), want: (String, u32)| {
        if got == want {
            Ok(format!("{what} = {}e-{}", got.0, got.1))
        } else {
            Err(format!("{what}: expected {}e-{} got {}e-{}", want.0, want.1, got.0, got.1))
        }
    };
    let args = format!("{a}e-{sa}, {b}e-{sb} at {p}");
    match op.k % 8 {
        0 => {
            let n = &ax * &bx;
            let one = pow10(p);
            let exact = (&n % &one).is_zero();
            let w = half_up(&n, &one);
            let g = res(t.mul_half_up(&d(&a, sa), &d(&b, sb), p as usize));
            ("mul", !exact, cmp(&format!("mul_half_up({args})"), (g.0.to_string(), g.1), (w.to_string(), p)))
        }
        1 => {
            if bx.is_zero() {
                return ("div", false, Ok(String::new()));
            }
            let n = &ax * pow10(p);
            let exact = (&n % &bx).is_zero();
            let w = half_up(&n, &bx);
            let g = res(t.div_half_up(&d(&a, sa), &d(&b, sb), p as usize));
            ("div", !exact, cmp(&format!("div_half_up({args})"), (g.0.to_string(), g.1), (w.to_string(), p)))
        }
        2 => {
            let (x, y) = (sgn(&a, na), sgn(&b, nb));
            let n = trunc_s(&x, sa, p) * trunc_s(&y, sb, p);
            let one = BigInt::from(pow10(p));
            let exact = (&n % &one).is_zero();
            let w = half_away(&n, &one);
            let r = t.mul_half_up_signed(&ds(&x, sa), &ds(&y, sb), p as usize);
            let g = (of_mi(r.into_raw_units()), r.scale() as u32);
            ("mul signed", !exact, cmp(&format!("mul_half_up_signed({x}e-{sa}, {y}e-{sb} at {p})"), (g.0.to_string(), g.1), (w.to_string(), p)))
        }
        3 => {
            let (x, y) = (sgn(&a, na), sgn(&b, nb));
            let den = trunc_s(&y, sb, p);
            if den.is_zero() {
                return ("div signed", false, Ok(String::new()));
            }
            let n = trunc_s(&x, sa, p) * BigInt::from(pow10(p));
            let exact = (&n % &den).is_zero();
            let w = half_away(&n, &den);
            let r = t.div_half_up_signed(&ds(&x, sa), &ds(&y, sb), p as usize);
            let g = (of_mi(r.into_raw_units()), r.scale() as u32);
            ("div signed", !exact, cmp(&format!("div_half_up_signed({x}e-{sa}, {y}e-{sb} at {p})"), (g.0.to_string(), g.1), (w.to_string(), p)))
        }
        4 => {
            let w = if p >= sa { &a * pow10(p - sa) } else { half_up(&a, &pow10(sa - p)) };
            let g = res(t.rescale_half_up(&d(&a, sa), p as usize));
            let r = cmp(&format!("rescale_half_up({a}e-{sa} to {p})"), (g.0.to_string(), g.1), (w.to_string(), p));
            if r.is_err() {
                return ("rescale", true, r);
            }
            // raising the precision and coming back loses nothing
            let up = (sa.max(p) + f[8] % 12) as usize;
            let back = res(t.rescale_half_up(&t.rescale_half_up(&d(&a, sa), up), sa as usize));
            ("rescale", p < sa, cmp(&format!("rescale {a}e-{sa} up to {up} and back"), (back.0.to_string(), back.1), (a.to_string(), sa)))
        }
        5 | 6 => {
            // mostly near-equal values at different scales
            let (a, b) = if f[9] % 4 != 0 {
                let m = sa.max(sb) + f[9] % 3;
                let base = trunc(&a, sa, m);
                let mut o = trunc(&base, m, sb);
                match f[9] / 4 % 3 {
                    0 => o += 1u32,
                    1 if !o.is_zero() => o -= 1u32,
                    _ => {}
                }
                (a, o)
            } else {
                (a, b)
            };
            let m = sa.max(sb);
            let (va, vb) = (trunc(&a, sa, m), trunc(&b, sb, m));
            let small = op.k % 8 == 5;
            let w = if small { va.clone().min(vb.clone()) } else { va.clone().max(vb.clone()) };
            let r = if small { T.min(d(&a, sa), d(&b, sb)) } else { T.max(d(&a, sa), d(&b, sb)) };
            let g = res(r);
            let gv = trunc(&g.0, g.1, m.max(g.1));
            let wv = trunc(&w, m, m.max(g.1));
            (
                if small { "min" } else { "max" },
                sa != sb && va != vb,
                cmp(
                    &format!("{}({a}e-{sa}, {b}e-{sb})", if small { "min" } else { "max" }),
                    (gv.to_string(), m.max(g.1)),
                    (wv.to_string(), m.max(g.1)),
                ),
            )
        }
        _ => {
            let g = [
                res(T.to_decimal(to_m(&a), p as usize)),
                res(T.to_decimal_ray(to_m(&a))),
                res(T.to_decimal_wad(to_m(&a))),
                res(T.to_decimal_bps(to_m(&a))),
                res(T.ray()),
                res(T.wad()),
                res(T.bps()),
                res(T.double_ray()),
                res(T.ray_zero()),
                res(T.wad_zero()),
                res(T.bps_zero()),
            ];
            let z = BigUint::zero();
            let w = [
                (a.clone(), p),
                (a.clone(), 27),
                (a.clone(), 18),
                (a.clone(), 4),
                (pow10(27), 27),
                (pow10(18), 18),
                (pow10(4), 4),
                (pow10(27) * 2u32, 27),
                (z.clone(), 27),
                (z.clone(), 18),
                (z, 4),
            ];
            let r = if g == w { Ok(format!("constructors of {a}")) } else { Err(format!("constructors of {a}: {g:?}")) };
            ("constructors", false, r)
        }
    }
}
pub fn run_c01(_w: &mut World, case: &Case, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    StaticApi::reset();
    for (i, op) in case.ops.iter().enumerate() {
        let r = std::panic::catch_unwind(|| eval_c01(op));
        o.steps += 1;
        match r {
            Err(_) => {
                StaticApi::reset();
                o.viol.push(Viol { tags: c(1), step: i, msg: format!("arithmetic panicked on legal operands: {:?}", op) });
            }
            Ok((k, nt, r)) => {
                o.hit(k);
                if nt {
                    o.hit("rounded or mixed-scale");
                }
                match r {
                    Ok(s) => {
                        if trace {
                            o.trace.push(s);
                        }
                    }
                    Err(m) => o.viol.push(Viol { tags: c(1), step: i, msg: m }),
                }
            }
        }
        if !o.viol.is_empty() {
            break;
        }
    }
    o
}

// ------------------------------------------------------------------ C02 -----
