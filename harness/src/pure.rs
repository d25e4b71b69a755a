//! C02 (rate curve): each operation of a case is one evaluation of the real code
//! against exact rational arithmetic.
use crate::check::c_;
use crate::enc::*;
use crate::fx::Dec;
use crate::model::*;
use crate::sim::*;
use crate::snap::Pool;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Outcome {
    pub viol: Vec<Viol>,
    pub ev: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub steps: u64,
    pub other: u64,
}
impl Outcome {
    pub fn hit(&mut self, k: &'static str) {
        *self.ev.entry(k).or_insert(0) += 1;
    }
}

/// floor((2n + d) / 2d)
pub fn half_up(n: &BigUint, d: &BigUint) -> BigUint {
    (n * 2u32 + d) / (d * 2u32)
}

/// Writes a market state straight into the pool, reads its rate views, lets
/// time pass and records the interest; everything is compared to exact formulas.
pub fn run_c02(w: &mut World, case: &Case, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let base = w.base.clone();
    w.vm.restore(&base);
    let ctl = w.a.controller.clone();
    for (i, op) in case.ops.iter().enumerate() {
        let mut genes: Vec<u32> = op.f.to_vec();
        genes.extend(case.cfg.iter().cloned());
        let t = [T_USDC, T_WBTC, T_UTK][(op.f[9] % 3) as usize];
        let pool = w.a.pools[t].clone();
        let mut g = Genes::new(&case.cfg[..]);
        for _ in 0..(i * 7) % 100 {
            g.next();
        }
        let mut p = gen_params(&mut g, t);
        if op.f[8] % 4 == 0 {
            // steep and degenerate curves
            p.s3 = crate::fx::pow10(27) * (1 + op.f[8] / 4 % 60);
            p.max = &p.base + &p.s1 + &p.s2 + &p.s3 / 2u32 + 1u32;
        }
        if op.f[8] % 5 == 1 {
            p.mid = BigUint::from(1 + op.f[8] / 8 % 1000);
        }
        if op.f[8] % 5 == 2 {
            p.opt = ray() - (1 + op.f[8] / 8 % 1000);
        }
        w.put_params(t, &p);
        let sidx = if op.f[7] % 3 == 0 { ray() } else { ray() * (1_000_000 + op.f[7] % 9_000_000) / 1_000_000u32 + op.f[7] };
        let bidx = if op.f[7] % 3 == 0 { ray() } else { &sidx * (1_000_000 + op.f[6] % 9_000_000) / 1_000_000u32 };
        let supplied = log10(op.f[0], 200, 400);
        // a utilisation near the interesting points
        let kinks = [BigUint::zero(), p.mid.clone(), p.opt.clone(), ray(), ray() * 11u32 / 10u32];
        let near = |a: u32, b: u32| -> BigUint {
            let k = &kinks[(a % 5) as usize];
            match a / 5 % 5 {
                0 => k.clone(),
                1 => k + b % 1000,
                2 => {
                    let x = BigUint::from(b % 1000);
                    if *k > x { k - x } else { BigUint::zero() }
                }
                3 => k * (b % 2_000_000) / 1_000_000u32,
                _ => ray() * (b % 1_000_000) / 1_000_000u32,
            }
        };
        let mut last: Option<(BigUint, BigUint)> = None;
        let now = w.vm.now();
        for (a, b) in [(op.f[1], op.f[2]), (op.f[3], op.f[4])] {
            let u = near(a, b);
            let borrowed = &u * &supplied / ray() * &sidx / &bidx;
            let empty = op.f[5] % 40 == 39;
            let supplied = if empty { BigUint::zero() } else { supplied.clone() };
            w.put_dec(&pool, "supplied", &Dec::ray(supplied.clone()));
            w.put_dec(&pool, "borrowed", &Dec::ray(borrowed.clone()));
            w.put_dec(&pool, "supply_index", &Dec::ray(sidx.clone()));
            w.put_dec(&pool, "borrow_index", &Dec::ray(bidx.clone()));
            w.put_dec(&pool, "revenue", &Dec::ray(BigUint::zero()));
            w.vm.set_storage(&pool, b"last_timestamp".to_vec(), top_u64(now * 1000));
            let debt = rmul(&borrowed, &bidx);
            let val = rmul(&supplied, &sidx);
            let util = if val.is_zero() { BigUint::zero() } else { half_up(&(&debt * ray()), &val) };
            let mut view = |f: &'static str, o: &mut Outcome| -> Option<BigUint> {
                let r = w.vm.query(&pool, f, vec![]);
                o.steps += 1;
                if !r.ok {
                    o.viol.push(Viol { tags: c_(&[2, 25]), step: i, msg: format!("{f} refused: {}", r.msg) });
                    return None;
                }
                let d = Rd::new(&r.out[0]).dec();
                if d.s != 27 {
                    o.viol.push(Viol { tags: c(2), step: i, msg: format!("{f} answers at scale {}", d.s) });
                }
                Some(d.v)
            };
            let (gu, gr, gd) = match (view("capitalUtilisation", &mut o), view("borrowRate", &mut o), view("depositRate", &mut o)) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => return o,
            };
            let mut bad = |m: String| o.viol.push(Viol { tags: c(2), step: i, msg: format!("{m}; utilisation {util}, {p:?}") });
            if gu != util {
                bad(format!("utilisation {gu} expected {util}"));
            }
            // yearly rate as an exact fraction num/den, capped
            let (n, d) = if util < p.mid {
                (&p.base * &p.mid + &util * &p.s1, p.mid.clone())
            } else if util < p.opt {
                let span = &p.opt - &p.mid;
                ((&p.base + &p.s1) * &span + (&util - &p.mid) * &p.s2, span)
            } else {
                let span = ray() - &p.opt;
                ((&p.base + &p.s1 + &p.s2) * &span + (&util - &p.opt) * &p.s3, span)
            };
            let (n, d) = if n > &p.max * &d { (p.max.clone(), BigUint::one()) } else { (n, d) };
            let year = BigUint::from(31_556_926_000u64);
            let want = half_up(&n, &(&d * &year));
            let off = if gr > want { &gr - &want } else { &want - &gr };
            if off > BigUint::one() {
                bad(format!("borrow rate {gr} per ms, formula gives {want}"));
            }
            if gr > half_up(&p.max, &year) {
                bad(format!("borrow rate {gr} above the maximum"));
            }
            if gr < half_up(&p.base.clone().min(p.max.clone()), &year) {
                bad(format!("borrow rate {gr} below the base rate"));
            }
            if let Some((u0, r0)) = &last {
                let (lo, hi) = if *u0 <= util { (r0, &gr) } else { (&gr, r0) };
                if lo > hi {
                    bad(format!("borrow rate falls from {lo} to {hi} as utilisation grows (other point {u0})"));
                }
            }
            let wd = deposit_rate(&util, &gr, &p.reserve);
            if gd != wd {
                bad(format!("deposit rate {gd} expected {wd}"));
            }
            // exact: util * rate * (1 - share), within the two roundings
            let ex = &util * &gr * (BigUint::from(10_000u32) - &p.reserve) / (ray() * 10_000u32);
            let off = if gd > ex { &gd - &ex } else { &ex - &gd };
            if off > BigUint::from(2u32) {
                bad(format!("deposit rate {gd}, formula gives {ex}"));
            }
            if borrowed.is_zero() && !gd.is_zero() {
                bad("deposit rate without debt".into());
            }
            if util <= ray() && gd > gr {
                bad(format!("deposit rate {gd} above borrow rate {gr}"));
            }
            o.hit("curve point");
            if !util.is_zero() {
                o.hit("curve point with debt");
            }
            o.hit(if util < p.mid {
                "below middle"
            } else if util < p.opt {
                "middle to optimal"
            } else if util < ray() {
                "optimal to full"
            } else {
                "full or more"
            });
            if gr == half_up(&p.max, &year) {
                o.hit("rate at maximum");
            }
            if trace {
                o.trace.push(format!("utilisation {util} -> borrow {gr} deposit {gd}"));
            }
            last = Some((util, gr));
        }
        if !o.viol.is_empty() {
            break;
        }
        // growth over a time span
        let (_, rate) = last.unwrap();
        let dt = [1u64, 6, 60, 3600, 86_400, 2_592_000, 31_556_926, 157_784_630][(op.f[5] % 8) as usize] + (op.f[5] as u64 / 8) % 1000;
        w.vm.set_now(now + dt);
        let before: Pool = w.read_pool(t);
        let price = Enc::new().dec(&Dec::wad(wad())).done();
        let r = w.vm.call(&ctl, &pool, "updateIndexes", vec![price], &[]);
        o.steps += 1;
        if !r.ok {
            o.viol.push(Viol { tags: c_(&[2, 3]), step: i, msg: format!("updateIndexes refused: {} after {dt}s with {before:?}", r.msg) });
            break;
        }
        let after = w.read_pool(t);
        let mut want = before.clone();
        let _ = want.sync((now + dt) * 1000);
        if after != want {
            o.viol.push(Viol { tags: c_(&[2, 3]), step: i, msg: format!("after {dt}s: expected {want:?} got {after:?}") });
            break;
        }
        // the factor lies between the exact five-term sum and that sum plus rounding
        let ms = dt * 1000;
        let x = &rate * ms;
        let r1 = ray();
        let den = BigUint::from(120u32) * r1.pow(4);
        let num = &x * 120u32 * r1.pow(4) + x.pow(2) * 60u32 * r1.pow(3) + x.pow(3) * 20u32 * r1.pow(2) + x.pow(4) * 5u32 * &r1 + x.pow(5);
        let f = ray() + num / den;
        let wantidx = half_up(&(&before.bidx * &f), &r1);
        let off = if after.bidx > wantidx { &after.bidx - &wantidx } else { &wantidx - &after.bidx };
        // each rounding of a power is magnified by the later ones
        let slack = BigUint::from(20u32) + (&x / &r1 + 1u32).pow(4) * 8u32;
        if off > &slack * (&before.bidx / &r1 + 1u32) {
            o.viol.push(Viol { tags: c_(&[2, 3]), step: i, msg: format!("debt value after {dt}s: five-term sum gives {wantidx}, got {}", after.bidx) });
            break;
        }
        o.hit("growth checked");
        if after.bidx > before.bidx {
            o.hit("growth non-zero");
        }
    }
    o
}
