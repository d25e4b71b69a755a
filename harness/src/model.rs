//! Reference model: what every operation must do, written against the
//! documented behaviour on plain big integers, independent of the contracts.
use crate::fx::*;
use crate::snap::*;
use crate::vm::Addr;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const fn c(n: u32) -> u32 {
    1 << n
}
pub const OP: u32 = 0; // replaced by the operation's own tags

#[derive(Clone, Debug)]
pub struct Rej {
    pub tags: u32,
    pub why: &'static str,
    /// the outcome is not specified; either is accepted
    pub maybe: bool,
}
pub type R<T> = Result<T, Rej>;
pub fn rej<T>(tags: u32, why: &'static str) -> R<T> {
    Err(Rej { tags, why, maybe: false })
}
pub fn maybe<T>(why: &'static str) -> R<T> {
    Err(Rej { tags: 0, why, maybe: true })
}
fn req(cond: bool, tags: u32, why: &'static str) -> R<()> {
    if cond {
        Ok(())
    } else {
        rej(tags, why)
    }
}
fn some<T>(o: Option<T>, tags: u32, why: &'static str) -> R<T> {
    match o {
        Some(v) => Ok(v),
        None => rej(tags, why),
    }
}

// Token kinds beyond the twelve markets.
pub const TK_JUNK: usize = 12;
pub const TK_FAKE: usize = 13;
pub const TK_ACC: usize = 14;

#[derive(Clone, Debug)]
pub struct PayI {
    pub t: usize,
    pub nonce: u64,
    pub amt: BigUint,
}
pub type TA = (usize, BigUint);

#[derive(Clone, Debug)]
pub enum Call {
    Supply { nonce: Option<u64>, emode: Option<u8> },
    Withdraw(Vec<TA>),
    Borrow(Vec<TA>),
    Repay(u64),
    Liquidate(u64),
    Flash { t: usize, amt: BigUint, to: usize, func: String, repay: Vec<TA>, nested: Option<Box<Tx>> },
    UpdThr { t: usize, risks: bool, accts: Vec<u64> },
    UpdIdx(Vec<usize>),
    Clean(u64),
    Claim(Vec<usize>),
    Rewards,
    Multiply {
        emode: u8,
        coll: usize,
        amt: BigUint,
        debt: usize,
        mode: u8,
        steps: Vec<TA>,
        opt: Option<Vec<TA>>,
    },
    SwapDebt { existing: usize, amt: BigUint, new: usize, steps: Vec<TA> },
    SwapColl { cur: usize, amt: BigUint, new: usize, steps: Vec<TA> },
    RepayColl { from: usize, amt: BigUint, to: usize, close: bool, steps: Option<Vec<TA>> },
    // owner
    EditAsset { t: usize, cfg: AssetCfg },
    Limits(u8, u8),
    AddCat(Cat),
    EditCat(u8, Cat),
    RemCat(u8),
    AddAssetCat { t: usize, id: u8, coll: bool, borrow: bool },
    EditAssetCat { t: usize, id: u8, coll: bool, borrow: bool },
    RemAssetCat { t: usize, id: u8 },
    Tol { t: usize, first: u64, last: u64 },
    SetOracle { t: usize, o: Oracle, first: u64, last: u64 },
    SetAddr { which: u8, to: Option<Addr> },
    UpdParams { t: usize, p: Params },
    CreatePool { t: usize, p: Params, cfg: AssetCfg },
    Pause(bool),
    /// upgradeLiquidityPool
    UpgradePool(usize),
    /// the controller itself upgraded by its owner
    UpgradeCtl,
    /// direct call of a market contract's privileged endpoint
    PoolDirect { t: usize, func: &'static str, args: Vec<Vec<u8>> },
    /// privileged endpoints whose effect is not modelled; must be refused
    Denied { func: &'static str, args: Vec<Vec<u8>> },
}
#[derive(Clone, Debug)]
pub struct Tx {
    pub caller: usize,
    pub call: Call,
    pub pays: Vec<PayI>,
}

impl Call {
    /// Properties the operation mainly belongs to.
    pub fn primary(&self) -> u32 {
        use Call::*;
        match self {
            Supply { .. } => c(6),
            Withdraw(_) => c(6) | c(9),
            Borrow(_) => c(7),
            Repay(_) => c(7),
            Liquidate(_) => c(10) | c(11),
            Flash { .. } => c(17),
            UpdThr { .. } => c(24),
            UpdIdx(_) => c(3),
            Clean(_) => c(12),
            Claim(_) | Rewards => c(23),
            Multiply { .. } | SwapDebt { .. } | SwapColl { .. } | RepayColl { .. } => c(22),
            PoolDirect { .. } | Denied { .. } | Pause(_) | UpgradePool(_) | UpgradeCtl => c(20),
            AddCat(_) | EditCat(..) | RemCat(_) | AddAssetCat { .. } | EditAssetCat { .. }
            | RemAssetCat { .. } => c(24) | c(14),
            _ => c(24),
        }
    }
    pub fn name(&self) -> &'static str {
        use Call::*;
        match self {
            Supply { .. } => "supply",
            Withdraw(_) => "withdraw",
            Borrow(_) => "borrow",
            Repay(_) => "repay",
            Liquidate(_) => "liquidate",
            Flash { .. } => "flashLoan",
            UpdThr { .. } => "updateAccountThreshold",
            UpdIdx(_) => "updateIndexes",
            Clean(_) => "cleanBadDebt",
            Claim(_) => "claimRevenue",
            Rewards => "addRewards",
            Multiply { .. } => "multiply",
            SwapDebt { .. } => "swapDebt",
            SwapColl { .. } => "swapCollateral",
            RepayColl { .. } => "repayDebtWithCollateral",
            EditAsset { .. } => "editAssetConfig",
            Limits(..) => "setPositionLimits",
            AddCat(_) => "addEModeCategory",
            EditCat(..) => "editEModeCategory",
            RemCat(_) => "removeEModeCategory",
            AddAssetCat { .. } => "addAssetToEModeCategory",
            EditAssetCat { .. } => "editAssetInEModeCategory",
            RemAssetCat { .. } => "removeAssetFromEModeCategory",
            Tol { .. } => "editTokenOracleTolerance",
            SetOracle { .. } => "setTokenOracle",
            SetAddr { which, .. } => match which {
                0 => "setAggregator",
                1 => "setSwapRouter",
                2 => "setAccumulator",
                3 => "setSafePriceView",
                _ => "setLiquidityPoolTemplate",
            },
            UpdParams { .. } => "upgradeLiquidityPoolParams",
            CreatePool { .. } => "createLiquidityPool",
            Pause(true) => "pause",
            Pause(false) => "unpause",
            UpgradePool(_) => "upgradeLiquidityPool",
            UpgradeCtl => "upgradeContract",
            PoolDirect { func, .. } => func,
            Denied { func, .. } => func,
        }
    }
    pub fn owner_only(&self) -> bool {
        use Call::*;
        matches!(
            self,
            Rewards
                | EditAsset { .. }
                | Limits(..)
                | AddCat(_)
                | EditCat(..)
                | RemCat(_)
                | AddAssetCat { .. }
                | EditAssetCat { .. }
                | RemAssetCat { .. }
                | Tol { .. }
                | SetOracle { .. }
                | SetAddr { .. }
                | UpdParams { .. }
                | CreatePool { .. }
                | Pause(_)
                | UpgradePool(_)
        )
    }
    fn payable(&self) -> bool {
        use Call::*;
        matches!(
            self,
            Supply { .. }
                | Withdraw(_)
                | Borrow(_)
                | Repay(_)
                | Liquidate(_)
                | Rewards
                | Multiply { .. }
                | SwapDebt { .. }
                | SwapColl { .. }
                | RepayColl { .. }
        )
    }
}

pub fn ray() -> BigUint {
    pow10(27)
}
pub fn wad() -> BigUint {
    pow10(18)
}

// ---------------------------------------------------------------- rates ----

/// Per-millisecond borrow rate (RAY).
pub fn borrow_rate(util: &BigUint, p: &Params) -> BigUint {
    let annual = if *util < p.mid {
        &p.base + util * &p.s1 / &p.mid
    } else if *util < p.opt {
        &p.base + &p.s1 + (util - &p.mid) * &p.s2 / (&p.opt - &p.mid)
    } else {
        &p.base + &p.s1 + &p.s2 + (util - &p.opt) * &p.s3 / (ray() - &p.opt)
    };
    let annual = annual.min(p.max.clone());
    let year = bu(31_556_926_000);
    (annual * 2u32 + &year) / (year * 2u32)
}
pub fn deposit_rate(util: &BigUint, rate: &BigUint, reserve: &BigUint) -> BigUint {
    if util.is_zero() {
        return BigUint::zero();
    }
    let keep = Dec::new(bu(10_000) - reserve, 4);
    let a = mul(&Dec::ray(util.clone()), &Dec::ray(rate.clone()), RAY);
    mul(&a, &keep, RAY).v
}
pub fn growth(rate: &BigUint, ms: u64) -> BigUint {
    if ms == 0 {
        return ray();
    }
    let m = |a: &BigUint, b: &BigUint| mul(&Dec::ray(a.clone()), &Dec::ray(b.clone()), RAY).v;
    let x = rate * ms; // exact
    let x2 = m(&x, &x);
    let x3 = m(&x2, &x);
    let x4 = m(&x3, &x);
    let x5 = m(&x4, &x);
    let d = |a: &BigUint, n: u32| (a * 2u32 + BigUint::from(n)) / (2u32 * n);
    ray() + &x + d(&x2, 2) + d(&x3, 6) + d(&x4, 24) + d(&x5, 120)
}
pub fn rmul(a: &BigUint, b: &BigUint) -> BigUint {
    mul(&Dec::ray(a.clone()), &Dec::ray(b.clone()), RAY).v
}
pub fn rdiv(a: &BigUint, b: &BigUint) -> Option<BigUint> {
    div(&Dec::ray(a.clone()), &Dec::ray(b.clone()), RAY).map(|d| d.v)
}
/// Supply index after `rewards` (RAY value) are shared between suppliers.
pub fn grow_supply(supplied: &BigUint, sidx: &BigUint, rewards: &BigUint) -> Option<BigUint> {
    if supplied.is_zero() || rewards.is_zero() {
        return Some(sidx.clone());
    }
    Some(sidx + rewards * ray() / supplied)
}
/// (new borrow index, interest to suppliers, interest to protocol)
pub fn accrue(p: &Pool, util: &BigUint, ms: u64) -> (BigUint, BigUint, BigUint) {
    let f = growth(&borrow_rate(util, &p.p), ms);
    let nb = rmul(&p.bidx, &f);
    let interest = rmul(&p.borrowed, &nb) - rmul(&p.borrowed, &p.bidx);
    let fee = mul(&Dec::ray(interest.clone()), &Dec::new(p.p.reserve.clone(), 4), RAY).v;
    let rewards = interest - &fee;
    (nb, rewards, fee)
}
impl Pool {
    /// What is owed to the market over what it owes, by value; zero when it owes nothing.
    pub fn utilisation(&self) -> BigUint {
        let sv = rmul(&self.supplied, &self.sidx);
        rdiv(&rmul(&self.borrowed, &self.bidx), &sv).unwrap_or_default()
    }
    pub fn sync(&mut self, now_ms: u64) -> Option<()> {
        let ms = now_ms - self.last;
        if ms == 0 {
            return Some(());
        }
        let util = self.utilisation();
        let (nb, rewards, fee) = accrue(self, &util, ms);
        self.sidx = grow_supply(&self.supplied, &self.sidx, &rewards)?;
        self.bidx = nb;
        self.last = now_ms;
        self.mint_revenue(&Dec::ray(fee))
    }
    /// Indexes as of now, without recording.
    pub fn indexes(&self, now_ms: u64) -> Option<(BigUint, BigUint)> {
        let ms = now_ms - self.last;
        if ms == 0 {
            return Some((self.bidx.clone(), self.sidx.clone()));
        }
        let util = self.utilisation();
        let (nb, rewards, _) = accrue(self, &util, ms);
        Some((nb, grow_supply(&self.supplied, &self.sidx, &rewards)?))
    }
    pub fn mint_revenue(&mut self, amount: &Dec) -> Option<()> {
        if amount.is_zero() {
            return Some(());
        }
        let s = rdiv(&amount.at(27).v, &self.sidx)?;
        self.revenue += &s;
        self.supplied += &s;
        Some(())
    }
    pub fn dec(&self) -> u32 {
        self.p.decimals
    }
    /// value of scaled amount at index, in asset units
    pub fn units(&self, scaled: &BigUint, idx: &BigUint) -> BigUint {
        Dec::ray(rmul(scaled, idx)).round_to(self.dec()).v
    }
    pub fn amt(&self, a: &BigUint) -> Dec {
        Dec::new(a.clone(), self.dec())
    }
}
pub fn validate_params(p: &Params) -> R<()> {
    req(p.max > p.base, c(24), "max rate must exceed base rate")?;
    req(p.opt > p.mid, c(24), "optimal must exceed mid utilisation")?;
    req(p.opt < ray(), c(24), "optimal utilisation below one")?;
    req(p.reserve < bu(10_000), c(24), "reserve factor below one")
}
pub fn tolerance(first: u64, last: u64) -> R<Tol> {
    req((50..=5000).contains(&first), c(24), "first tolerance range")?;
    req((150..=10000).contains(&last), c(24), "last tolerance range")?;
    req(last >= first, c(24), "tolerance order")?;
    let band = |t: u64| {
        let up = BigUint::from(10_000 + t);
        let lo = div(&Dec::one(4), &Dec::new(up.clone(), 4), 4).unwrap().v;
        (up, lo)
    };
    let (fu, fl) = band(first);
    let (lu, ll) = band(last);
    Ok(Tol { fu, fl, lu, ll })
}

// ------------------------------------------------------------- liquidation -

#[derive(Clone, Debug, Default)]
pub struct Liq {
    pub seized: Vec<(usize, BigUint, BigUint)>, // token, amount, protocol fee
    pub repaid: Vec<(usize, BigUint, BigUint)>, // token, units, value (EGLD, RAY)
    pub refunds: Vec<TA>,
    pub max_debt: BigUint,
    pub bonus: BigUint,
    pub hf: BigUint,
    pub debt: BigUint,
    pub coll: BigUint,
    pub seize_value: BigUint,
}

pub fn bonus_ramp(hf: &BigUint, target: &BigUint, min: &BigUint) -> Option<BigUint> {
    let max = Dec::new(bu(1500), 4).at(27).v;
    if target < hf {
        return None;
    }
    let gap = rdiv(&(target - hf), target)?;
    let term = mul(&Dec::new(bu(20_000), 4), &Dec::ray(gap), RAY).v.min(ray());
    if *min > max {
        return None;
    }
    Some(min + rmul(&(max - min), &term))
}
pub fn hf_of(weighted: &BigUint, debt: &BigUint) -> BigUint {
    if debt.is_zero() {
        return ray() * 2u32;
    }
    rdiv(weighted, debt).unwrap()
}
struct LiqIn<'a> {
    total: &'a BigUint,
    weighted: &'a BigUint,
    prop: &'a BigUint,
    debt: &'a BigUint,
}
/// (debt to repay, health factor afterwards)
fn liq_target(i: &LiqIn, bonus: &BigUint, target: &BigUint) -> Option<(BigUint, BigUint)> {
    let one_plus = ray() + bonus;
    let d_max = rdiv(i.total, &one_plus)?;
    let denom_term = rmul(i.prop, &one_plus);
    let want = if *target == denom_term {
        d_max.clone()
    } else {
        let num = SDec::from(&Dec::ray(rmul(target, i.debt))).sub(&SDec::from(&Dec::ray(i.weighted.clone())));
        let den = SDec::from(&Dec::ray(target.clone())).sub(&SDec::from(&Dec::ray(denom_term)));
        let d = div_s(&num, &den, RAY)?;
        if d.is_neg() {
            d_max.clone()
        } else {
            d.abs().v.min(d_max.clone())
        }
    };
    let repay = want.min(i.debt.clone());
    let seized = rmul(&rmul(i.prop, &repay), &one_plus).min(i.weighted.clone());
    let left = if repay >= *i.debt { BigUint::zero() } else { i.debt - &repay };
    Some((repay.clone(), hf_of(&(i.weighted - seized), &left)))
}
/// (largest repayable debt, bonus)
fn liq_estimate(i: &LiqIn, min_bonus: &BigUint, hf: &BigUint) -> Option<(BigUint, BigUint)> {
    let t1 = ray() / 50u32 + ray();
    let b1 = bonus_ramp(hf, &t1, min_bonus)?;
    let (d1, h1) = liq_target(i, &b1, &t1)?;
    if h1 >= ray() {
        return Some((d1, b1));
    }
    let t2 = ray() / 100u32 + ray();
    let b2 = bonus_ramp(hf, &t2, min_bonus)?;
    let (d2, _) = liq_target(i, &b2, &t2)?;
    let (_, h3) = liq_target(i, min_bonus, &ray())?;
    if h3 < ray() && h3 < *hf {
        let full = rdiv(i.total, &(ray() + min_bonus))?;
        return Some((full.min(i.debt.clone()), min_bonus.clone()));
    }
    Some((d2, b2))
}

// ----------------------------------------------------------------- machine -

pub struct M<'a> {
    pub st: &'a mut St,
    pub w: &'a Addrs,
    px: HashMap<usize, (BigUint, u32)>,
    ix: HashMap<usize, (BigUint, BigUint)>,
    pub usd: BigUint,
    pub lax: bool, // out-of-band prices allowed
    pub caller: usize,
    pub notes: Vec<&'static str>,
}

pub struct Components {
    pub safe: Option<BigUint>,
    pub agg: Option<BigUint>,
    pub fin: BigUint,
    pub first: bool,
    pub second: bool,
}

impl<'a> M<'a> {
    pub fn open(st: &'a mut St, w: &'a Addrs, caller: usize) -> R<M<'a>> {
        let mut m = M {
            st,
            w,
            px: HashMap::new(),
            ix: HashMap::new(),
            usd: BigUint::zero(),
            lax: true,
            caller,
            notes: vec![],
        };
        let o = some(m.st.ctl.oracles[T_EGLD].clone(), c(18), "no EGLD oracle")?;
        m.usd = m.feed(b"EGLD", o.stale, false)?;
        Ok(m)
    }
    pub fn now_ms(&self) -> u64 {
        self.st.now * 1000
    }

    // ---- prices
    fn feed(&self, ticker: &[u8], stale: u64, lax: bool) -> R<BigUint> {
        req(self.st.ctl.aggregator == self.w.aggregator.to_vec(), c(18), "aggregator has no data")?;
        req(!self.st.ext.agg_paused, c(18), "aggregator paused")?;
        let (p, ts, _) = some(self.st.ext.rounds.get(ticker).cloned(), c(18), "no price round")?;
        req(lax || self.st.now - ts < stale, c(18), "stale price")?;
        Ok(p)
    }
    fn agg_price(&self, t: usize, stale: u64) -> R<BigUint> {
        let p = self.feed(&ticker(t), stale, self.lax)?;
        let d = some(div(&Dec::wad(p), &Dec::wad(self.usd.clone()), RAY), c(18), "zero EGLD price")?;
        Ok(d.round_to(WAD).v)
    }
    fn is_egld(t: usize) -> bool {
        t == T_EGLD || t == T_WEGLD
    }
    pub fn price(&mut self, t: usize) -> R<(BigUint, u32)> {
        if t >= NT {
            return rej(c(18), "no oracle for token");
        }
        if Self::is_egld(t) {
            return Ok((wad(), 18));
        }
        if let Some(p) = self.px.get(&t) {
            return Ok(p.clone());
        }
        let o = some(self.st.ctl.oracles[t].clone(), c(18), "no oracle for token")?;
        let p = match o.otype {
            1 => self.normal(&o, t)?.2,
            2 => self.derived(&o, true)?,
            3 => self.lp(&o)?.2,
            _ => return rej(c(18), "oracle type"),
        };
        self.px.insert(t, (p.clone(), o.decimals));
        Ok((p, o.decimals))
    }
    fn value_wad(amount: &Dec, price: &BigUint) -> BigUint {
        mul(amount, &Dec::wad(price.clone()), RAY).round_to(WAD).v
    }
    fn derived(&mut self, o: &Oracle, safe: bool) -> R<BigUint> {
        let rate = self.st.ext.staking.get(&o.contract.to_vec()).cloned();
        match o.source {
            3 | 4 => {
                let r = some(rate, c(18), "no rate")?;
                Ok(Dec::new(r, o.decimals).at(WAD).v)
            }
            2 => {
                let r = some(rate, c(18), "no rate")?;
                let base =
                    if safe { self.price(o.base)?.0 } else { self.agg_price(o.base, o.stale)? };
                Ok(Self::value_wad(&Dec::new(r, o.decimals), &base))
            }
            _ => rej(c(18), "derived source"),
        }
    }
    fn safe_price(&mut self, o: &Oracle, t: usize) -> R<BigUint> {
        let one = pow10(o.decimals);
        let (out, ot) = match o.source {
            5 => {
                req(self.st.ext.onedex_state == 1 || self.lax, c(18), "pair not active")?;
                let to = if t == o.quote { o.base } else { o.quote };
                let r = self.st.ext.onedex_rate.get(&(t, to)).cloned().unwrap_or_default();
                (one * r / wad(), to)
            }
            1 => {
                let s = self.st.ext.pairs.get(&o.contract.to_vec()).map(|p| p.state).unwrap_or(0);
                req(s == 1 || self.lax, c(18), "pair not active")?;
                req(self.st.ctl.safeview == self.w.safeview.to_vec(), c(18), "no safe price view")?;
                let k = (o.contract.to_vec(), t);
                let (r, ot) = some(self.st.ext.safe.get(&k).cloned(), c(18), "no rate")?;
                (one * r / wad(), ot)
            }
            _ => return rej(c(18), "exchange source"),
        };
        if Self::is_egld(ot) {
            return Ok(out);
        }
        let (p, d) = self.price(ot)?;
        Ok(Self::value_wad(&Dec::new(out, d), &p))
    }
    pub fn within(a: &BigUint, s: &BigUint, up: &BigUint, lo: &BigUint) -> R<bool> {
        let q = some(div(&Dec::wad(s.clone()), &Dec::wad(a.clone()), RAY), c(18), "zero price")?;
        let q = q.round_to(4).v;
        Ok(q <= *up && q >= *lo)
    }
    /// (aggregator, safe, final)
    fn normal(&mut self, o: &Oracle, t: usize) -> R<(Option<BigUint>, Option<BigUint>, BigUint)> {
        let agg = if o.method == 3 || o.method == 4 { Some(self.agg_price(t, o.stale)?) } else { None };
        let safe = if o.method == 1 || o.method == 4 { Some(self.safe_price(o, t)?) } else { None };
        let fin = match (&agg, &safe) {
            (Some(a), Some(s)) => {
                if Self::within(a, s, &o.tol.fu, &o.tol.fl)? {
                    s.clone()
                } else if Self::within(a, s, &o.tol.lu, &o.tol.ll)? {
                    (a + s) / 2u32
                } else {
                    req(self.lax, c(18), "prices deviate")?;
                    s.clone()
                }
            }
            (Some(a), None) => a.clone(),
            (None, Some(s)) => s.clone(),
            _ => return rej(c(18), "no price source"),
        };
        Ok((agg, safe, fin))
    }
    fn lp_value(o: &Oracle, r0: &Dec, r1: &Dec, total: &Dec, pa: &BigUint, pb: &BigUint) -> R<BigUint> {
        req(o.source == 1, c(18), "LP source")?;
        let z = "zero price in LP valuation";
        let (pa, pb) = (Dec::wad(pa.clone()), Dec::wad(pb.clone()));
        let k = mul(r0, r1, WAD);
        let side = |num: &Dec, den: &Dec| -> R<Dec> {
            let q = some(div(num, den, WAD), c(18), z)?;
            let inner = mul(&k, &q, WAD);
            Ok(Dec::new(inner.v.sqrt(), 9).at(WAD))
        };
        let x = side(&pb, &pa)?;
        let y = side(&pa, &pb)?;
        let v = mul(&x, &pa, WAD).add(&mul(&y, &pb, WAD));
        Ok(some(div(&v, &total.round_to(WAD), WAD), c(18), "empty LP")?.v)
    }
    /// (on-chain, off-chain, final, within first, within last)
    fn lp(&mut self, o: &Oracle) -> R<(BigUint, BigUint, BigUint, bool, bool)> {
        let p = some(self.st.ext.pairs.get(&o.contract.to_vec()).cloned(), c(18), "no pair")?;
        let (pa, da) = self.price(o.base)?;
        let (pb, db) = self.price(o.quote)?;
        let r0 = Dec::new(p.r0, da);
        let r1 = Dec::new(p.r1, db);
        let total = Dec::new(p.total, o.decimals);
        let safe = Self::lp_value(o, &r0, &r1, &total, &pa, &pb)?;
        let mut off = vec![];
        for t in [o.base, o.quote] {
            let canon = if Self::is_egld(t) { T_EGLD } else { t };
            let oc = some(self.st.ctl.oracles[canon].clone(), c(18), "no oracle")?;
            off.push(if oc.otype == 2 { self.derived(&oc, false)? } else { self.agg_price(t, oc.stale)? });
        }
        let offv = Self::lp_value(o, &r0, &r1, &total, &off[0], &off[1])?;
        let avg = (&safe + &offv) / 2u32;
        let first = Self::within(&safe, &offv, &o.tol.fu, &o.tol.fl)?;
        let last = Self::within(&safe, &offv, &o.tol.lu, &o.tol.ll)?;
        let fin = if first {
            safe.clone()
        } else {
            req(last || self.lax, c(18), "LP prices deviate")?;
            avg
        };
        Ok((safe, offv, fin, first, last))
    }
    pub fn components(&mut self, t: usize) -> R<Components> {
        if Self::is_egld(t) {
            return Ok(Components { safe: None, agg: None, fin: wad(), first: true, second: true });
        }
        let o = some(self.st.ctl.oracles[t].clone(), c(18), "no oracle")?;
        match o.otype {
            3 => {
                let (s, off, fin, first, second) = self.lp(&o)?;
                Ok(Components { safe: Some(s), agg: Some(off), fin, first, second })
            }
            1 => {
                let (a, s, fin) = self.normal(&o, t)?;
                let (mut first, mut second) = (true, true);
                if let (Some(a), Some(s)) = (&a, &s) {
                    first = Self::within(a, s, &o.tol.fu, &o.tol.fl)?;
                    second = Self::within(a, s, &o.tol.lu, &o.tol.ll)?;
                }
                Ok(Components { safe: s, agg: a, fin, first, second })
            }
            2 => {
                let fin = self.derived(&o, true)?;
                let (mut first, mut second) = (true, true);
                if o.source == 2 {
                    let b = self.components(o.base)?;
                    first = b.first;
                    second = b.second;
                }
                Ok(Components { safe: None, agg: None, fin, first, second })
            }
            _ => rej(c(18), "oracle type"),
        }
    }
    pub fn to_usd(&self, egld: &Dec) -> BigUint {
        Self::value_wad(egld, &self.usd)
    }

    // ---- indexes and values
    pub fn idx(&mut self, t: usize) -> R<(BigUint, BigUint)> {
        if let Some(i) = self.ix.get(&t) {
            return Ok(i.clone());
        }
        req(t < NT && self.st.ctl.pools[t].is_some(), OP, "no market")?;
        let now = self.now_ms();
        let i = some(self.st.pools[t].indexes(now), OP, "index arithmetic")?;
        self.ix.insert(t, i.clone());
        Ok(i)
    }
    fn amount_ray(&mut self, t: usize, scaled: &BigUint, dep: bool) -> R<BigUint> {
        let (b, s) = self.idx(t)?;
        Ok(rmul(scaled, if dep { &s } else { &b }))
    }
    pub fn amount_units(&mut self, t: usize, scaled: &BigUint, dep: bool) -> R<BigUint> {
        let (b, s) = self.idx(t)?;
        let d = self.price(t)?.1;
        Ok(Dec::ray(rmul(scaled, if dep { &s } else { &b })).round_to(d).v)
    }
    pub fn egld_ray(amount: &Dec, price: &BigUint) -> BigUint {
        mul(amount, &Dec::wad(price.clone()), RAY).v
    }
    /// (threshold weighted, total, ltv weighted)
    pub fn collateral(&mut self, dep: &BTreeMap<usize, Pos>) -> R<(BigUint, BigUint, BigUint)> {
        let (mut w, mut tot, mut l) = (BigUint::zero(), BigUint::zero(), BigUint::zero());
        for (t, p) in dep {
            let (px, _) = self.price(*t)?;
            let a = self.amount_ray(*t, &p.scaled, true)?;
            let v = Self::egld_ray(&Dec::ray(a), &px);
            w += mul(&Dec::ray(v.clone()), &Dec::new(p.thr.clone(), 4), RAY).v;
            l += mul(&Dec::ray(v.clone()), &Dec::new(p.ltv.clone(), 4), RAY).v;
            tot += v;
        }
        Ok((w, tot, l))
    }
    pub fn debt(&mut self, bor: &BTreeMap<usize, Pos>) -> R<BigUint> {
        let mut s = BigUint::zero();
        for (t, p) in bor {
            let (px, _) = self.price(*t)?;
            let a = self.amount_ray(*t, &p.scaled, false)?;
            s += Self::egld_ray(&Dec::ray(a), &px);
        }
        Ok(s)
    }
    pub fn health(&mut self, n: u64) -> R<BigUint> {
        let a = self.st.accounts.get(&n).cloned();
        let (dep, bor) = a.map(|a| (a.dep, a.bor)).unwrap_or_default();
        let (w, _, _) = self.collateral(&dep)?;
        let d = self.debt(&bor)?;
        Ok(hf_of(&w, &d))
    }
    fn check_healthy(&mut self, n: u64, min: BigUint, tag: u32) -> R<()> {
        let a = self.acct(n)?;
        if a.bor.is_empty() {
            return Ok(());
        }
        let hf = self.health(n)?;
        req(hf >= min, tag, "health factor too low")
    }

    // ---- plumbing
    fn acct(&self, n: u64) -> R<Acct> {
        some(self.st.accounts.get(&n).cloned(), c(21), "account not active")
    }
    fn acct_mut(&mut self, n: u64) -> &mut Acct {
        self.st.accounts.get_mut(&n).unwrap()
    }
    fn mv(&mut self, from: usize, to: usize, t: usize, amt: &BigUint) -> R<()> {
        if self.st.bal[from][t] < *amt {
            return rej(c(4), "insufficient balance");
        }
        self.st.bal[from][t] -= amt;
        self.st.bal[to][t] += amt;
        Ok(())
    }
    fn mv_nft(&mut self, n: u64, to: usize) {
        let e = self.st.nft.get_mut(&n).unwrap();
        e[0].0 = to;
    }
    fn supported(&self, t: usize) -> R<()> {
        req(t < NT && self.st.ctl.pools[t].is_some(), c(6) | c(7), "asset not supported")
    }
    fn cfg(&self, t: usize) -> R<AssetCfg> {
        if t >= NT {
            return rej(c(6) | c(7) | c(15), "asset has no configuration");
        }
        some(self.st.ctl.assets[t].clone(), c(6) | c(7) | c(15), "asset has no configuration")
    }
    fn valid_payment(&self, t: usize, a: &BigUint) -> R<()> {
        self.supported(t)?;
        req(!a.is_zero(), c(6) | c(7), "zero amount")
    }
    fn unpaused(&self) -> R<()> {
        req(!self.st.ctl.paused, c(20), "paused")
    }
    fn no_flash(&self) -> R<()> {
        req(!self.st.flash, c(17), "flash loan ongoing")
    }

    // ---- e-mode
    fn cat(&self, id: u8) -> R<Option<Cat>> {
        if id == 0 {
            return Ok(None);
        }
        let k = some(self.st.ctl.cats.get(&id).cloned(), c(14), "no such category")?;
        req(!k.deprecated, c(14), "category deprecated")?;
        Ok(Some(k))
    }
    fn emode_cfg(&self, id: u8, t: usize, cfg: &mut AssetCfg, cat: &Option<Cat>) -> R<()> {
        if id == 0 {
            return Ok(());
        }
        let ok = self.st.ctl.asset_emodes[t].contains(&id);
        let e = self.st.ctl.emode_assets.get(&id).and_then(|m| m.get(&t)).cloned();
        req(ok && e.is_some(), c(14), "asset not in category")?;
        req(!cfg.isolated, c(14), "isolated asset in e-mode")?;
        let (coll, borrow) = e.unwrap();
        let k = cat.as_ref().unwrap();
        cfg.coll = coll;
        cfg.borrow = borrow;
        cfg.ltv = k.ltv.clone();
        cfg.thr = k.thr.clone();
        cfg.bonus = k.bonus.clone();
        Ok(())
    }

    // ---- accounts
    fn new_account(&mut self, isolated: bool, mode: u8, emode: u8, token: usize) -> u64 {
        let n = self.st.account_nonce + 1;
        self.st.account_nonce = n;
        let attr = Attr {
            isolated,
            emode: if isolated { 0 } else { emode },
            mode,
            token: if isolated { Some(token) } else { None },
        };
        self.st.accounts.insert(
            n,
            Acct { attr: attr.clone(), dep: BTreeMap::new(), bor: BTreeMap::new() },
        );
        self.st.nft.insert(n, vec![(self.caller, BigUint::one(), Some(attr))]);
        n
    }
    /// The account token must come first; returns (account, remaining payments).
    fn account_payment(&mut self, pays: &[PayI], give_back: bool) -> R<Option<(u64, Vec<PayI>)>> {
        req(!pays.is_empty(), c(21), "no payment")?;
        if pays[0].t != TK_ACC {
            return Ok(None);
        }
        let n = pays[0].nonce;
        let a = self.acct(n)?;
        let on_token = self.st.nft.get(&n).and_then(|v| v[0].2.clone());
        req(on_token.as_ref() == Some(&a.attr), c(21), "attributes differ")?;
        if give_back {
            self.mv_nft(n, self.caller);
        }
        Ok(Some((n, pays[1..].to_vec())))
    }
    fn single_account(&mut self, pays: &[PayI], give_back: bool) -> R<u64> {
        req(pays.len() == 1, c(21), "exactly the account token must be sent")?;
        req(pays[0].t == TK_ACC, c(21), "not the account token")?;
        Ok(self.account_payment(pays, give_back)?.unwrap().0)
    }
    fn finish_account(&mut self, n: u64) -> R<()> {
        let a = self.acct(n)?;
        if a.dep.is_empty() && a.bor.is_empty() {
            self.st.nft.remove(&n);
            self.st.accounts.remove(&n);
        } else {
            self.mv_nft(n, self.caller);
        }
        Ok(())
    }

    // ---- market operations (money between the controller and a market)
    fn sync(&mut self, t: usize) -> R<()> {
        let now = self.now_ms();
        some(self.st.pools[t].sync(now), OP, "interest arithmetic")
    }
    fn cash(&self, t: usize) -> BigUint {
        self.st.bal[A_POOL0 + t][t].clone()
    }
    fn pool_supply(&mut self, t: usize, amt: &BigUint) -> R<BigUint> {
        self.sync(t)?;
        self.mv(A_CTRL, A_POOL0 + t, t, amt)?;
        let p = &mut self.st.pools[t];
        let s = some(rdiv(&p.amt(amt).at(27).v, &p.sidx), OP, "supply arithmetic")?;
        p.supplied += &s;
        Ok(s)
    }
    fn pool_debt(&mut self, t: usize, amt: &BigUint) -> R<BigUint> {
        self.sync(t)?;
        req(self.cash(t) >= *amt, c(4) | c(7), "not enough cash in the market")?;
        let p = &mut self.st.pools[t];
        let s = some(rdiv(&p.amt(amt).at(27).v, &p.bidx), OP, "borrow arithmetic")?;
        p.borrowed += &s;
        Ok(s)
    }
    /// returns (scaled removed, paid out)
    fn pool_withdraw(
        &mut self,
        t: usize,
        req_amt: &BigUint,
        scaled: &BigUint,
        fee: Option<&BigUint>,
        to: usize,
    ) -> R<(BigUint, BigUint)> {
        self.sync(t)?;
        let p = &mut self.st.pools[t];
        let cur = p.units(scaled, &p.sidx);
        let (s, mut net) = if *req_amt >= cur {
            (scaled.clone(), cur)
        } else {
            (some(rdiv(&p.amt(req_amt).at(27).v, &p.sidx), OP, "withdraw arithmetic")?, req_amt.clone())
        };
        if let Some(f) = fee {
            req(net >= *f, c(11) | c(10), "amount below liquidation fee")?;
            net -= f;
            let d = p.amt(f);
            some(p.mint_revenue(&d), OP, "fee arithmetic")?;
        }
        req(self.st.bal[A_POOL0 + t][t] >= net, c(4) | c(6), "not enough cash in the market")?;
        let p = &mut self.st.pools[t];
        req(p.supplied >= s && *scaled >= s, OP, "withdraw underflow")?;
        p.supplied -= &s;
        self.mv(A_POOL0 + t, to, t, &net)?;
        Ok((s, net))
    }
    /// money already in the controller; returns scaled debt removed
    fn pool_repay(&mut self, t: usize, amt: &BigUint, scaled: &BigUint) -> R<BigUint> {
        self.sync(t)?;
        self.mv(A_CTRL, A_POOL0 + t, t, amt)?;
        let p = &mut self.st.pools[t];
        let cur = p.units(scaled, &p.bidx);
        let (s, over) = if *amt >= cur {
            (scaled.clone(), amt - cur)
        } else {
            (some(rdiv(&p.amt(amt).at(27).v, &p.bidx), OP, "repay arithmetic")?, BigUint::zero())
        };
        req(p.borrowed >= s && *scaled >= s, OP, "repay underflow")?;
        p.borrowed -= &s;
        let who = self.caller;
        self.mv(A_POOL0 + t, who, t, &over)?;
        Ok(s)
    }

    // ---- steps shared by entry points
    fn count_limit(&self, n: u64, dep: bool, list: &[TA]) -> R<()> {
        let a = self.acct(n)?;
        let m = if dep { &a.dep } else { &a.bor };
        let max = if dep { self.st.ctl.max_supply } else { self.st.ctl.max_borrow } as usize;
        let new: Vec<usize> = list.iter().map(|x| x.0).filter(|t| !m.contains_key(t)).collect();
        let distinct: BTreeSet<usize> = new.iter().cloned().collect();
        req(m.len() + distinct.len() <= max, c(15), "position limit")?;
        if m.len() + new.len() > max {
            return maybe("a new asset named twice counts twice towards the limit");
        }
        Ok(())
    }
    fn deposit(&mut self, n: u64, list: &[TA]) -> R<()> {
        let attr = self.acct(n)?.attr;
        let cat = self.cat(attr.emode)?;
        self.count_limit(n, true, list)?;
        for (t, amt) in list {
            let t = *t;
            self.valid_payment(t, amt)?;
            let mut cfg = self.cfg(t)?;
            self.emode_cfg(attr.emode, t, &mut cfg, &cat)?;
            req(cfg.coll, c(15) | c(14), "not allowed as collateral")?;
            if attr.isolated {
                req(attr.token == Some(t), c(13), "isolated account takes one asset")?;
            } else {
                req(!cfg.isolated, c(13), "isolated asset in an ordinary account")?;
            }
            self.price(t)?;
            let s = self.pool_supply(t, amt)?;
            if let Some(cap) = &cfg.scap {
                // all the suppliers and the protocol own now, interest included
                let p = &self.st.pools[t];
                req(p.units(&p.supplied, &p.sidx) <= *cap, c(16), "supply cap")?;
            }
            let a = self.acct_mut(n);
            let pos = a.dep.entry(t).or_insert_with(|| Pos {
                scaled: BigUint::zero(),
                thr: cfg.thr.clone(),
                bonus: cfg.bonus.clone(),
                fees: cfg.fees.clone(),
                ltv: cfg.ltv.clone(),
            });
            pos.ltv = cfg.ltv.clone();
            pos.bonus = cfg.bonus.clone();
            pos.fees = cfg.fees.clone();
            pos.scaled += s;
        }
        Ok(())
    }
    /// returns what reached `to`
    fn withdraw_pos(
        &mut self,
        n: u64,
        t: usize,
        amt: &BigUint,
        fee: Option<&BigUint>,
        to: usize,
    ) -> R<BigUint> {
        let a = self.acct(n)?;
        let pos = some(a.dep.get(&t).cloned(), c(6), "no such deposit")?;
        self.price(t)?;
        self.idx(t)?;
        let (s, net) = self.pool_withdraw(t, amt, &pos.scaled, fee, to)?;
        let a = self.acct_mut(n);
        let p = a.dep.get_mut(&t).unwrap();
        p.scaled -= s;
        if p.scaled.is_zero() {
            a.dep.remove(&t);
        }
        Ok(net)
    }
    fn iso_add(&mut self, t: usize, usd: BigUint) {
        let d = &mut self.st.iso[t];
        d.v += Dec::wad(usd).at(d.s).v;
    }
    fn iso_sub(&mut self, t: usize, usd: BigUint) {
        if usd.is_zero() {
            return;
        }
        let d = &mut self.st.iso[t];
        let u = Dec::wad(usd);
        if d.gt(&u) {
            d.v -= u.at(d.s).v;
        } else {
            d.v = BigUint::zero();
        }
        if d.lt(&Dec::one(18)) {
            *d = Dec::zero(18);
        }
    }
    fn isolated_borrow(&mut self, attr: &Attr, t: usize, amt: &BigUint) -> R<()> {
        if !attr.isolated {
            return Ok(());
        }
        let (px, d) = self.price(t)?;
        let egld = Self::value_wad(&Dec::new(amt.clone(), d), &px);
        let usd = self.to_usd(&Dec::wad(egld));
        let it = attr.token.unwrap();
        let cfg = self.cfg(it)?;
        let tot = self.st.iso[it].add(&Dec::wad(usd.clone()));
        req(tot.le(&Dec::wad(cfg.ceiling)), c(13), "isolation debt ceiling")?;
        self.iso_add(it, usd);
        Ok(())
    }
    fn borrow_shape(&mut self, cfg: &AssetCfg, t: usize, attr: &Attr, bor: &BTreeMap<usize, Pos>) -> R<()> {
        if attr.isolated {
            req(cfg.iso_borrow, c(13), "not borrowable in isolation")?;
        }
        if cfg.siloed {
            req(bor.len() <= 1, c(15), "siloed asset next to other debts")?;
        }
        if bor.len() == 1 {
            let first = *bor.keys().next().unwrap();
            let f = self.cfg(first)?;
            if f.siloed || cfg.siloed {
                req(first == t, c(15), "siloed debt stands alone")?;
            }
        }
        Ok(())
    }
    fn borrow_cap(&mut self, cfg: &AssetCfg, t: usize, amt: &BigUint) -> R<()> {
        if let Some(cap) = &cfg.bcap {
            let (b, _) = self.idx(t)?;
            let p = &self.st.pools[t];
            let tot = p.units(&p.borrowed, &b);
            req(tot + amt <= *cap, c(16), "borrow cap")?;
        }
        Ok(())
    }
    fn add_debt(&mut self, n: u64, t: usize, s: BigUint, cfg: &AssetCfg) {
        let a = self.acct_mut(n);
        let pos = a.bor.entry(t).or_insert_with(|| Pos {
            scaled: BigUint::zero(),
            thr: cfg.thr.clone(),
            bonus: cfg.bonus.clone(),
            fees: cfg.fees.clone(),
            ltv: cfg.ltv.clone(),
        });
        pos.scaled += s;
    }
    /// Debt opened by a strategy; returns what reached the controller.
    fn strategy_debt(&mut self, n: u64, t: usize, amt: &BigUint) -> R<BigUint> {
        self.supported(t)?;
        let attr = self.acct(n)?.attr;
        let cat = self.cat(attr.emode)?;
        let mut cfg = self.cfg(t)?;
        self.emode_cfg(attr.emode, t, &mut cfg, &cat)?;
        req(cfg.borrow, c(15) | c(14), "not borrowable")?;
        let bor = self.acct(n)?.bor;
        self.price(t)?;
        self.borrow_cap(&cfg, t, amt)?;
        self.isolated_borrow(&attr, t, amt)?;
        let fee = amt * &cfg.flash_fee / bu(10_000);
        self.borrow_shape(&cfg, t, &attr, &bor)?;
        req(fee <= *amt, c(22), "fee above amount")?;
        let s = self.pool_debt(t, amt)?;
        let p = &mut self.st.pools[t];
        let d = p.amt(&fee);
        some(p.mint_revenue(&d), OP, "fee arithmetic")?;
        self.add_debt(n, t, s, &cfg);
        let got = amt - &fee;
        req(!got.is_zero(), c(22), "nothing borrowed")?;
        self.mv(A_POOL0 + t, A_CTRL, t, &got)?;
        Ok(got)
    }
    /// repay from the controller; value in EGLD for the isolation tracker
    fn repay_pos(&mut self, n: u64, t: usize, amt: &BigUint, egld: &Dec) -> R<()> {
        let a = self.acct(n)?;
        let pos = some(a.bor.get(&t).cloned(), c(7), "no such debt")?;
        let (px, _) = self.price(t)?;
        let cur = self.amount_ray(t, &pos.scaled, false)?;
        if a.attr.isolated {
            let v = Dec::ray(Self::egld_ray(&Dec::ray(cur), &px)).round_to(WAD);
            let applied = v.min(egld.clone());
            let usd = self.to_usd(&applied);
            self.iso_sub(a.attr.token.unwrap(), usd);
        }
        if amt.is_zero() {
            self.notes.push("zero repayment");
        }
        let s = self.pool_repay(t, amt, &pos.scaled)?;
        let a = self.acct_mut(n);
        let p = a.bor.get_mut(&t).unwrap();
        p.scaled -= s;
        if p.scaled.is_zero() {
            a.bor.remove(&t);
        }
        Ok(())
    }
    fn repay_list(&mut self, n: u64, list: &[TA]) -> R<()> {
        for (t, amt) in list {
            self.valid_payment(*t, amt)?;
            let (px, d) = self.price(*t)?;
            let egld = Self::value_wad(&Dec::new(amt.clone(), d), &px);
            self.repay_pos(n, *t, amt, &Dec::wad(egld))?;
        }
        Ok(())
    }
    /// Swap through the router; returns the wanted amount received.
    fn swap(&mut self, want: usize, from: usize, amt: &BigUint, outs: &[TA]) -> R<BigUint> {
        req(self.st.ctl.router == self.w.router.to_vec(), c(22), "router is not a router")?;
        if amt.is_zero() {
            return maybe("swap of nothing");
        }
        self.mv(A_CTRL, A_ROUTER, from, amt)?;
        let mut got = BigUint::zero();
        for (t, a) in outs {
            if a.is_zero() {
                return maybe("router sends nothing");
            }
            if *t >= NT {
                return rej(c(22), "router cannot pay");
            }
            let to = if *t == want { A_CTRL } else { self.caller };
            self.mv(A_ROUTER, to, *t, a)?;
            if *t == want {
                got += a;
            }
        }
        Ok(got)
    }
    fn convert(&mut self, want: usize, from: usize, amt: &BigUint, outs: &[TA]) -> R<BigUint> {
        if want == from {
            return Ok(amt.clone());
        }
        self.swap(want, from, amt, outs)
    }

    // ---- liquidation
    pub fn liquidation(&mut self, n: u64, pays: &[TA]) -> R<Liq> {
        let a = self.acct(n)?;
        let t10 = c(10);
        let mut q = Liq::default();
        let mut total_pay = BigUint::zero();
        // value of each debt still uncovered by earlier payments
        let mut left: HashMap<usize, BigUint> = HashMap::new();
        for (t, amt) in pays {
            let (px, d) = self.price(*t)?;
            let pos = some(a.bor.get(t).cloned(), t10, "payment in an asset without debt")?;
            let v = Self::egld_ray(&Dec::new(amt.clone(), d), &px);
            let due = match left.get(t) {
                Some(x) => x.clone(),
                None => {
                    let cur = self.amount_ray(*t, &pos.scaled, false)?;
                    Self::egld_ray(&Dec::ray(cur), &px)
                }
            };
            if v > due {
                if due.is_zero() && left.contains_key(t) {
                    q.refunds.push((*t, amt.clone()));
                    continue;
                }
                let ex = &v - &due;
                let ex_u = self.to_units(&ex, &px, d)?;
                let mut keep = amt.clone();
                if !ex_u.is_zero() {
                    req(keep >= ex_u, OP, "refund arithmetic")?;
                    keep -= &ex_u;
                    q.refunds.push((*t, ex_u));
                }
                total_pay += &due;
                q.repaid.push((*t, keep, due));
                left.insert(*t, BigUint::zero());
            } else {
                total_pay += &v;
                q.repaid.push((*t, amt.clone(), v.clone()));
                left.insert(*t, due - v);
            }
        }
        let (weighted, total, _) = self.collateral(&a.dep)?;
        let (mut prop, mut bonus) = (BigUint::zero(), BigUint::zero());
        for (t, p) in &a.dep {
            let (px, _) = self.price(*t)?;
            let amt = self.amount_ray(*t, &p.scaled, true)?;
            let v = Self::egld_ray(&Dec::ray(amt), &px);
            let share = some(rdiv(&v, &total), OP, "no collateral value")?;
            prop += mul(&Dec::ray(share.clone()), &Dec::new(p.thr.clone(), 4), RAY).v;
            bonus += mul(&Dec::ray(share), &Dec::new(p.bonus.clone(), 4), RAY).v;
        }
        // shares may add up to one plus a rounding unit, and settings may exceed the maximum
        let roof = Dec::new(bu(1500), 4).at(27).v;
        if bonus > roof {
            bonus = roof;
        }
        let debt = self.debt(&a.bor)?;
        q.hf = hf_of(&weighted, &debt);
        req(q.hf < ray(), t10, "account is healthy")?;
        let i = LiqIn { total: &total, weighted: &weighted, prop: &prop, debt: &debt };
        let (max, b) = some(liq_estimate(&i, &bonus, &q.hf), c(11), "liquidation arithmetic")?;
        q.max_debt = if total_pay.is_zero() { max } else { total_pay.clone().min(max) };
        q.bonus = b;
        let one_plus = ray() + &q.bonus;
        q.seize_value = rmul(&q.max_debt, &one_plus);
        for (t, p) in &a.dep {
            let (px, d) = self.price(*t)?;
            let have = self.amount_ray(*t, &p.scaled, true)?;
            let v = Self::egld_ray(&Dec::ray(have.clone()), &px);
            let share = some(rdiv(&v, &total), OP, "no collateral value")?;
            let take_v = rmul(&rmul(&share, &q.max_debt), &one_plus);
            let take = some(
                div(&Dec::ray(take_v), &Dec::wad(px.clone()), RAY),
                OP,
                "zero collateral price",
            )?;
            let take = take.v.min(have);
            let base = rdiv(&take, &one_plus).unwrap();
            let fee = mul(&Dec::ray(&take - base), &Dec::new(p.fees.clone(), 4), RAY);
            q.seized.push((*t, Dec::ray(take).round_to(d).v, fee.round_to(d).v));
        }
        if total_pay > q.max_debt {
            let mut ex = total_pay - &q.max_debt;
            let mut k = q.repaid.len();
            while k > 0 && !ex.is_zero() {
                k -= 1;
                let (t, amt, v) = q.repaid[k].clone();
                let (px, d) = self.price(t)?;
                if v >= ex {
                    let u = self.to_units(&ex, &px, d)?;
                    req(amt >= u, OP, "refund arithmetic")?;
                    q.refunds.push((t, u.clone()));
                    q.repaid[k] = (t, amt - u, v - &ex);
                    ex = BigUint::zero();
                } else {
                    q.refunds.push((t, amt));
                    q.repaid.remove(k);
                    ex -= v;
                }
            }
        }
        q.debt = debt;
        q.coll = total;
        Ok(q)
    }
    fn to_units(&self, egld: &BigUint, px: &BigUint, d: u32) -> R<BigUint> {
        let x = some(div(&Dec::ray(egld.clone()), &Dec::wad(px.clone()), RAY), OP, "zero price")?;
        Ok(x.round_to(d).v)
    }
}

fn ta(p: &[PayI]) -> Vec<TA> {
    p.iter().map(|x| (x.t, x.amt.clone())).collect()
}

/// Executes a transaction on the decoded state.
pub fn exec(st: &mut St, w: &Addrs, tx: &Tx) -> R<Vec<&'static str>> {
    let prim = tx.call.primary();
    run(st, w, tx).map_err(|mut e| {
        if e.tags == OP {
            e.tags = prim;
        }
        e
    })
}

fn pay_in(st: &mut St, tx: &Tx, to: usize) -> R<()> {
    for p in &tx.pays {
        match p.t {
            TK_JUNK | TK_FAKE => {}
            TK_ACC => {
                let own = st.nft.get(&p.nonce).map_or(false, |v| v[0].0 == tx.caller);
                req(own && p.amt.is_one(), c(21), "caller does not hold the account token")?;
                st.nft.get_mut(&p.nonce).unwrap()[0].0 = to;
            }
            t => {
                req(st.bal[tx.caller][t] >= p.amt, c(4), "caller cannot pay")?;
                st.bal[tx.caller][t] -= &p.amt;
                st.bal[to][t] += &p.amt;
            }
        }
    }
    Ok(())
}

fn run(st: &mut St, w: &Addrs, tx: &Tx) -> R<Vec<&'static str>> {
    use Call::*;
    if let PoolDirect { .. } = tx.call {
        // market contracts obey only the controller
        return rej(c(20), "market called by a stranger");
    }
    if let UpgradeCtl = tx.call {
        st.ctl.paused = true;
        return Ok(vec![]);
    }
    if let Denied { .. } = tx.call {
        return rej(c(20), "privileged operation by a stranger");
    }
    if !tx.pays.is_empty() && !tx.call.payable() {
        return rej(c(20) | tx.call.primary(), "not payable");
    }
    if tx.call.owner_only() {
        req(tx.caller == A_OWNER, c(20) | tx.call.primary(), "owner only")?;
        let guarded = config(st, w, tx)?;
        if guarded {
            return Ok(vec![]);
        }
    }
    pay_in(st, tx, A_CTRL)?;
    let paused = st.ctl.paused;
    let flash = st.flash;
    let mut m = M::open(st, w, tx.caller)?;
    if !matches!(tx.call, Claim(_) | Rewards | UpdParams { .. }) {
        req(!paused, c(20), "paused")?;
        req(!flash, c(17), "flash loan ongoing")?;
    }
    match &tx.call {
        Supply { nonce, emode } => {
            let (acct, rest) = match m.account_payment(&tx.pays, true)? {
                Some((n, rest)) => (Some(n), rest),
                None => match nonce {
                    None | Some(0) => (None, tx.pays.clone()),
                    Some(n) => {
                        m.acct(*n)?;
                        (Some(*n), tx.pays.clone())
                    }
                },
            };
            req(!rest.is_empty(), c(21) | c(6), "no collateral")?;
            let list = ta(&rest);
            m.valid_payment(list[0].0, &list[0].1)?;
            let first = m.cfg(list[0].0)?;
            if first.isolated {
                req(list.len() == 1, c(13), "isolated asset supplied with others")?;
            }
            let n = match acct {
                Some(n) => n,
                None => m.new_account(first.isolated, 1, emode.unwrap_or(0), list[0].0),
            };
            m.deposit(n, &list)?;
        }
        Withdraw(list) => {
            let n = m.single_account(&tx.pays, false)?;
            m.lax = m.acct(n)?.bor.is_empty();
            for (t, a) in list {
                m.valid_payment(*t, a)?;
                let to = m.caller;
                m.withdraw_pos(n, *t, a, None, to)?;
            }
            m.check_healthy(n, ray(), c(9))?;
            m.finish_account(n)?;
        }
        Borrow(list) => {
            m.lax = false;
            let n = m.single_account(&tx.pays, true)?;
            let a = m.acct(n)?;
            let (_, _, ltv) = m.collateral(&a.dep)?;
            let cat = m.cat(a.attr.emode)?;
            m.count_limit(n, false, list)?;
            for (t, amt) in list {
                let t = *t;
                m.valid_payment(t, amt)?;
                let mut cfg = m.cfg(t)?;
                let (px, d) = m.price(t)?;
                let bor = m.acct(n)?.bor;
                m.borrow_shape(&cfg, t, &a.attr, &bor)?;
                m.emode_cfg(a.attr.emode, t, &mut cfg, &cat)?;
                req(cfg.isolated == false || a.attr.emode == 0, c(14), "isolated asset in e-mode")?;
                req(cfg.borrow, c(15) | c(14), "not borrowable")?;
                let v = M::egld_ray(&Dec::new(amt.clone(), d), &px);
                let debt = m.debt(&bor)?;
                req(debt + v <= ltv, c(8), "beyond loan-to-value")?;
                m.borrow_cap(&cfg, t, amt)?;
                m.isolated_borrow(&a.attr, t, amt)?;
                let s = m.pool_debt(t, amt)?;
                let who = m.caller;
                m.mv(A_POOL0 + t, who, t, amt)?;
                m.add_debt(n, t, s, &cfg);
            }
        }
        Repay(n) => {
            m.acct(*n)?;
            for p in &tx.pays {
                m.supported(p.t)?;
            }
            m.repay_list(*n, &ta(&tx.pays))?;
        }
        Liquidate(n) => {
            m.lax = false;
            req(!tx.pays.is_empty(), c(10), "no payment")?;
            for p in &tx.pays {
                m.valid_payment(p.t, &p.amt)?;
            }
            let q = m.liquidation(*n, &ta(&tx.pays))?;
            let who = m.caller;
            for (t, a) in &q.refunds {
                m.mv(A_CTRL, who, *t, a)?;
                if a.is_zero() {
                    m.notes.push("zero refund");
                }
            }
            req(!q.repaid.is_empty(), c(10), "nothing to repay")?;
            for (t, a, v) in &q.repaid {
                m.repay_pos(*n, *t, a, &Dec::ray(v.clone()))?;
            }
            for (t, a, fee) in &q.seized {
                m.withdraw_pos(*n, *t, a, Some(fee), who)?;
            }
        }
        Clean(n) => {
            m.lax = false;
            let a = m.acct(*n)?;
            let (_, total, _) = m.collateral(&a.dep)?;
            let debt = m.debt(&a.bor)?;
            let (ud, uc) = (m.to_usd(&Dec::ray(debt)), m.to_usd(&Dec::ray(total)));
            req(ud > uc, c(12), "collateral covers the debt")?;
            req(uc <= wad() * 5u32, c(12), "collateral above five dollars")?;
            for (t, p) in &a.bor {
                let (px, _) = m.price(*t)?;
                if a.attr.isolated {
                    let v = m.amount_ray(*t, &p.scaled, false)?;
                    let usd = m.to_usd(&Dec::ray(M::egld_ray(&Dec::ray(v), &px)));
                    m.iso_sub(a.attr.token.unwrap(), usd);
                }
                m.sync(*t)?;
                let pool = &mut m.st.pools[*t];
                let bad = rmul(&p.scaled, &pool.bidx);
                let tot = rmul(&pool.supplied, &pool.sidx);
                if !tot.is_zero() {
                    let left = &tot - bad.min(tot.clone());
                    let f = rdiv(&left, &tot).unwrap();
                    pool.sidx = rmul(&pool.sidx, &f).max(BigUint::one());
                }
                req(pool.borrowed >= p.scaled, OP, "debt underflow")?;
                pool.borrowed -= &p.scaled;
            }
            for (t, p) in &a.dep {
                m.price(*t)?;
                m.sync(*t)?;
                m.st.pools[*t].revenue += &p.scaled;
            }
            m.st.accounts.remove(n);
        }
        UpdThr { t, risks, accts } => {
            m.supported(*t)?;
            m.lax = false;
            let base = m.cfg(*t)?;
            m.price(*t)?;
            for n in accts {
                let a = m.acct(*n)?;
                if !a.dep.contains_key(t) {
                    continue;
                }
                let cat = m.cat(a.attr.emode)?;
                let mut cfg = base.clone();
                if a.attr.emode != 0 {
                    let isolated = cfg.isolated;
                    cfg.isolated = false; // isolation is not re-examined here
                    m.emode_cfg(a.attr.emode, *t, &mut cfg, &cat)?;
                    cfg.isolated = isolated;
                }
                let p = m.acct_mut(*n).dep.get_mut(t).unwrap();
                if *risks {
                    p.thr = cfg.thr;
                    m.check_healthy(*n, ray() + ray() / 20u32, c(24))?;
                } else {
                    p.ltv = cfg.ltv;
                    p.bonus = cfg.bonus;
                    p.fees = cfg.fees;
                }
            }
        }
        UpdIdx(list) => {
            for t in list {
                req(*t < NT && m.st.ctl.pools[*t].is_some(), c(3), "no market")?;
                m.price(*t)?;
                m.sync(*t)?;
            }
        }
        Claim(list) => {
            for t in list {
                let t = *t;
                req(t < NT && m.st.ctl.pools[t].is_some(), c(23), "no market")?;
                m.price(t)?;
                m.sync(t)?;
                let cash = m.cash(t);
                let p = &mut m.st.pools[t];
                if p.revenue.is_zero() {
                    continue;
                }
                let due = p.units(&p.revenue, &p.sidx);
                let pay = cash.min(due.clone());
                if pay.is_zero() {
                    continue;
                }
                let burn = if pay >= due {
                    p.revenue.clone()
                } else {
                    let d = p.dec();
                    let r = div(&Dec::new(pay.clone(), d), &Dec::new(due, d), RAY).unwrap();
                    rmul(&p.revenue, &r.v)
                };
                let a = burn.clone().min(p.revenue.clone());
                let b = burn.min(p.supplied.clone());
                p.revenue -= a;
                p.supplied -= b;
                let acc = if m.st.ctl.accumulator == w.accumulator.to_vec() {
                    A_ACC
                } else if m.st.ctl.accumulator == w.accumulator2.to_vec() {
                    A_ACC2
                } else {
                    return rej(c(23), "accumulator cannot take deposits");
                };
                m.mv(A_POOL0 + t, acc, t, &pay)?;
            }
        }
        Rewards => {
            let (t, amt) = match tx.pays.len() {
                0 => (T_EGLD, BigUint::zero()),
                1 => (tx.pays[0].t, tx.pays[0].amt.clone()),
                _ => return rej(c(23), "one payment only"),
            };
            req(t < NT && m.st.ctl.pools[t].is_some(), c(23), "no market")?;
            m.price(t)?;
            m.sync(t)?;
            m.mv(A_CTRL, A_POOL0 + t, t, &amt)?;
            let p = &mut m.st.pools[t];
            let v = p.amt(&amt).at(27).v;
            p.sidx = some(grow_supply(&p.supplied, &p.sidx, &v), OP, "reward arithmetic")?;
        }
        Flash { t, amt, to, func, repay, nested } => {
            let t = *t;
            let cfg = m.cfg(t)?;
            req(cfg.flash, c(17), "flash loans not enabled")?;
            req(*to != A_RECVFAR, c(17), "other shard")?;
            req(!amt.is_zero(), c(17), "zero amount")?;
            const BUILTIN: [&str; 5] =
                ["ESDTTransfer", "ESDTNFTTransfer", "MultiESDTNFTTransfer", "ClaimDeveloperRewards", "SetUserName"];
            req(!func.is_empty() && !BUILTIN.contains(&func.as_str()), c(17), "endpoint not allowed")?;
            m.price(t)?;
            m.sync(t)?;
            req(m.cash(t) >= *amt, c(17) | c(4), "not enough cash")?;
            req(func == "flash" || func == "noop", c(17), "receiver has no such endpoint")?;
            let p = &m.st.pools[t];
            let due = mul(&p.amt(amt), &Dec::new(bu(10_000) + &cfg.flash_fee, 4), RAY).round_to(p.dec()).v;
            m.st.flash = true;
            m.mv(A_POOL0 + t, *to, t, amt)?;
            let mut back: Vec<TA> = vec![];
            if func == "flash" {
                if let Some(x) = nested {
                    exec(m.st, w, x).map_err(|mut e| {
                        e.tags |= c(17);
                        e
                    })?;
                }
                for (k, a) in repay {
                    req(*k < NT, c(17), "receiver cannot pay")?;
                    if a.is_zero() {
                        return maybe("zero repayment transfer");
                    }
                    m.mv(*to, A_POOL0 + t, *k, a)?;
                    back.push((*k, a.clone()));
                }
            }
            req(back.len() == 1 && back[0].0 == t && back[0].1 >= due, c(17), "loan not repaid")?;
            let p = &mut m.st.pools[t];
            let d = p.amt(&(&back[0].1 - amt));
            some(p.mint_revenue(&d), OP, "fee arithmetic")?;
            m.st.flash = false;
        }
        Multiply { emode, coll, amt, debt, mode, steps, opt } => {
            req(*mode <= 4, c(22), "no such mode")?;
            m.lax = false;
            req(coll != debt, c(22), "same asset")?;
            let acct = m.account_payment(&tx.pays, true)?;
            let ccfg = m.cfg(*coll)?;
            m.cfg(*debt)?;
            for t in [*coll, *debt] {
                let canon = if M::is_egld(t) { T_EGLD } else { t };
                req(m.st.ctl.oracles[canon].is_some(), c(18), "no oracle")?;
            }
            let mut supply = BigUint::zero();
            let mut to_swap = BigUint::zero();
            let n = match acct {
                Some((n, rest)) => {
                    req(rest.is_empty(), c(22), "extra payments")?;
                    n
                }
                None => {
                    let n = m.new_account(ccfg.isolated, *mode, *emode, *coll);
                    req(tx.pays.len() == 1, c(22), "one payment")?;
                    let (t, a) = (tx.pays[0].t, tx.pays[0].amt.clone());
                    m.valid_payment(t, &a)?;
                    if t == *coll {
                        supply = a;
                    } else if t == *debt {
                        to_swap = a;
                    } else {
                        let o = some(opt.clone(), c(22), "swap steps missing")?;
                        supply = m.convert(*coll, t, &a, &o)?;
                    }
                    n
                }
            };
            let md = m.acct(n)?.attr.mode;
            req((2..=4).contains(&md), c(22), "account is not leveraged")?;
            to_swap += m.strategy_debt(n, *debt, amt)?;
            let got = m.convert(*coll, *debt, &to_swap, steps)?;
            m.deposit(n, &[(*coll, got + supply)])?;
            m.check_healthy(n, ray(), c(9) | c(22))?;
            m.count_limit(n, false, &[])?;
        }
        SwapDebt { existing, amt, new, steps } => {
            m.lax = false;
            req(existing != new, c(22), "same debt")?;
            let (n, rest) = some(m.account_payment(&tx.pays, true)?, c(21), "account token required")?;
            let nc = m.cfg(*new)?;
            let ec = m.cfg(*existing)?;
            req(!nc.siloed && !ec.siloed, c(22) | c(15), "siloed debt cannot be swapped")?;
            let got = m.strategy_debt(n, *new, amt)?;
            let got = m.swap(*existing, *new, &got, steps)?;
            let mut list = ta(&rest);
            list.push((*existing, got));
            m.repay_list(n, &list)?;
            m.check_healthy(n, ray(), c(9) | c(22))?;
            m.count_limit(n, false, &[])?;
        }
        SwapColl { cur, amt, new, steps } => {
            req(cur != new, c(22), "same collateral")?;
            let (n, rest) = some(m.account_payment(&tx.pays, true)?, c(21), "account token required")?;
            let a = m.acct(n)?;
            m.lax = a.bor.is_empty();
            req(!a.attr.isolated, c(22) | c(13), "isolated account")?;
            let nc = m.cfg(*new)?;
            req(!nc.isolated, c(22) | c(13), "isolated asset")?;
            let got = m.withdraw_pos(n, *cur, amt, None, A_CTRL)?;
            let got = m.convert(*new, *cur, &got, steps)?;
            let mut list = ta(&rest);
            list.push((*new, got));
            m.deposit(n, &list)?;
            m.check_healthy(n, ray(), c(9) | c(22))?;
        }
        RepayColl { from, amt, to, close, steps } => {
            m.lax = false;
            let (n, rest) = some(m.account_payment(&tx.pays, false)?, c(21), "account token required")?;
            let got = m.withdraw_pos(n, *from, amt, None, A_CTRL)?;
            let got = m.convert(*to, *from, &got, steps.as_deref().unwrap_or(&[]))?;
            let mut list = ta(&rest);
            list.push((*to, got));
            m.repay_list(n, &list)?;
            m.check_healthy(n, ray(), c(9) | c(22))?;
            let a = m.acct(n)?;
            if *close && a.bor.is_empty() {
                for (t, p) in &a.dep {
                    let all = m.amount_units(*t, &p.scaled, true)?;
                    let who = m.caller;
                    m.withdraw_pos(n, *t, &all, None, who)?;
                }
            }
            m.finish_account(n)?;
        }
        UpdParams { t, p } => {
            req(*t < NT && m.st.ctl.pools[*t].is_some(), c(24), "no market")?;
            m.price(*t)?;
            m.sync(*t)?;
            let pool = &mut m.st.pools[*t];
            let (asset, decimals) = (pool.p.asset, pool.p.decimals);
            pool.p = Params { asset, decimals, ..p.clone() };
            validate_params(&pool.p)?;
        }
        _ => unreachable!(),
    }
    Ok(m.notes)
}

/// Owner configuration; Ok(true) when finished.
fn config(st: &mut St, w: &Addrs, tx: &Tx) -> R<bool> {
    use Call::*;
    let k = c(24);
    let now = st.now;
    let ctl = &mut st.ctl;
    let listed = |ctl: &Ctl, t: usize| t < NT && ctl.pools[t].is_some();
    match &tx.call {
        Rewards | UpdParams { .. } => return Ok(false),
        EditAsset { t, cfg } => {
            req(listed(ctl, *t), k, "asset not supported")?;
            let both = cfg.ltv.is_zero() && cfg.thr.is_zero();
            req(both || cfg.thr > cfg.ltv, k, "threshold below loan-to-value")?;
            let mut n = cfg.clone();
            n.emode = ctl.assets[*t].as_ref().unwrap().emode;
            n.bcap = n.bcap.filter(|v| !v.is_zero());
            n.scap = n.scap.filter(|v| !v.is_zero());
            ctl.assets[*t] = Some(n);
        }
        Limits(b, s) => {
            ctl.max_borrow = *b;
            ctl.max_supply = *s;
        }
        AddCat(cat) => {
            req(ctl.last_cat < 255, k, "category numbers exhausted")?;
            ctl.last_cat += 1;
            ctl.cats.insert(ctl.last_cat, Cat { deprecated: false, ..cat.clone() });
        }
        EditCat(id, cat) => {
            req(ctl.cats.contains_key(id), k, "no such category")?;
            ctl.cats.insert(*id, cat.clone());
        }
        RemCat(id) => {
            req(ctl.cats.contains_key(id), k, "no such category")?;
            let assets: Vec<usize> =
                ctl.emode_assets.get(id).map(|m| m.keys().cloned().collect()).unwrap_or_default();
            for t in assets {
                drop_emode(ctl, t, *id)?;
            }
            ctl.cats.get_mut(id).unwrap().deprecated = true;
        }
        AddAssetCat { t, id, coll, borrow } => {
            req(ctl.cats.contains_key(id), k, "no such category")?;
            req(listed(ctl, *t), k, "asset not supported")?;
            let there = ctl.emode_assets.get(id).map_or(false, |m| m.contains_key(t));
            req(!there && !ctl.asset_emodes[*t].contains(id), k, "already in category")?;
            ctl.assets[*t].as_mut().unwrap().emode = true;
            ctl.asset_emodes[*t].insert(*id);
            ctl.emode_assets.entry(*id).or_default().insert(*t, (*coll, *borrow));
        }
        EditAssetCat { t, id, coll, borrow } => {
            let m = ctl.emode_assets.get_mut(id);
            let e = m.and_then(|m| m.get_mut(t));
            match e {
                None => return rej(k, "asset not in category"),
                Some(e) => *e = (*coll, *borrow),
            }
        }
        RemAssetCat { t, id } => {
            req(listed(ctl, *t), k, "asset not supported")?;
            let there = ctl.emode_assets.get(id).map_or(false, |m| m.contains_key(t));
            req(there, k, "asset not in category")?;
            drop_emode(ctl, *t, *id)?;
        }
        Tol { t, first, last } => {
            req(*t < NT && ctl.oracles[*t].is_some(), k, "no oracle")?;
            let tol = tolerance(*first, *last)?;
            ctl.oracles[*t].as_mut().unwrap().tol = tol;
        }
        SetOracle { t, o, first, last } => {
            req(*t < NT && ctl.oracles[*t].is_none(), k, "oracle already set")?;
            req((1..=5).contains(&o.source), k, "unknown exchange source")?;
            if o.source == 5 {
                req(o.onedex > 0, k, "pair id missing")?;
            }
            let tol = tolerance(*first, *last)?;
            ctl.oracles[*t] = Some(Oracle { tol, ..o.clone() });
        }
        SetAddr { which, to } => {
            let a = some(to.clone(), k, "zero address")?;
            req(a.as_bytes()[..8] == [0u8; 8], k, "not a contract")?;
            let v = a.to_vec();
            match which {
                0 => ctl.aggregator = v,
                1 => ctl.router = v,
                2 => ctl.accumulator = v,
                3 => ctl.safeview = v,
                _ => ctl.template = v,
            }
        }
        CreatePool { t, p, cfg } => {
            req(*t < NT && ctl.pools[*t].is_none(), k, "asset already listed")?;
            let o = some(ctl.oracles[*t].clone(), k, "no oracle for asset")?;
            req(ctl.template == w.template.to_vec(), k, "template is not a market")?;
            validate_params(p)?;
            req(cfg.thr > cfg.ltv, k, "threshold below loan-to-value")?;
            let mut n = cfg.clone();
            n.emode = false;
            n.bcap = n.bcap.filter(|v| !v.is_zero());
            n.scap = n.scap.filter(|v| !v.is_zero());
            ctl.assets[*t] = Some(n);
            ctl.pools[*t] = Some(w.pools[*t].clone());
            st.iso[*t] = Dec::zero(p.decimals);
            st.pools[*t] = Pool {
                supplied: BigUint::zero(),
                borrowed: BigUint::zero(),
                revenue: BigUint::zero(),
                bidx: ray(),
                sidx: ray(),
                last: now * 1000,
                p: Params { asset: *t, decimals: o.decimals, ..p.clone() },
            };
        }
        Pause(v) => ctl.paused = *v,
        UpgradePool(t) => {
            req(listed(ctl, *t), c(20), "asset not supported")?;
            req(ctl.template == w.template.to_vec(), c(20), "no template")?;
        }
        _ => unreachable!(),
    }
    Ok(true)
}
fn drop_emode(ctl: &mut Ctl, t: usize, id: u8) -> R<()> {
    if let Some(m) = ctl.emode_assets.get_mut(&id) {
        m.remove(&t);
        if m.is_empty() {
            ctl.emode_assets.remove(&id);
        }
    }
    ctl.asset_emodes[t].remove(&id);
    if ctl.asset_emodes[t].is_empty() {
        ctl.assets[t].as_mut().unwrap().emode = false;
    }
    Ok(())
}
