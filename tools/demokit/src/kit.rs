//! Short names for the steps a demonstration takes.
#![allow(dead_code)]
pub use crate::enc::*;
pub use crate::fx::*;
pub use crate::vm::*;
pub use crate::world::*;
pub use num_bigint::BigUint;
pub use num_traits::{One, Zero};

pub type TA = (usize, BigUint);

pub struct K {
    pub w: World,
    pub price: Vec<BigUint>,
}

#[derive(Clone)]
pub struct Cfg {
    pub ltv: u64,
    pub thr: u64,
    pub bonus: u64,
    pub fees: u64,
    pub isolated: bool,
    pub ceiling: BigUint,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: u64,
    pub coll: bool,
    pub borrow: bool,
    pub iso_borrow: bool,
    pub bcap: BigUint,
    pub scap: BigUint,
}
pub fn cfg() -> Cfg {
    Cfg {
        ltv: 7500,
        thr: 8000,
        bonus: 500,
        fees: 100,
        isolated: false,
        ceiling: BigUint::zero(),
        siloed: false,
        flash: true,
        flash_fee: 50,
        coll: true,
        borrow: true,
        iso_borrow: false,
        bcap: BigUint::zero(),
        scap: BigUint::zero(),
    }
}
pub fn tk(t: usize) -> Vec<u8> {
    tok(t).to_vec()
}
fn ntk(t: usize) -> Vec<u8> {
    if t == T_EGLD { b"EGLD-000000".to_vec() } else { tk(t) }
}
/// n tokens of a market, in its smallest unit
pub fn amt(t: usize, n: u64) -> BigUint {
    BigUint::from(n) * pow10(DECIMALS[t])
}
pub fn b(x: u128) -> BigUint {
    BigUint::from(x)
}
pub fn usd_ray(pct: u64) -> BigUint {
    BigUint::from(RAYU) * pct / 100u32
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
/// A step the demonstration relies on but does not judge.
pub fn need(r: &Res, what: &str) {
    if !r.ok {
        println!("BROKEN: setup step refused: {what}: {}", r.msg);
        std::process::exit(1);
    }
}
pub fn close(x: &BigUint, y: &BigUint, tol: u64) -> bool {
    let d = if x > y { x - y } else { y - x };
    d <= BigUint::from(tol)
}

impl K {
    pub fn new() -> K {
        let mut k = K { w: World::new(), price: vec![BigUint::from(WADU); NT] };
        k.feed();
        k
    }
    pub fn user(&self, u: usize) -> Addr {
        self.w.a.users[u].clone()
    }
    pub fn owner(&self) -> Addr {
        self.w.a.owner.clone()
    }
    pub fn ctl(&self) -> Addr {
        self.w.a.controller.clone()
    }
    /// Publishes every price, at all of its sources. 1 EGLD = 1 USD at first.
    pub fn feed(&mut self) {
        let a = self.w.a.clone();
        let now = self.w.vm.now();
        let p = self.price.clone();
        for t in 0..NT {
            if t != T_WEGLD {
                set_round(&mut self.w.vm, &a, &ticker(t), &p[t], now, 1);
            }
        }
        let vm = &mut self.w.vm;
        let e = &p[T_EGLD];
        let wad = BigUint::from(WADU);
        let r = |t: usize| &p[t] * &wad / e;
        vm.set_storage(&a.safeview, safe_rate_key(&a.pair_usdc, T_USDC), top_big(&(r(T_USDC) * pow10(12))));
        vm.set_storage(&a.safeview, safe_rate_key(&a.pair_utk, T_UTK), top_big(&r(T_UTK)));
        vm.set_storage(&a.safeview, safe_rate_key(&a.pair_mex, T_MEX), top_big(&r(T_MEX)));
        vm.set_storage(&a.safeview, safe_rate_key(&a.pair_wbtc, T_WBTC), top_big(&(r(T_WBTC) * pow10(10))));
        let x = &p[T_XOXNO] * pow10(6) / &p[T_USDC];
        vm.set_storage(&a.onedex, onedex_rate_key(T_XOXNO, T_USDC), top_big(&x));
        vm.set_storage(&a.xegld, b"rate".to_vec(), top_big(&r(T_XEGLD)));
        vm.set_storage(&a.legld, b"rate".to_vec(), top_big(&r(T_LEGLD)));
        let x = &p[T_LXOXNO] * &wad / &p[T_XOXNO];
        vm.set_storage(&a.lxoxno, b"rate".to_vec(), top_big(&x));
    }
    pub fn set_price(&mut self, t: usize, wad: BigUint) {
        self.price[t] = wad;
        self.feed();
    }
    /// Lets time pass and refreshes the feeds.
    pub fn later(&mut self, secs: u64) {
        let n = self.w.vm.now() + secs;
        self.w.vm.set_now(n);
        self.feed();
    }
    pub fn call(&mut self, from: &Addr, f: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> Res {
        let c = self.ctl();
        self.w.vm.call(from, &c, f, args, pays)
    }
    pub fn admin(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let o = self.owner();
        self.call(&o, f, args, &[])
    }
    pub fn edit(&mut self, t: usize, c: &Cfg) -> Res {
        let n = |x: u64| top_u64(x);
        self.admin(
            "editAssetConfig",
            vec![
                tk(t),
                n(c.ltv),
                n(c.thr),
                n(c.bonus),
                n(c.fees),
                top_bool(c.isolated),
                top_big(&c.ceiling),
                top_bool(c.siloed),
                top_bool(c.flash),
                n(c.flash_fee),
                top_bool(c.coll),
                top_bool(c.borrow),
                top_bool(c.iso_borrow),
                top_big(&c.bcap),
                top_big(&c.scap),
            ],
        )
    }
    /// max, base, slope1, slope2, slope3, mid and optimal utilisation in percent; reserve in bps
    pub fn params(&mut self, t: usize, pct: [u64; 7], reserve: u64) -> Res {
        let mut v = vec![tk(t)];
        v.extend(pct.iter().map(|p| top_big(&usd_ray(*p))));
        v.push(top_u64(reserve));
        self.admin("upgradeLiquidityPoolParams", v)
    }
    /// A call of the price aggregator by one of its oracles.
    pub fn agg(&mut self, oracle: usize, f: &str, args: Vec<Vec<u8>>) -> Res {
        let (o, a) = (self.w.a.oracles[oracle].clone(), self.w.a.aggregator.clone());
        self.w.vm.call(&o, &a, f, args, &[])
    }
    pub fn agg_admin(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let (o, a) = (self.owner(), self.w.a.aggregator.clone());
        self.w.vm.call(&o, &a, f, args, &[])
    }
    pub fn agg_view(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let a = self.w.a.aggregator.clone();
        self.w.vm.query(&a, f, args)
    }
    /// Opens a category with these limits (in bps) holding these assets as collateral and debt.
    pub fn category(&mut self, ltv: u64, thr: u64, bonus: u64, assets: &[usize]) -> Res {
        let r = self.admin("addEModeCategory", vec![top_u64(ltv), top_u64(thr), top_u64(bonus)]);
        need(&r, "addEModeCategory");
        for t in assets {
            let r = self.admin("addAssetToEModeCategory", vec![tk(*t), top_u64(1), top_bool(true), top_bool(true)]);
            need(&r, "addAssetToEModeCategory");
        }
        r
    }
    pub fn threshold_update(&mut self, t: usize, risks: bool, accounts: &[u64]) -> Res {
        let mut v = vec![tk(t), top_bool(risks)];
        v.extend(accounts.iter().map(|n| top_u64(*n)));
        self.admin("updateAccountThreshold", v)
    }
    /// Debt of all isolated accounts of this asset, in WAD dollars.
    pub fn isolated(&mut self, t: usize) -> BigUint {
        let r = self.view("getIsolatedAssetDebtUsd", vec![tk(t)]);
        need(&r, "getIsolatedAssetDebtUsd");
        Self::num(&r)
    }
    pub fn pay(&self, l: &[TA]) -> Vec<Pay> {
        l.iter().map(|(t, a)| Pay { token: tk(*t), nonce: 0, amount: a.clone() }).collect()
    }
    pub fn key(&self, n: u64) -> Pay {
        Pay { token: ACCOUNT_TOKEN.as_bytes().to_vec(), nonce: n, amount: BigUint::one() }
    }
    fn list(l: &[TA]) -> Vec<Vec<u8>> {
        l.iter().map(|(t, a)| Enc::new().buf(&ntk(*t)).u64(0).big(a).done()).collect()
    }
    /// Opens an account and returns its number.
    pub fn open(&mut self, u: usize, l: &[TA]) -> u64 {
        let (f, p) = (self.user(u), self.pay(l));
        let r = self.call(&f, "supply", vec![], &p);
        need(&r, "supply");
        self.last_account()
    }
    pub fn open_emode(&mut self, u: usize, cat: u8, l: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.pay(l));
        self.call(&f, "supply", vec![vec![], top_u64(cat as u64)], &p)
    }
    pub fn last_account(&mut self) -> u64 {
        let c = self.ctl();
        let k = b"account_nonce".to_vec();
        let n = u64_of(&self.w.vm.storage(&c, &k));
        if n > 0 {
            return n;
        }
        // fall back to the number of tokens created so far
        (1..100).rev().find(|n| (0..NU).any(|u| self.has_key(u, *n))).unwrap_or(0)
    }
    pub fn has_key(&self, u: usize, n: u64) -> bool {
        let a = self.user(u);
        !self.w.vm.acc(&a).esdt.get_esdt_balance(ACCOUNT_TOKEN.as_bytes(), n).is_zero()
    }
    pub fn supply(&mut self, u: usize, n: u64, l: &[TA]) -> Res {
        let f = self.user(u);
        let mut p = vec![self.key(n)];
        p.extend(self.pay(l));
        self.call(&f, "supply", vec![], &p)
    }
    pub fn withdraw(&mut self, u: usize, n: u64, l: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.key(n));
        self.call(&f, "withdraw", Self::list(l), &[p])
    }
    pub fn borrow(&mut self, u: usize, n: u64, l: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.key(n));
        self.call(&f, "borrow", Self::list(l), &[p])
    }
    pub fn repay(&mut self, u: usize, n: u64, l: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.pay(l));
        self.call(&f, "repay", vec![top_u64(n)], &p)
    }
    pub fn liquidate(&mut self, u: usize, n: u64, l: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.pay(l));
        self.call(&f, "liquidate", vec![top_u64(n)], &p)
    }
    pub fn clean(&mut self, u: usize, n: u64) -> Res {
        let f = self.user(u);
        self.call(&f, "cleanBadDebt", vec![top_u64(n)], &[])
    }
    /// Arguments that make the router send these tokens to its caller.
    pub fn swap(l: &[TA]) -> Vec<u8> {
        let mut e = Enc::new();
        for (t, a) in l {
            e = e.buf(&tk(*t)).buf(&top_big(a));
        }
        e.done()
    }
    pub fn multiply(&mut self, u: usize, cat: u8, coll: usize, debt: usize, flash: &BigUint, mode: u8, pays: &[Pay], out: &[TA], first: Option<&[TA]>) -> Res {
        let f = self.user(u);
        let mut v = vec![
            top_u64(cat as u64),
            tk(coll),
            top_big(flash),
            tk(debt),
            top_u64(mode as u64),
            Self::swap(out),
        ];
        if let Some(x) = first {
            v.push(Self::swap(x));
        }
        self.call(&f, "multiply", v, pays)
    }
    pub fn swap_debt(&mut self, u: usize, n: u64, old: usize, new_amt: &BigUint, new: usize, out: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.key(n));
        self.call(&f, "swapDebt", vec![tk(old), top_big(new_amt), tk(new), Self::swap(out)], &[p])
    }
    pub fn swap_coll(&mut self, u: usize, n: u64, cur: usize, a: &BigUint, new: usize, out: &[TA]) -> Res {
        let (f, p) = (self.user(u), self.key(n));
        self.call(&f, "swapCollateral", vec![tk(cur), top_big(a), tk(new), Self::swap(out)], &[p])
    }
    pub fn repay_coll(&mut self, u: usize, n: u64, from: usize, a: &BigUint, to: usize, close: bool, out: Option<&[TA]>) -> Res {
        let (f, p) = (self.user(u), self.key(n));
        let mut v = vec![tk(from), top_big(a), tk(to), top_bool(close)];
        if let Some(x) = out {
            v.push(Self::swap(x));
        }
        self.call(&f, "repayDebtWithCollateral", v, &[p])
    }
    /// Flash loan to the well-behaved receiver, which sends back `back`.
    pub fn flash(&mut self, u: usize, t: usize, a: &BigUint, back: &[TA]) -> Res {
        let f = self.user(u);
        let c = self.ctl();
        let inner = Enc::new()
            .buf(&Self::list(back).concat())
            .buf(c.as_bytes())
            .buf(&[])
            .buf(&[])
            .buf(&[])
            .done();
        let r = self.w.a.receiver.to_vec();
        self.call(&f, "flashLoan", vec![tk(t), top_big(a), r, b"flash".to_vec(), inner], &[])
    }
    pub fn bal(&self, u: usize, t: usize) -> BigUint {
        let a = self.user(u);
        self.w.vm.balance(&a, tok(t))
    }
    pub fn cash(&self, t: usize) -> BigUint {
        let a = self.w.a.pools[t].clone();
        self.w.vm.balance(&a, tok(t))
    }
    pub fn view(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let c = self.ctl();
        self.w.vm.query(&c, f, args)
    }
    pub fn pool_view(&mut self, t: usize, f: &str) -> BigUint {
        let p = self.w.a.pools[t].clone();
        let r = self.w.vm.query(&p, f, vec![]);
        need(&r, f);
        Self::num(&r)
    }
    fn num(r: &Res) -> BigUint {
        let o = &r.out[0];
        if o.len() >= 8 && u32::from_be_bytes(o[..4].try_into().unwrap()) as usize == o.len() - 8 {
            return Rd::new(o).dec().v;
        }
        BigUint::from_bytes_be(o)
    }
    pub fn debt(&mut self, n: u64, t: usize) -> BigUint {
        let r = self.view("getBorrowAmountForToken", vec![top_u64(n), tk(t)]);
        if r.ok { Self::num(&r) } else { BigUint::zero() }
    }
    pub fn deposit(&mut self, n: u64, t: usize) -> BigUint {
        let r = self.view("getCollateralAmountForToken", vec![top_u64(n), tk(t)]);
        if r.ok { Self::num(&r) } else { BigUint::zero() }
    }
    pub fn hf(&mut self, n: u64) -> BigUint {
        let r = self.view("getHealthFactor", vec![top_u64(n)]);
        need(&r, "getHealthFactor");
        Self::num(&r)
    }
}
