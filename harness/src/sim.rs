//! A generated case: configuration genes and an operation list, run against
//! the real contracts with the reference model alongside.
use crate::enc::*;
use crate::fx::*;
use crate::model::*;
use crate::snap::*;
use crate::vm::*;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u8,
    pub f: [u32; 10],
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<Op>,
}

pub struct Genes<'a> {
    v: &'a [u32],
    i: usize,
}
impl<'a> Genes<'a> {
    pub fn new(v: &'a [u32]) -> Self {
        Genes { v, i: 0 }
    }
    pub fn next(&mut self) -> u32 {
        let x = self.v.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        x
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.next() % n.max(1)
    }
    /// true with the given percentage; zero genes mean false
    pub fn chance(&mut self, pct: u32) -> bool {
        (self.next() % 100) + pct >= 100
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + (self.next() as u64) % (hi - lo + 1)
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u32) as usize].clone()
    }
    /// about 10^x for x uniform in [lo, hi] (tenths), with random low digits
    pub fn log(&mut self, lo: u32, hi: u32) -> BigUint {
        log10(self.next(), lo, hi)
    }
}
/// 10^(x/10), x in lo..=hi tenths, multiplied by a factor in [1, 10^0.1)
pub fn log10(g: u32, lo: u32, hi: u32) -> BigUint {
    let n = hi - lo + 1;
    let x = lo + g % n;
    let frac = (g / n) % 1_000_003;
    let f = 10f64.powf((x % 10) as f64 / 10.0 + frac as f64 / 1.0e7);
    let m = BigUint::from((f * 1e15) as u64);
    let e = x / 10;
    if e >= 15 {
        m * pow10(e - 15) + if e > 15 { BigUint::from(frac) } else { BigUint::zero() }
    } else {
        (m / pow10(15 - e)).max(BigUint::one())
    }
}

#[derive(Clone)]
pub struct Env {
    pub active: Vec<usize>,
    pub usd: BigUint,
    pub price: Vec<BigUint>,
    /// signed basis points applied to the aggregator feed / on-chain average
    pub skew_agg: Vec<i64>,
    pub skew_safe: Vec<i64>,
    /// age of the feed in seconds
    pub age: Vec<u64>,
    pub reserves: Vec<(BigUint, i64)>,
}

fn skewed(p: &BigUint, bps: i64) -> BigUint {
    let f = (1_000_000 + bps).max(0) as u64;
    p * f / 1_000_000u32
}

impl World {
    pub fn apply_prices(&mut self, e: &Env) {
        let a = self.a.clone();
        let now = self.vm.now();
        for t in 0..NT {
            if t == T_WEGLD {
                continue;
            }
            let usd = if t == T_EGLD { e.usd.clone() } else { &e.price[t] * &e.usd / wad() };
            let usd = skewed(&usd, e.skew_agg[t]);
            set_round(&mut self.vm, &a, &ticker(t), &usd, now.saturating_sub(e.age[t]), 1);
        }
        let sp = |t: usize| skewed(&e.price[t], e.skew_safe[t]);
        let set = |vm: &mut Vm, p: &Addr, k: &str, v: &BigUint| vm.set_storage(p, k.into(), top_big(v));
        let k = safe_rate_key(&a.pair_usdc, T_USDC);
        self.vm.set_storage(&a.safeview, k, top_big(&(sp(T_USDC) * pow10(12))));
        for (p, t) in [(&a.pair_utk, T_UTK), (&a.pair_mex, T_MEX)] {
            let k = safe_rate_key(p, t);
            self.vm.set_storage(&a.safeview, k, top_big(&sp(t)));
        }
        let k = safe_rate_key(&a.pair_wbtc, T_WBTC);
        self.vm.set_storage(&a.safeview, k, top_big(&(sp(T_WBTC) * pow10(10))));
        let r = sp(T_XOXNO) * pow10(6) / &e.price[T_USDC];
        self.vm.set_storage(&a.onedex, onedex_rate_key(T_XOXNO, T_USDC), top_big(&r));
        set(&mut self.vm, &a.xegld, "rate", &sp(T_XEGLD));
        set(&mut self.vm, &a.legld, "rate", &sp(T_LEGLD));
        let r = sp(T_LXOXNO) * wad() / &e.price[T_XOXNO];
        set(&mut self.vm, &a.lxoxno, "rate", &r);
        for (i, (p, t, x, y)) in [
            (&a.pair_usdc, T_LP, T_WEGLD, T_USDC),
            (&a.pair_lp2, T_LP2, T_LXOXNO, T_WEGLD),
        ]
        .into_iter()
        .enumerate()
        {
            let (r0, imb) = &e.reserves[i];
            let v0 = r0 * &e.price[x] / pow10(DECIMALS[x]);
            let r1 = skewed(&(&v0 * pow10(DECIMALS[y]) / &e.price[y]), *imb).max(BigUint::one());
            let v1 = &r1 * &e.price[y] / pow10(DECIMALS[y]);
            // fair value is twice the geometric mean
            let fair = (v0 * v1).sqrt() * 2u32;
            let total = (fair * wad() / &e.price[t]).max(BigUint::one());
            set(&mut self.vm, p, "r0", r0);
            set(&mut self.vm, p, "r1", &r1);
            set(&mut self.vm, p, "total", &total);
        }
    }
    pub fn put_cfg(&mut self, t: usize, c: &AssetCfg) {
        let a = self.a.controller.clone();
        self.vm.set_storage(&a, nested_key(b"asset_config", ntok(t)), c.enc());
    }
    pub fn put_params(&mut self, t: usize, p: &Params) {
        let a = self.a.pools[t].clone();
        self.vm.set_storage(&a, b"params".to_vec(), p.enc());
    }
    pub fn put_oracle(&mut self, t: usize, o: &Oracle) {
        let a = self.a.controller.clone();
        self.vm.set_storage(&a, nested_key(b"token_oracle", ntok(t)), o.enc());
    }
    pub fn put_dec(&mut self, a: &Addr, k: &str, d: &Dec) {
        self.vm.set_storage(a, k.into(), Enc::new().dec(d).done());
    }
}

// -------------------------------------------------------- configuration ----

pub fn gen_params(g: &mut Genes, t: usize) -> Params {
    let r = ray();
    let pct = |n: u64| &ray() * n / 10_000u32;
    let mid = pct(g.range(1, 8000));
    let opt = &mid + (r.clone() - &mid) * (g.range(1, 9990)) / 10_000u32;
    let base = pct(g.range(0, 300));
    let s1 = pct(g.range(0, 2000));
    let s2 = pct(g.range(0, 5000));
    let s3 = pct(g.range(0, 40000));
    let max = &base + pct(g.range(1, 30000));
    let reserve = bu([1000u128, 0, 1, 500, 2000, 5000, 9999, 3333][g.below(8) as usize]);
    Params { max, base, s1, s2, s3, mid, opt, reserve, asset: t, decimals: DECIMALS[t] }
}
pub fn cap_gene(g: &mut Genes, pct: u32, e: &Env, t: usize) -> Option<BigUint> {
    if g.chance(pct) {
        let v = g.log(180, 225);
        Some((v * pow10(DECIMALS[t]) / &e.price[t]).max(BigUint::one()))
    } else {
        let _ = g.next();
        None
    }
}
/// Bias of the configuration, per property.
#[derive(Clone, Debug)]
pub struct Bias {
    pub isolated: u32,
    pub siloed: u32,
    pub caps: u32,
    pub emode: u32,
    pub flags: u32, // chance of collateral/borrow flags being off
    pub tight: u32, // chance of small position limits
    pub oracles: u32,
    pub index: u32, // chance of non-unit starting indexes
    pub feeds: u32,
    pub unlist: u32,
    pub fees: u32,
    /// compare the views of accounts brought to health factor one
    pub exact_views: bool,
    /// fold the events of every transaction
    pub events: bool,
    /// which rules K_AIM changes, half of the time: (kind, variant)
    pub aim: &'static [(u32, u32)],
}
/// kinds of K_AIM
pub const AIM_CAT: u32 = 0;
pub const AIM_LIMIT: u32 = 4;
pub const AIM_ASSET: u32 = 6;
pub const AIM_PAUSE: u32 = 11;
pub const AIM_WORLD: u32 = 13;
pub const AIM_NFT: u32 = 14;
pub const AIM_OTHERS: u32 = 15;
pub const ANY: u32 = u32::MAX;
impl Default for Bias {
    fn default() -> Self {
        Bias {
            isolated: 12,
            siloed: 8,
            caps: 10,
            emode: 25,
            flags: 6,
            tight: 12,
            oracles: 10,
            index: 30,
            feeds: 10,
            unlist: 0,
            fees: 60,
            exact_views: false,
            events: false,
            aim: &[],
        }
    }
}
pub fn gen_cfg(g: &mut Genes, b: &Bias, e: &Env, t: usize) -> AssetCfg {
    let thr = [8000u64, 9000, 7000, 8500, 6000, 5000, 9500, 4000, 9900, 3000][g.below(10) as usize];
    let thr = thr + g.range(0, 99);
    let ltv = [thr * 9 / 10, thr - 1, thr / 2, thr * 95 / 100, 0, 1][g.below(6) as usize];
    let bonus = g.pick(&[500u128, 0, 1, 100, 1000, 1499, 1500, 1500, 733, 2000]);
    let fees = g.pick(&[100u128, 0, 1000, 5000, 10000, 1, 300]);
    // no margin at all: the repayment that restores the target is undefined
    let (thr, bonus) = if g.chance(4) { (10_000, 0) } else { (thr, bonus) };
    AssetCfg {
        ltv: bu(ltv as u128),
        thr: bu(thr as u128),
        bonus: bu(bonus),
        fees: bu(fees),
        coll: !g.chance(b.flags),
        borrow: !g.chance(b.flags),
        emode: false,
        isolated: g.chance(b.isolated),
        ceiling: if g.chance(70) { g.log(170, 245) } else { wad() * 1_000_000u32 },
        siloed: g.chance(b.siloed),
        flash: !g.chance(b.flags),
        flash_fee: bu(g.pick(&[50u128, 0, 1, 9, 500, 3000])),
        iso_borrow: !g.chance(40),
        bcap: cap_gene(g, b.caps, e, t),
        scap: cap_gene(g, b.caps, e, t),
    }
}
pub fn gen_price(g: &mut Genes, t: usize) -> BigUint {
    match t {
        T_EGLD | T_WEGLD => wad(),
        T_USDC => g.log(160, 180),       // 0.01 .. 1 EGLD
        T_WBTC => g.log(190, 220),
        T_XEGLD | T_LEGLD => g.log(180, 181),
        T_MEX | T_XOXNO | T_LXOXNO => g.log(130, 190),
        T_LP | T_LP2 => g.log(150, 210),
        _ => g.log(150, 200),
    }
}

pub const GENES: usize = 320;

impl World {
    /// Fresh case state. Returns the environment.
    pub fn setup(&mut self, cfg: &[u32], b: &Bias) -> Env {
        let base = self.base.clone();
        self.vm.restore(&base);
        let mut g = Genes::new(cfg);
        let a = self.a.clone();
        self.vm.set_now(START + g.range(0, 1_000_000));
        let mut e = Env {
            active: vec![],
            usd: g.log(180, 205),
            price: (0..NT).map(|_| wad()).collect(),
            skew_agg: vec![0; NT],
            skew_safe: vec![0; NT],
            age: vec![0; NT],
            reserves: vec![(pow10(22), 0), (pow10(22), 0)],
        };
        // a few histories use most markets at once
        let n = match g.below(96) {
            95 => NT,
            x @ 90..=94 => 7 + x as usize % 5,
            x => [3, 2, 4, 5, 3, 4][x as usize % 6],
        };
        let mut pool: Vec<usize> = (0..NT).collect();
        for i in 0..n {
            let k = g.below(pool.len() as u32) as usize;
            let _ = i;
            e.active.push(pool.remove(k));
        }
        for t in 0..NT {
            e.price[t] = gen_price(&mut g, t);
        }
        for i in 0..2 {
            e.reserves[i] = (g.log(200, 245), g.range(0, 3) as i64 * 250_000 - 250_000);
            if g.chance(60) {
                e.reserves[i].1 = 0;
            }
        }
        self.apply_prices(&e);
        // starting indexes, before anything is supplied
        let act = e.active.clone();
        for &t in &act {
            if g.chance(b.index) {
                let p = a.pools[t].clone();
                let f = 1_000_000 + g.range(0, 3_000_000);
                let s = if g.chance(20) { g.log(220, 270) } else { ray() * f / 1_000_000u32 + g.next() };
                let f = 1_000_000 + g.range(0, 5_000_000);
                let bi = ray() * f / 1_000_000u32 + g.next();
                self.put_dec(&p, "supply_index", &Dec::ray(s));
                self.put_dec(&p, "borrow_index", &Dec::ray(bi));
            }
        }
        // market contracts start at the current time
        for t in 0..NT {
            let p = a.pools[t].clone();
            let now = self.vm.now();
            self.vm.set_storage(&p, b"last_timestamp".to_vec(), top_u64(now * 1000));
        }
        // liquidity from the last user
        let mut pays = vec![];
        for &t in &act {
            if g.chance(85) {
                let v = g.log(190, 235);
                let amt = (v * pow10(DECIMALS[t]) / &e.price[t]).max(BigUint::one());
                pays.push(PayI { t, nonce: 0, amt });
            }
        }
        for l in pays.chunks(6) {
            let tx = Tx { caller: A_USER0 + NU - 1, call: Call::Supply { nonce: None, emode: None }, pays: l.to_vec() };
            let r = self.run_tx(&tx);
            if !r.ok {
                eprintln!("seed supply failed: {}", r.msg);
            }
        }
        for &t in &act {
            let c = gen_cfg(&mut g, b, &e, t);
            self.put_cfg(t, &c);
            if g.chance(70) {
                let p = gen_params(&mut g, t);
                self.put_params(t, &p);
            }
        }
        if g.chance(b.tight) {
            let v = vec![g.range(1, 3) as u8, g.range(1, 3) as u8];
            let ctl = a.controller.clone();
            self.vm.set_storage(&ctl, b"position_limits".to_vec(), v);
        }
        if g.chance(b.emode) {
            let n = g.range(1, 2) as u8;
            for id in 1..=n {
                let cat = gen_cat(&mut g);
                self.run_tx(&owner(Call::AddCat(cat)));
                for &t in &act {
                    if g.chance(65) {
                        let (coll, borrow) = (!g.chance(15), !g.chance(15));
                        self.run_tx(&owner(Call::AddAssetCat { t, id, coll, borrow }));
                    }
                }
            }
        }
        if g.chance(b.oracles) {
            for t in [T_USDC, T_UTK, T_WBTC, T_MEX, T_XOXNO] {
                let key = nested_key(b"token_oracle", ntok(t));
                let mut o = Oracle::dec(&self.vm.storage(&a.controller, &key));
                o.method = [4u8, 1, 3][g.below(3) as usize];
                if t == T_WBTC {
                    o.contract = a.pair_wbtc.clone();
                    o.base = T_WEGLD;
                    o.quote = T_WBTC;
                }
                let (f, l) = (g.range(50, 600), g.range(600, 3000));
                o.tol = tolerance(f, l).unwrap();
                o.stale = g.range(60, 1000);
                self.put_oracle(t, &o);
            }
            for t in [T_LP, T_LP2] {
                let key = nested_key(b"token_oracle", ntok(t));
                let v = self.vm.storage(&a.controller, &key);
                if v.is_empty() || !g.chance(60) {
                    continue;
                }
                let mut o = Oracle::dec(&v);
                let (f, l) = (g.range(50, 150), g.range(150, 400));
                o.tol = tolerance(f, l).unwrap();
                o.stale = g.range(60, 1000);
                self.put_oracle(t, &o);
            }
        }
        if b.unlist > 0 && !e.active.contains(&T_LP2) && g.chance(b.unlist) {
            // one market not listed yet, with or without an oracle
            let t = T_LP2;
            let ctl = a.controller.clone();
            for k in [&b"pools_map"[..], b"asset_config", b"isolated_asset_debt_usd"] {
                self.vm.set_storage(&ctl, nested_key(k, ntok(t)), vec![]);
            }
            if g.chance(60) {
                self.vm.set_storage(&ctl, nested_key(b"token_oracle", ntok(t)), vec![]);
            }
            let p = a.pools[t].clone();
            self.vm.state_mut().accounts.remove(&p);
        }
        e
    }
}
pub fn gen_cat(g: &mut Genes) -> Cat {
    let thr = g.range(5000, 9800);
    let ltv = thr - g.range(1, 2000);
    Cat { ltv: bu(ltv as u128), thr: bu(thr as u128), bonus: bu(g.range(0, 1600) as u128), deprecated: false }
}
fn c_reg(owner: bool) -> u32 {
    if owner {
        c(21)
    } else {
        c(20) | c(21)
    }
}
pub fn owner(call: Call) -> Tx {
    Tx { caller: A_OWNER, call, pays: vec![] }
}

// ------------------------------------------------------------ operations ---

pub const K_SUPPLY: u8 = 0;
pub const K_BORROW: u8 = 1;
pub const K_WITHDRAW: u8 = 2;
pub const K_REPAY: u8 = 3;
pub const K_LIQ: u8 = 4;
pub const K_CLEAN: u8 = 5;
pub const K_FLASH: u8 = 6;
pub const K_MULT: u8 = 7;
pub const K_SDEBT: u8 = 8;
pub const K_SCOLL: u8 = 9;
pub const K_RCOLL: u8 = 10;
pub const K_UPTHR: u8 = 11;
pub const K_UPIDX: u8 = 12;
pub const K_CLAIM: u8 = 13;
pub const K_REWARD: u8 = 14;
pub const K_TIME: u8 = 15;
pub const K_PRICE: u8 = 16;
pub const K_FEED: u8 = 17;
pub const K_EDIT: u8 = 18;
pub const K_LIMITS: u8 = 19;
pub const K_EMODE: u8 = 20;
pub const K_ORACLE: u8 = 21;
pub const K_PARAMS: u8 = 22;
pub const K_CREATE: u8 = 23;
pub const K_PAUSE: u8 = 24;
pub const K_STRANGER: u8 = 25;
pub const K_NFT: u8 = 26;
pub const K_CRASH: u8 = 27;
pub const K_BAD: u8 = 28;
pub const K_ROUND: u8 = 29; // supply and withdraw at once
pub const K_ADDR: u8 = 30;
pub const K_AIM: u8 = 31; // a legal call, the rules changed under it first
pub const K_WIPE: u8 = 32; // a whole market lent to one account that fails
pub const K_MOVE: u8 = 33; // a strategy whose swap moves a price
pub const NK: usize = 32;
pub const KIND_NAMES: [&str; NK] = [
    "supply", "borrow", "withdraw", "repay", "liquidate", "clean", "flash", "multiply", "swapDebt", "swapColl",
    "repayColl", "updThr", "updIdx", "claim", "rewards", "time", "price", "feed", "editAsset", "limits", "emode",
    "oracle", "params", "create", "pause", "stranger", "nft", "crash", "bad", "roundtrip", "setAddr", "aim",
];

pub enum Step {
    Tx(Tx),
    Txs(Vec<Tx>),
    /// a call by the borrower contract, which holds account n meanwhile
    Lend(Tx, u64, usize),
    World(String),
    None,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: u32,
    pub msg: String,
    pub step: usize,
}

pub struct Sim<'w> {
    pub w: &'w mut World,
    pub st: St,
    pub e: Env,
    pub bias: Bias,
    pub ev: BTreeMap<&'static str, u64>,
    pub viol: Vec<Viol>,
    pub steps: usize,
    /// history facts used by invariants
    pub dust: Vec<BigUint>,
    pub had_flash: bool,
    pub had_pause: bool,
    pub trace: Option<Vec<String>>,
    pub watch: u32, // property bits whose extra checks are on
    /// the account the generators are to use, whoever holds it
    force: Option<u64>,
}

impl<'w> Sim<'w> {
    pub fn new(w: &'w mut World, cfg: &[u32], bias: Bias, watch: u32) -> Self {
        let e = w.setup(cfg, &bias);
        let st = w.read();
        // rounding of the seeded state: claims above cash and loans by a hair
        let dust = (0..NT)
            .map(|t| {
                let p = &st.pools[t];
                let have = &st.bal[A_POOL0 + t][t] * pow10(27 - DECIMALS[t]) + rmul(&p.borrowed, &p.bidx);
                let owed = rmul(&p.supplied, &p.sidx);
                if owed > have { (owed - have).min(pow10(27 - DECIMALS[t]) + &p.sidx / ray() + 1u32) } else { BigUint::zero() }
            })
            .collect();
        Sim {
            w,
            st,
            e,
            bias,
            ev: BTreeMap::new(),
            viol: vec![],
            steps: 0,
            dust,
            had_flash: false,
            had_pause: false,
            trace: None,
            watch,
            force: None,
        }
    }
    pub fn hit(&mut self, k: &'static str) {
        *self.ev.entry(k).or_insert(0) += 1;
    }
    /// An outcome together with the operation it befell.
    pub fn hit2(&mut self, a: &'static str, b: &'static str) {
        thread_local! {
            static NAMES: std::cell::RefCell<std::collections::HashMap<(&'static str, &'static str), &'static str>> = Default::default();
        }
        let k = NAMES.with(|n| *n.borrow_mut().entry((a, b)).or_insert_with(|| Box::leak(format!("{a} > {b}").into_boxed_str())));
        self.hit(k);
    }
    pub fn flag(&mut self, tags: u32, msg: String) {
        let step = self.steps;
        self.viol.push(Viol { tags, msg, step });
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(s());
        }
    }

    // ---- helpers for resolving operations
    fn tk(&self, g: u32) -> usize {
        // mostly an active market, rarely any other
        if g % 40 == 39 {
            (g / 40) as usize % NT
        } else {
            self.e.active[(g / 40) as usize % self.e.active.len()]
        }
    }
    fn accounts(&self) -> Vec<u64> {
        self.st.accounts.keys().cloned().collect()
    }
    fn acct(&self, g: u32) -> Option<u64> {
        // prefer later accounts; the first one is the liquidity provider
        let v = self.accounts();
        if v.is_empty() {
            return None;
        }
        Some(v[v.len() - 1 - g as usize % v.len()])
    }
    /// Accounts of the kind the property is about, half of the time.
    fn prefer(&self, v: Vec<u64>, g: u32) -> Vec<u64> {
        if g & (1 << 29) == 0 {
            return v;
        }
        let (e, i) = (self.bias.emode >= 100, self.bias.isolated >= 50);
        let w: Vec<u64> = v
            .iter()
            .cloned()
            .filter(|n| {
                let a = &self.st.accounts[n].attr;
                e && a.emode != 0 || i && a.isolated
            })
            .collect();
        if w.is_empty() {
            v
        } else {
            w
        }
    }
    /// Half of the time, a market the rules of an account let it use.
    fn fit(&self, attr: Option<&Attr>, owed: &[usize], t: usize, g: u32, borrow: bool) -> usize {
        if g & (1 << 30) == 0 {
            return t;
        }
        let emode = attr.map_or(0, |a| a.emode);
        let iso = attr.map_or(false, |a| a.isolated);
        let fits = |t: usize| -> bool {
            let c = match &self.st.ctl.assets[t] {
                Some(c) => c,
                None => return false,
            };
            if emode != 0 {
                let m = self.st.ctl.emode_assets.get(&emode).and_then(|m| m.get(&t));
                if c.isolated || !m.map_or(false, |m| if borrow { m.1 } else { m.0 }) {
                    return false;
                }
            } else if !(if borrow { c.borrow } else { c.coll }) {
                return false;
            }
            if borrow {
                (!iso || c.iso_borrow) && (owed.iter().all(|o| *o == t) || !c.siloed)
            } else if iso {
                attr.and_then(|a| a.token) == Some(t)
            } else {
                true
            }
        };
        let v: Vec<usize> = self.e.active.iter().cloned().filter(|t| fits(*t)).collect();
        if v.is_empty() || v.contains(&t) {
            t
        } else {
            v[(g >> 11) as usize % v.len()]
        }
    }
    fn with_debt(&self, g: u32) -> Option<u64> {
        if self.force.is_some() {
            return self.force;
        }
        let v: Vec<u64> = self.st.accounts.iter().filter(|(_, a)| !a.bor.is_empty()).map(|x| *x.0).collect();
        if v.is_empty() || g % 16 == 15 {
            return self.acct(g / 16);
        }
        let v = self.prefer(v, g);
        Some(v[v.len() - 1 - (g / 16) as usize % v.len()])
    }
    fn with_coll(&self, g: u32) -> Option<u64> {
        if self.force.is_some() {
            return self.force;
        }
        let v: Vec<u64> = self
            .st
            .accounts
            .iter()
            .filter(|(n, a)| !a.dep.is_empty() && self.holder(**n).map_or(false, |h| h <= NU))
            .map(|x| *x.0)
            .collect();
        if v.is_empty() || g % 16 == 15 {
            return self.acct(g / 16);
        }
        let v = self.prefer(v, g);
        Some(v[v.len() - 1 - (g / 16) as usize % v.len()])
    }
    pub fn holder(&self, n: u64) -> Option<usize> {
        self.st.nft.get(&n).and_then(|v| v.first()).map(|x| x.0)
    }
    fn user(&self, g: u32) -> usize {
        A_USER0 + g as usize % NU
    }
    /// Caller for an operation on account n: its holder, rarely somebody else.
    fn caller(&self, n: u64, g: u32) -> usize {
        if self.force.is_some() {
            return A_RECV;
        }
        if g % 24 == 23 {
            return self.user(g / 24);
        }
        match self.holder(n) {
            Some(h) if h <= NU => h,
            _ => self.user(g / 24),
        }
    }
    /// Amount worth roughly 10^x EGLD.
    fn amount(&self, t: usize, g: u32) -> BigUint {
        if t >= NT {
            return bu(1 + (g % 1000) as u128);
        }
        match g % 20 {
            18 => bu((g / 20 % 1000) as u128),
            19 => log10(g / 20, 0, 260),
            _ => {
                let v = log10(g / 20, 160, 215);
                (v * pow10(DECIMALS[t]) / &self.e.price[t]).max(BigUint::one())
            }
        }
    }
    fn nft_pay(&self, n: u64) -> PayI {
        PayI { t: TK_ACC, nonce: n, amt: BigUint::one() }
    }
    /// First payment of an operation that needs the account token; sometimes wrong.
    fn acc_pays(&self, n: u64, g: u32, extra: u32) -> Vec<PayI> {
        match g % 40 {
            36 => vec![PayI { t: TK_FAKE, nonce: if g / 40 % 4 == 3 { 1 + (g as u64 / 160) % 3 } else { n }, amt: BigUint::one() }],
            37 => vec![],
            38 => vec![self.nft_pay(n), PayI { t: self.tk(extra), nonce: 0, amt: bu(1000) }],
            39 => vec![PayI { t: self.tk(extra), nonce: 0, amt: bu(1000) }],
            _ => vec![self.nft_pay(n)],
        }
    }
    pub fn accepts(&self, tx: &Tx) -> bool {
        let mut s = self.st.clone();
        exec(&mut s, &self.w.a, tx).is_ok()
    }
    /// Largest amount up to `hi` the model accepts (assuming monotonicity).
    pub fn frontier(&self, hi: &BigUint, f: &dyn Fn(&BigUint) -> Tx) -> Option<BigUint> {
        if !self.accepts(&f(&BigUint::one())) {
            return None;
        }
        let (mut lo, mut hi) = (BigUint::one(), hi + 1u32);
        let mut n = 0;
        while &hi - &lo > BigUint::one() && n < 140 {
            let mid = if n < 8 && lo.bits() + 2 < hi.bits() {
                // by magnitude first
                BigUint::one() << ((lo.bits() + hi.bits()) / 2)
            } else {
                (&lo + &hi) >> 1
            };
            if self.accepts(&f(&mid)) {
                lo = mid;
            } else {
                hi = mid;
            }
            n += 1;
        }
        Some(lo)
    }
    fn near(x: &BigUint, g: u32) -> BigUint {
        match g % 6 {
            0 => x.clone(),
            1 => x + 1u32,
            2 => {
                if x.is_zero() {
                    x.clone()
                } else {
                    x - 1u32
                }
            }
            3 => x + x / 1000u32 + 2u32,
            4 => x * (1 + (g / 6) % 999) / 1000u32,
            _ => x * (900 + (g / 6) % 100) / 1000u32,
        }
    }
    fn model<T>(&self, f: impl FnOnce(&mut M) -> R<T>) -> Option<T> {
        let mut s = self.st.clone();
        let mut m = M::open(&mut s, &self.w.a, A_USER0).ok()?;
        f(&mut m).ok()
    }
    pub fn hf(&self, n: u64) -> Option<BigUint> {
        self.model(|m| m.health(n))
    }
    fn units_of(&self, n: u64, t: usize, dep: bool) -> BigUint {
        let a = match self.st.accounts.get(&n) {
            Some(a) => a,
            None => return BigUint::zero(),
        };
        let p = if dep { a.dep.get(&t) } else { a.bor.get(&t) };
        match p {
            None => BigUint::zero(),
            Some(p) => self.model(|m| m.amount_units(t, &p.scaled, dep)).unwrap_or_default(),
        }
    }
    /// What a router returns for `amt` of `from`: fair value times a factor.
    fn quote(&self, from: usize, to: usize, amt: &BigUint, g: u32) -> BigUint {
        if from >= NT || to >= NT {
            return bu(1000);
        }
        let v = amt * &self.e.price[from] * pow10(DECIMALS[to]) / (&self.e.price[to] * pow10(DECIMALS[from]));
        let f = [1000u32, 995, 1010, 900, 500, 1100, 100, 2000][(g % 8) as usize];
        v * f / 1000u32
    }
    fn route(&self, from: usize, to: usize, amt: &BigUint, g: u32) -> Vec<TA> {
        let q = self.quote(from, to, amt, g);
        match (g / 8) % 16 {
            13 => vec![(to, q), (self.tk(g / 128), bu(1 + (g / 128 % 5000) as u128))],
            14 => vec![(from, amt.clone())],
            15 => vec![],
            11 => vec![(to, q), (self.tk(g / 128), bu(1 + (g / 128 % 5000) as u128)), (from, amt * (g / 128 % 100) / 100u32)],
            10 => vec![(from, amt / 2u32), (self.tk(g / 128), bu(7)), (to, &q / 2u32), (self.tk(g / 256), bu(9))],
            12 => vec![(to, &q / 2u32), (to, &q - &q / 2u32)],
            _ => vec![(to, q)],
        }
    }
    fn emode_choice(&self, g: u32) -> Option<u8> {
        let k: Vec<u8> = self.st.ctl.cats.keys().cloned().collect();
        match g % 8 {
            1 | 2 if self.bias.emode >= 100 && !k.is_empty() => Some(k[(g / 8) as usize % k.len()]),
            0 | 1 => None,
            2 => Some(0),
            7 => Some((g / 8 % 6) as u8),
            _ => {
                if k.is_empty() {
                    None
                } else {
                    Some(k[(g / 8) as usize % k.len()])
                }
            }
        }
    }

    /// Turns genes into a concrete step. Three times out of four a user
    /// operation the reference model would refuse is drawn again (from the same
    /// genes), so that histories go somewhere; the rest stay as they fell.
    pub fn resolve(&mut self, op: &Op) -> Step {
        let user = matches!(
            op.k,
            K_SUPPLY | K_BORROW | K_WITHDRAW | K_REPAY | K_LIQ | K_CLEAN | K_MULT | K_SDEBT | K_SCOLL | K_RCOLL
        );
        let ev = if user { Some(self.ev.clone()) } else { None };
        let mut s = self.resolve_once(op);
        if !user || (op.f[7] >> 24) % 4 == 3 {
            return s;
        }
        for i in 1..6u32 {
            match &s {
                Step::Tx(tx) if !self.accepts(tx) => {}
                Step::None => {}
                _ => break,
            }
            let mut o = op.clone();
            for (j, x) in o.f.iter_mut().enumerate() {
                *x = (*x ^ i.wrapping_mul(0x9E37_79B9).rotate_left(j as u32)).wrapping_mul(0x85EB_CA6B ^ (j as u32 * 2));
                *x ^= *x >> 15;
            }
            if let Some(e) = &ev {
                self.ev = e.clone();
            }
            s = self.resolve_once(&o);
        }
        s
    }
    fn resolve_once(&mut self, op: &Op) -> Step {
        let f = &op.f;
        match op.k {
            K_SUPPLY => Step::Tx(self.r_supply(f)),
            K_BORROW => self.r_borrow(f),
            K_WITHDRAW => self.r_withdraw(f),
            K_REPAY => self.r_repay(f),
            K_LIQ => self.r_liquidate(f),
            K_CLEAN => {
                if f[8] % 8 != 7 {
                    if let Some(s) = self.towards_unhealthy(f) {
                        return s;
                    }
                    let hopeless = self.st.accounts.iter().any(|(n, _)| {
                        let tx = Tx { caller: A_USER0, call: Call::Clean(*n), pays: vec![] };
                        self.accepts(&tx)
                    });
                    if !hopeless && f[8] % 8 < 5 {
                        return self.r_bad(f);
                    }
                }
                let n = match self.worst(f[0]) {
                    Some(n) => n,
                    None => return Step::None,
                };
                let n = if f[1] % 16 == 15 { n + (f[2] % 5) as u64 } else { n };
                Step::Tx(Tx { caller: self.user(f[3]), call: Call::Clean(n), pays: vec![] })
            }
            K_FLASH if (f[9] >> 28) % 4 == 3 => self.r_flash_owned(f),
            K_FLASH => Step::Tx(self.r_flash(f)),
            K_MULT => Step::Tx(self.r_multiply(f)),
            K_SDEBT => self.r_swap_debt(f),
            K_SCOLL => self.r_swap_coll(f),
            K_RCOLL => self.r_repay_coll(f),
            K_UPTHR => {
                let t = self.tk(f[0]);
                let mut l = vec![];
                for i in 0..(1 + f[1] % 3) as usize {
                    if let Some(n) = self.acct(f[2 + i]) {
                        l.push(n);
                    }
                }
                if f[5] % 16 == 15 {
                    l.push(self.st.account_nonce + (f[6] % 3) as u64);
                }
                Step::Tx(Tx {
                    caller: self.user(f[7]),
                    call: Call::UpdThr { t, risks: f[8] % 2 == 0, accts: l },
                    pays: vec![],
                })
            }
            K_UPIDX => {
                let mut l = vec![self.tk(f[0])];
                if f[1] % 2 == 1 {
                    l.push(self.tk(f[2]));
                }
                Step::Tx(Tx { caller: self.user(f[3]), call: Call::UpdIdx(l), pays: vec![] })
            }
            K_CLAIM => {
                let mut l = vec![self.tk(f[0])];
                if f[1] % 2 == 1 {
                    l.push(self.tk(f[2]));
                }
                Step::Tx(Tx { caller: self.user(f[3]), call: Call::Claim(l), pays: vec![] })
            }
            K_REWARD => {
                let t = self.tk(f[0]);
                let t = if f[1] % 32 == 31 { TK_JUNK } else { t };
                let amt = self.amount(t, f[2]);
                let mut pays = vec![PayI { t, nonce: 0, amt }];
                if f[3] % 32 == 31 {
                    pays.push(PayI { t: self.tk(f[4]), nonce: 0, amt: bu(5) });
                }
                let caller = if f[5] % 24 == 23 || t == TK_JUNK { self.user(f[6]) } else { A_OWNER };
                Step::Tx(Tx { caller, call: Call::Rewards, pays })
            }
            K_TIME => {
                let dt = match f[0] % 8 {
                    0 => 1 + (f[1] % 10) as u64,
                    7 => 6,
                    6 => (f[1] % 94_000_000) as u64,
                    _ => log10(f[1], 0, 75).to_u64().unwrap(),
                };
                let now = self.w.vm.now() + dt;
                self.w.vm.set_now(now);
                let e = self.e.clone();
                self.w.apply_prices(&e);
                Step::World(format!("time +{dt}s"))
            }
            K_PRICE => {
                let t = self.tk(f[0]);
                let p = self.e.price[t].clone();
                let x = [50u32, 80, 90, 97, 103, 110, 130, 200, 10, 1000][(f[1] % 10) as usize];
                if t != T_EGLD && t != T_WEGLD {
                    self.e.price[t] = (p * x / 100u32).max(pow10(9)).min(pow10(26));
                } else if f[2] % 2 == 0 {
                    self.e.usd = (&self.e.usd * x / 100u32).max(pow10(16)).min(pow10(23));
                }
                let e = self.e.clone();
                self.w.apply_prices(&e);
                Step::World(format!("price {} = {}", TOKENS[t], self.e.price[t]))
            }
            K_FEED => self.r_feed(f),
            K_EDIT => {
                let t = self.tk(f[0]);
                let mut c = match &self.st.ctl.assets[t] {
                    Some(c) => c.clone(),
                    None => return Step::None,
                };
                let genes: Vec<u32> = (0..24).map(|i| f[(i % 8) + 1].wrapping_mul(2654435761).rotate_left(i as u32 * 5)).collect();
                let n = gen_cfg(&mut Genes::new(&genes), &Bias { isolated: 25, siloed: 25, caps: 50, flags: 25, ..Default::default() }, &self.e, t);
                match f[1] % 8 {
                    0 => {
                        c.ltv = n.ltv;
                        c.thr = n.thr;
                    }
                    1 => {
                        c.bonus = n.bonus;
                        c.fees = n.fees;
                    }
                    2 => {
                        c.coll = n.coll;
                        c.borrow = n.borrow;
                        c.iso_borrow = n.iso_borrow;
                    }
                    3 => {
                        c.bcap = n.bcap;
                        c.scap = n.scap;
                        // the smallest cap there is
                        match f[9] % 12 {
                            0 => c.bcap = Some(bu(1)),
                            1 => c.scap = Some(bu(1)),
                            _ => {}
                        }
                    }
                    4 => {
                        c.isolated = n.isolated;
                        c.ceiling = n.ceiling;
                    }
                    5 => {
                        c.siloed = n.siloed;
                        c.flash = n.flash;
                        c.flash_fee = n.flash_fee;
                    }
                    6 => {
                        // often inconsistent
                        c.thr = bu((f[2] % 10001) as u128);
                        c.ltv = match f[3] % 4 {
                            0 => c.thr.clone(),
                            1 => &c.thr + 1u32,
                            2 => bu(0),
                            _ => bu((f[4] % 10001) as u128),
                        };
                        if f[5] % 4 == 0 {
                            c.thr = bu(0);
                            c.ltv = bu(0);
                        }
                    }
                    _ => c = n,
                }
                let t2 = if f[6] % 40 == 39 { TK_JUNK } else { t };
                Step::Tx(owner(Call::EditAsset { t: t2, cfg: c }))
            }
            K_LIMITS => Step::Tx(owner(Call::Limits((f[0] % 5) as u8 + 1, (f[1] % 5) as u8 + 1))),
            K_EMODE => Step::Tx(self.r_emode(f)),
            K_ORACLE => self.r_oracle(f),
            K_PARAMS => {
                let t = self.tk(f[0]);
                if f[9] % 8 == 6 && [vec![], self.w.a.template.to_vec()].contains(&self.st.ctl.template) {
                    return Step::Tx(owner(Call::UpgradePool(t)));
                }
                Step::Tx(owner(Call::UpdParams { t, p: self.g_params(f, t) }))
            }
            K_CREATE => {
                let t = if f[0] % 8 == 3 { self.tk(f[1]) } else { T_LP2 };
                if self.st.ctl.pools[t].is_some() && f[0] / 8 % 8 != 3 {
                    return self.resolve_once(&Op { k: K_EDIT, f: *f });
                }
                let p = self.g_params(f, t);
                let genes: Vec<u32> = (0..24).map(|i| f[(i % 8) + 1].wrapping_mul(2654435761).rotate_left(i as u32 * 5)).collect();
                let mut cfg = gen_cfg(&mut Genes::new(&genes), &Bias { isolated: 25, siloed: 25, caps: 50, flags: 25, ..Default::default() }, &self.e, t);
                match f[0] / 16 % 12 {
                    5 | 11 => cfg.ltv = &cfg.thr + (f[8] % 3),
                    4 => cfg.bcap = Some(bu(1)),
                    3 => cfg.scap = Some(bu(1)),
                    _ => {}
                }
                let create = owner(Call::CreatePool { t, p, cfg });
                if self.st.ctl.oracles[t].is_none() && f[1] % 4 != 3 {
                    let key = nested_key(b"token_oracle", ntok(t));
                    let was = self.w.base.accounts.get(&self.w.a.controller).and_then(|x| x.storage.get(&key)).cloned();
                    if let Some(v) = was {
                        return Step::Txs(vec![owner(Call::SetOracle { t, o: Oracle::dec(&v), first: 100, last: 300 }), create]);
                    }
                }
                Step::Tx(create)
            }
            K_PAUSE => {
                let p = !self.st.ctl.paused;
                match f[1] % 5 {
                    // with a wrong template in place this would replace the market's code
                    3 if [vec![], self.w.a.template.to_vec()].contains(&self.st.ctl.template) => Step::Tx(owner(Call::UpgradePool(if f[2] % 8 == 7 { f[3] as usize % NT } else { self.tk(f[3]) }))),
                    4 => {
                        let mut v = vec![owner(Call::UpgradeCtl)];
                        if f[2] % 2 == 0 {
                            v.push(owner(Call::Pause(false)));
                        }
                        Step::Txs(v)
                    }
                    _ => Step::Tx(owner(Call::Pause(if f[0] % 5 == 4 { !p } else { p }))),
                }
            }
            K_STRANGER => self.r_stranger(f),
            K_NFT => {
                // account tokens are freely transferable
                let n = match self.acct(f[0]) {
                    Some(n) => n,
                    None => return Step::None,
                };
                let (from, to) = match self.holder(n) {
                    Some(h) if h >= A_USER0 && h <= NU => (h, self.user(f[1])),
                    _ => return Step::None,
                };
                if from == to {
                    return Step::None;
                }
                let ok = self.send_account(n, from, to);
                Step::World(format!("account {n} sent from {from} to {to}: {ok}"))
            }
            K_CRASH => self.r_crash(f),
            K_BAD => self.r_bad(f),
            K_AIM => self.r_aim(f),
            K_WIPE => self.r_wipe(f),
            K_MOVE => self.r_move(f),
            K_ROUND => {
                let u = self.user(f[0]);
                let t = self.tk(f[1]);
                let amt = self.amount(t, f[2]);
                let n = self.st.account_nonce + 1;
                Step::Txs(vec![
                    Tx { caller: u, call: Call::Supply { nonce: None, emode: None }, pays: vec![PayI { t, nonce: 0, amt: amt.clone() }] },
                    Tx { caller: u, call: Call::Withdraw(vec![(t, pow10(60))]), pays: vec![self.nft_pay(n)] },
                ])
            }
            K_ADDR => {
                let which = (f[0] % 5) as u8;
                let a = &self.w.a;
                let good = [&a.aggregator, &a.router, &a.accumulator, &a.safeview, &a.template][which as usize].clone();
                let to = match f[1] % 8 {
                    0 => None,
                    1 => Some(a.users[0].clone()),
                    2 => Some(a.users[2].clone()),
                    3 if which == 2 => Some(a.accumulator2.clone()),
                    4 => Some(a.receiver.clone()),
                    5 => Some(a.onedex.clone()),
                    _ => Some(good.clone()),
                };
                let bad = to.as_ref().map_or(false, |x| *x != good && *x != a.accumulator2);
                let mut v = vec![owner(Call::SetAddr { which, to })];
                if bad && f[2] % 4 != 0 {
                    // a wrong contract in place would stop everything: set it back
                    v.push(owner(Call::SetAddr { which, to: Some(good) }));
                } else if bad {
                    v.push(owner(Call::Pause(self.st.ctl.paused)));
                    v.push(owner(Call::SetAddr { which, to: Some(good) }));
                }
                Step::Txs(v)
            }
            _ => Step::None,
        }
    }
    fn g_params(&self, f: &[u32; 10], t: usize) -> Params {
        let genes: Vec<u32> = (0..12).map(|i| f[(i % 8) + 1].wrapping_mul(2654435761).rotate_left(i as u32 * 7)).collect();
        let mut p = gen_params(&mut Genes::new(&genes), t);
        match f[9] % 12 {
            0 => p.max = p.base.clone(),
            1 => p.mid = p.opt.clone(),
            2 => p.opt = ray(),
            3 => p.reserve = bu(10_000),
            4 => std::mem::swap(&mut p.mid, &mut p.opt),
            5 => p.max = &p.base + 1u32,
            6 => p.opt = ray() - 1u32,
            _ => {}
        }
        p
    }

    fn r_supply(&mut self, f: &[u32; 10]) -> Tx {
        let mut pays = vec![];
        let mut nonce = None;
        let mut emode = None;
        let mut caller = self.user(f[0]);
        let existing = self.prefer(self.accounts(), f[1]).last().cloned().filter(|_| f[1] & (1 << 29) != 0 && f[1] & 1 != 0).or(self.acct(f[1]));
        match f[2] % 16 {
            0..=5 => emode = self.emode_choice(f[3]),
            6..=10 => {
                if let Some(n) = existing {
                    caller = self.caller(n, f[3]);
                    pays.push(self.nft_pay(n));
                } else {
                    emode = self.emode_choice(f[3]);
                }
            }
            11 | 12 => nonce = existing,
            13 => nonce = Some((f[3] % 8) as u64),
            14 => {
                let n = existing.filter(|_| f[3] % 4 != 3).unwrap_or(1 + f[3] as u64 / 4 % 3);
                pays.push(PayI { t: TK_FAKE, nonce: n, amt: BigUint::one() });
            }
            _ => {
                if let Some(n) = existing {
                    pays.push(PayI { t: TK_ACC, nonce: n, amt: BigUint::one() });
                }
            }
        }
        let target = pays.first().filter(|p| p.t == TK_ACC).map(|p| p.nonce).or(nonce);
        // usually respect the account's kind
        let attr = target
            .and_then(|n| self.st.accounts.get(&n))
            .map(|a| a.attr.clone())
            .or(emode.map(|e| Attr { isolated: false, emode: e, mode: 1, token: None }));
        let k = match f[4] % 8 {
            0..=4 => 1,
            5 => 2,
            6 => 3 + (f[4] / 8 % 3) as usize / 2,
            _ => (f[4] / 8 % 2) as usize,
        };
        let k = if k > 0 && self.e.active.len() > 6 { k + (f[4] / 32 % 6) as usize } else { k };
        for i in 0..k {
            let mut t = self.tk(f[5].rotate_right(i as u32 * 7));
            if let (Some(a), true) = (&attr, f[6] % 4 != 3) {
                if let Some(x) = a.token {
                    t = x;
                }
            }
            t = self.fit(attr.as_ref(), &[], t, f[5].rotate_left(i as u32 * 7), false);
            if f[6] % 64 == 63 {
                t = TK_JUNK;
            }
            let amt = self.amount(t, f[7].rotate_left(i as u32 * 9));
            pays.push(PayI { t, nonce: 0, amt });
        }
        let mut tx = Tx { caller, call: Call::Supply { nonce, emode }, pays };
        // aim at the supply cap
        let j = tx.pays.len().saturating_sub(1);
        let capped = tx.pays.last().map_or(false, |p| {
            p.t < NT && self.st.ctl.assets[p.t].as_ref().map_or(false, |c| c.scap.is_some())
        });
        if capped && f[8] % 3 != 0 {
            let base = tx.clone();
            let hi = self.st.bal[tx.caller][tx.pays[j].t].clone();
            if let Some(x) = self.frontier(&hi, &|a: &BigUint| {
                let mut t = base.clone();
                t.pays[j].amt = a.clone();
                t
            }) {
                tx.pays[j].amt = Self::near(&x, f[9]);
            }
        }
        tx.norm()
    }
    fn r_borrow(&mut self, f: &[u32; 10]) -> Step {
        let n = match self.with_coll(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let caller = self.caller(n, f[1]);
        let pays = self.acc_pays(n, f[2], f[3]);
        let k = [1, 1, 1, 2, 2, 3, 1, [1, 1, 1, 4, 1, 1, 5, 0][(f[3] / 8 % 8) as usize]][(f[3] % 8) as usize];
        let k = if k > 0 && self.e.active.len() > 6 { k + (f[3] / 64 % 4) } else { k };
        let mut list: Vec<TA> = vec![];
        // loan-to-value headroom in EGLD
        let room = self.model(|m| {
            let a = m.st.accounts[&n].clone();
            let (_, _, l) = m.collateral(&a.dep)?;
            let d = m.debt(&a.bor)?;
            Ok(if l > d { (l - d) / pow10(9) } else { BigUint::zero() })
        });
        for i in 0..k {
            let mut t = self.tk(f[4].rotate_right(i as u32 * 7));
            if f[5] % 2 == 0 {
                if let Some(x) = self.st.accounts[&n].bor.keys().next() {
                    t = *x;
                }
            }
            let owed: Vec<usize> = self.st.accounts[&n].bor.keys().cloned().chain(list.iter().map(|x: &TA| x.0)).collect();
            t = self.fit(Some(&self.st.accounts[&n].attr), &owed, t, f[4].rotate_left(i as u32 * 7), true);
            if f[5] % 97 == 96 {
                t = TK_JUNK;
            }
            let g = f[6].rotate_left(i as u32 * 11);
            let amt = match (&room, g % 4) {
                (Some(r), 0..=2) if t < NT => {
                    let v = r * (1 + (g / 4) % 1050) / (1000u32 * k as u32);
                    let u = v * pow10(DECIMALS[t]) / &self.e.price[t];
                    // mostly what the market can pay out
                    let cash = &self.st.bal[A_POOL0 + t][t];
                    if &u > cash && (g >> 14) % 4 != 3 {
                        cash * (500 + (g >> 16) % 500) / 1000u32
                    } else {
                        u
                    }
                }
                _ => self.amount(t, g / 4),
            };
            list.push((t, amt));
        }
        if room.as_ref().map_or(false, |r| r < &bu(1000)) && f[9] % 4 != 3 {
            // nothing left to borrow against: more collateral instead
            let mut g = *f;
            g.rotate_left(4);
            return Step::Tx(self.r_supply(&g));
        }
        let mut tx = Tx { caller, call: Call::Borrow(list), pays };
        if f[7] % 3 == 0 && k > 0 {
            let base = tx.clone();
            if let Some(x) = self.frontier(&pow10(40), &|a: &BigUint| {
                let mut t = base.clone();
                if let Call::Borrow(l) = &mut t.call {
                    l.last_mut().unwrap().1 = a.clone();
                }
                t
            }) {
                let y = Self::near(&x, f[8]);
                if let Call::Borrow(l) = &mut tx.call {
                    l.last_mut().unwrap().1 = y;
                }
                self.hit("borrow at the limit");
            }
        }
        Step::Tx(tx)
    }
    fn r_withdraw(&mut self, f: &[u32; 10]) -> Step {
        let n = match self.with_coll(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let caller = self.caller(n, f[1]);
        let pays = self.acc_pays(n, f[2], f[3]);
        let held: Vec<usize> = self.st.accounts[&n].dep.keys().cloned().collect();
        let k = match f[3] % 8 {
            6 => 2,
            7 => held.len(),
            _ => 1,
        };
        let mut list: Vec<TA> = vec![];
        for i in 0..k {
            let mut t = if held.is_empty() { self.tk(f[4]) } else { held[(f[4] as usize + i) % held.len()] };
            if f[5] % 24 == 23 {
                t = self.tk(f[5] / 24);
            }
            let cur = self.units_of(n, t, true);
            let g = f[6].rotate_left(i as u32 * 11);
            let amt = match g % 8 {
                0 | 1 => pow10(60),
                2 => Self::near(&cur, g / 8),
                3 => self.amount(t, g / 8),
                _ => &cur * (1 + (g / 8) % 1000) / 1000u32,
            };
            list.push((t, amt));
        }
        let mut tx = Tx { caller, call: Call::Withdraw(list), pays };
        if !self.st.accounts[&n].bor.is_empty() && f[7] % 2 == 0 && k > 0 {
            let base = tx.clone();
            if let Some(x) = self.frontier(&pow10(40), &|a: &BigUint| {
                let mut t = base.clone();
                if let Call::Withdraw(l) = &mut t.call {
                    l.last_mut().unwrap().1 = a.clone();
                }
                t
            }) {
                let y = Self::near(&x, f[8]);
                if let Call::Withdraw(l) = &mut tx.call {
                    l.last_mut().unwrap().1 = y;
                }
                self.hit("withdraw at the limit");
            }
        }
        Step::Tx(tx)
    }
    /// Somebody has to owe something first.
    fn towards_debt(&mut self, f: &[u32; 10]) -> Option<Step> {
        if f[8] >> 29 != 7 && !self.st.accounts.values().any(|a| !a.bor.is_empty()) {
            let mut g = *f;
            g.rotate_left(3);
            return Some(self.r_borrow(&g));
        }
        None
    }
    fn r_repay(&mut self, f: &[u32; 10]) -> Step {
        if let Some(s) = self.towards_debt(f) {
            return s;
        }
        let n = match self.with_debt(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let owed: Vec<usize> = self.st.accounts[&n].bor.keys().cloned().collect();
        let k = [1usize, 1, 1, 2, 3, 1, 1, 2][(f[1] % 8) as usize];
        let mut pays = vec![];
        for i in 0..k {
            let mut t = if owed.is_empty() { self.tk(f[2]) } else { owed[(f[2] as usize + i) % owed.len()] };
            if f[3] % 24 == 23 {
                t = self.tk(f[3] / 24);
            }
            if f[3] % 64 == 62 {
                t = TK_JUNK;
            }
            let cur = self.units_of(n, t, false);
            let g = f[4].rotate_left(i as u32 * 11);
            let amt = match g % 8 {
                0 => &cur * 2u32,
                1 | 2 => Self::near(&cur, g / 8),
                3 => self.amount(t, g / 8),
                _ => &cur * (1 + (g / 8) % 1000) / 1000u32,
            };
            pays.push(PayI { t, nonce: 0, amt });
        }
        let m = if f[5] % 32 == 31 { (f[6] % 10) as u64 } else { n };
        Step::Tx(Tx { caller: self.user(f[7]), call: Call::Repay(m), pays }.norm())
    }
    /// Account with the lowest health factor (or any).
    fn worst(&self, g: u32) -> Option<u64> {
        if g % 6 == 5 {
            return self.acct(g / 6);
        }
        let mut best: Option<(BigUint, u64)> = None;
        for (n, a) in &self.st.accounts {
            if a.bor.is_empty() {
                continue;
            }
            if let Some(h) = self.hf(*n) {
                if best.as_ref().map_or(true, |b| h < b.0) {
                    best = Some((h, *n));
                }
            }
        }
        best.map(|b| b.1).or_else(|| self.acct(g / 6))
    }
    /// What has to happen before an account can be liquidated: collateral, then
    /// debt, then a price move. `None` when one already is unhealthy.
    fn towards_unhealthy(&mut self, f: &[u32; 10]) -> Option<Step> {
        let mut g = *f;
        g.rotate_left(3);
        if !self.st.accounts.values().any(|a| !a.bor.is_empty()) {
            if self.accounts().into_iter().any(|n| n != 1 && !self.st.accounts[&n].dep.is_empty()) {
                g[0] |= 1 << 20;
                return Some(self.r_borrow(&g));
            }
            return Some(Step::Tx(self.r_supply(&g)));
        }
        let bad = self.st.accounts.iter().any(|(n, a)| !a.bor.is_empty() && self.hf(*n).map_or(false, |h| h < ray()));
        if bad {
            None
        } else {
            Some(self.r_crash(&g))
        }
    }
    fn r_liquidate(&mut self, f: &[u32; 10]) -> Step {
        if f[8] % 8 != 7 {
            if let Some(s) = self.towards_unhealthy(f) {
                return s;
            }
        }
        let n = match self.worst(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let owed: Vec<usize> = self.st.accounts[&n].bor.keys().cloned().collect();
        let k = match f[1] % 8 {
            0..=2 => 1,
            3..=5 => owed.len().max(1),
            6 => 2,
            _ => owed.len() + 1,
        };
        // suggested amount
        let est = self.model(|m| {
            m.lax = true;
            m.liquidation(n, &[])
        });
        let mut pays = vec![];
        for i in 0..k {
            let mut t = if owed.is_empty() { self.tk(f[2]) } else { owed[(f[2] as usize + i) % owed.len()] };
            if f[3] % 24 == 23 {
                t = self.tk(f[3] / 24);
            }
            if f[3] % 64 == 62 {
                t = TK_JUNK;
            }
            let cur = self.units_of(n, t, false);
            let g = f[4].rotate_left(i as u32 * 11);
            let amt = match g % 10 {
                0 => &cur * 2u32,
                1 | 2 => Self::near(&cur, g / 10),
                3 => self.amount(t, g / 10),
                4 | 5 if t < NT => match &est {
                    Some(q) => Self::near(
                        &(&q.max_debt / pow10(9) * pow10(DECIMALS[t]) / &self.e.price[t]),
                        g / 10,
                    ),
                    None => cur.clone(),
                },
                _ => &cur * (1 + (g / 10) % 1000) / 1000u32,
            };
            pays.push(PayI { t, nonce: 0, amt });
        }
        let m = if f[5] % 48 == 47 { (f[6] % 10) as u64 } else { n };
        Step::Tx(Tx { caller: self.user(f[7]), call: Call::Liquidate(m), pays }.norm())
    }
    fn r_flash(&mut self, f: &[u32; 10]) -> Tx {
        let t = self.tk(f[0]);
        let cash = self.st.bal[A_POOL0 + t][t].clone();
        let amt = match f[1] % 8 {
            0 => cash.clone(),
            1 => &cash + 1u32,
            2 => bu(1),
            3 => {
                if f[1] / 8 % 4 == 0 {
                    bu(0)
                } else {
                    bu(2)
                }
            }
            _ => &cash * (1 + (f[1] / 8) % 1000) / 1000u32,
        };
        let to = match f[2] % 24 {
            23 => A_RECVFAR,
            22 => A_USER0,
            _ => A_RECV,
        };
        let func = match f[3] % 24 {
            23 => "",
            22 => "ESDTTransfer",
            21 => "MultiESDTNFTTransfer",
            20 => "noop",
            19 => "missing",
            18 => "ClaimDeveloperRewards",
            _ => "flash",
        }
        .to_string();
        // a missing receiver account type makes no difference to the rules
        let to = if to == A_USER0 { A_RECVFAR } else { to };
        let fee = self.st.ctl.assets[t].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
        let due = mul(&Dec::new(amt.clone(), DECIMALS[t]), &Dec::new(bu(10_000) + fee, 4), RAY)
            .round_to(DECIMALS[t])
            .v;
        let back = match f[4] % 8 {
            0..=2 => due.clone(),
            3 => Self::near(&due, 2),
            4 => &due + 1u32,
            5 => &due * 3u32 / 2u32,
            6 => amt.clone(),
            _ => Self::near(&due, f[4] / 8),
        };
        let mut repay = vec![(t, back)];
        match f[5] % 16 {
            15 => repay = vec![],
            14 => repay[0].0 = self.tk(f[6]),
            13 => repay.push((self.tk(f[6]), bu(7))),
            12 => {
                let h = &repay[0].1 / 2u32;
                let r = &repay[0].1 - &h;
                repay = vec![(t, h), (t, r)];
            }
            _ => {}
        }
        repay.retain(|x| !x.1.is_zero());
        let mut nested = None;
        if f[7] % 4 == 3 && func == "flash" {
            // anything else attempted while the loan is out, by the receiver
            let tok2 = self.tk(f[8]);
            let n = self.acct(f[9]).unwrap_or(1);
            let amt = bu(1000);
            let p = |t: usize| vec![PayI { t, nonce: 0, amt: bu(1000) }];
            let (call, pays) = match f[7] / 4 % 12 {
                0 => (Call::Supply { nonce: None, emode: None }, p(tok2)),
                1 => (Call::Repay(n), p(tok2)),
                2 => (Call::Liquidate(n), p(tok2)),
                3 => (
                    Call::Flash { t: tok2, amt, to: A_RECV, func: "flash".into(), repay: vec![], nested: None },
                    vec![],
                ),
                4 => (Call::UpdIdx(vec![tok2]), vec![]),
                5 => (Call::UpdThr { t: tok2, risks: f[9] % 2 == 0, accts: vec![n] }, vec![]),
                6 => (Call::Clean(n), vec![]),
                7 => (
                    Call::Multiply {
                        emode: 0,
                        coll: tok2,
                        amt,
                        debt: if tok2 == t { (t + 1) % NT } else { t },
                        mode: 2,
                        steps: vec![(tok2, bu(1000))],
                        opt: None,
                    },
                    p(tok2),
                ),
                8 => (Call::Supply { nonce: Some(n), emode: None }, p(t)),
                9 => (Call::Claim(vec![tok2]), vec![]),
                10 => (Call::Pause(true), vec![]),
                _ => (Call::Repay(n), p(t)),
            };
            nested = Some(Box::new(Tx { caller: A_RECV, call, pays }));
        }
        Tx {
            caller: self.user(f[6]),
            call: Call::Flash { t, amt, to, func, repay, nested },
            pays: vec![],
        }
    }
    pub fn send_account(&mut self, n: u64, from: usize, to: usize) -> bool {
        let (fa, to_a) = (self.w.tracked[from].clone(), self.w.tracked[to].clone());
        let r = self.w.vm.call(&fa, &to_a, "", vec![], &[Pay { token: ACCOUNT_TOKEN.into(), nonce: n, amount: BigUint::one() }]);
        self.st = self.w.read();
        r.ok
    }
    /// A borrower that holds an account tries, while the loan is out, something
    /// it may do at any other time.
    fn r_flash_owned(&mut self, f: &[u32; 10]) -> Step {
        let n = match self.with_coll(f[9]) {
            Some(n) => n,
            None => return Step::Tx(self.r_flash(f)),
        };
        let user = match self.holder(n) {
            Some(h) if h >= A_USER0 && h <= NU => h,
            _ => return Step::None,
        };
        if !self.send_account(n, user, A_RECV) {
            return Step::None;
        }
        let mut nested = None;
        for i in 0..6u32 {
            let mut g = *f;
            for (j, x) in g.iter_mut().enumerate() {
                *x = (*x ^ (i + 1).wrapping_mul(0x9E37_79B9).rotate_left(j as u32)).wrapping_mul(0x85EB_CA6B ^ (j as u32 * 2));
                *x ^= *x >> 15;
            }
            self.force = Some(n);
            let s = match f[8] % 9 {
                0 => self.r_withdraw(&g),
                1 => self.r_borrow(&g),
                2 => self.r_swap_debt(&g),
                3 => self.r_swap_coll(&g),
                4 => self.r_repay_coll(&g),
                5 => Step::Tx(self.r_multiply(&g)),
                6 => Step::Tx(self.r_supply(&g)),
                7 => self.r_repay(&g),
                _ => {
                    let mut tx = self.r_flash(&g);
                    if let Call::Flash { nested, .. } = &mut tx.call {
                        *nested = None;
                    }
                    Step::Tx(tx)
                }
            };
            self.force = None;
            if let Step::Tx(mut tx) = s {
                tx.caller = A_RECV;
                if self.accepts(&tx) {
                    self.hit2(tx.call.name(), "tried during a flash loan");
                    nested = Some(Box::new(tx));
                    break;
                }
            }
        }
        let mut tx = self.r_flash(f);
        if let (Call::Flash { t, amt, to, func, repay, nested: x }, Some(_)) = (&mut tx.call, &nested) {
            // a loan that would go through
            let cash = &self.st.bal[A_POOL0 + *t][*t];
            *amt = cash / 1000u32 + 1u32;
            *to = A_RECV;
            *func = "flash".into();
            *repay = vec![(*t, &*amt * 2u32)];
            *x = nested;
        }
        Step::Lend(tx, n, user)
    }
    fn r_multiply(&mut self, f: &[u32; 10]) -> Tx {
        let coll = self.tk(f[0]);
        let mut debt = self.tk(f[1]);
        if debt == coll && f[1] % 8 != 7 {
            debt = *self.e.active.iter().find(|x| **x != coll).unwrap_or(&debt);
        }
        let lev: Vec<u64> = self.st.accounts.iter().filter(|(_, a)| a.attr.mode >= 2).map(|x| *x.0).collect();
        let reuse = f[2] % 3 == 2 && (!lev.is_empty() || f[2] % 24 == 23);
        let n = if reuse {
            if lev.is_empty() || f[2] % 24 == 23 {
                self.acct(f[3])
            } else {
                Some(lev[f[3] as usize % lev.len()])
            }
        } else {
            None
        };
        let mode = [2u8, 3, 4, 2, 3, 4, 2, (f[4] / 8 % 6) as u8][(f[4] % 8) as usize];
        let emode = self.emode_choice(f[3] >> 3).unwrap_or(0);
        let attr = match n.and_then(|n| self.st.accounts.get(&n)) {
            Some(a) => a.attr.clone(),
            None => Attr { isolated: false, emode, mode, token: None },
        };
        let owed: Vec<usize> = n.and_then(|n| self.st.accounts.get(&n)).map_or(vec![], |a| a.bor.keys().cloned().collect());
        let coll = self.fit(Some(&attr), &[], coll, f[0], false);
        let x = self.fit(Some(&attr), &owed, debt, f[1], true);
        if x != coll {
            debt = x;
        } else if debt == coll && f[1] % 8 != 7 {
            debt = *self.e.active.iter().find(|x| **x != coll).unwrap_or(&debt);
        }
        let n = self.force.filter(|_| f[2] % 2 == 0).or(n.filter(|_| self.force.is_none()));
        let (caller, mut pays) = match n {
            Some(n) => (self.caller(n, f[5]), vec![self.nft_pay(n)]),
            None => (self.user(f[5]), vec![]),
        };
        let mut opt = None;
        let mut own = BigUint::zero(); // EGLD value brought along
        if n.is_none() {
            let t = match f[6] % 8 {
                0..=3 => coll,
                4 | 5 => debt,
                _ => self.tk(f[6] / 8),
            };
            let amt = self.amount(t, f[7] / 20 * 20);
            own = &amt * &self.e.price[t] / pow10(DECIMALS[t]);
            if t != coll && t != debt && f[6] % 64 != 63 {
                opt = Some(self.route(t, coll, &amt, f[8] >> 3));
            }
            pays.push(PayI { t, nonce: 0, amt });
        } else if let Some(a) = self.st.accounts.get(&n.unwrap()) {
            own = self
                .model(|m| Ok(m.collateral(&a.dep)?.1))
                .map(|v| v / pow10(9))
                .unwrap_or_default();
        }
        if f[9] % 32 == 31 {
            pays.push(PayI { t: self.tk(f[9] / 32), nonce: 0, amt: bu(100) });
        }
        let lever = [50u32, 100, 200, 300, 10, 900, 150, 400][(f[8] % 8) as usize];
        let amt = (own * lever / 100u32) * pow10(DECIMALS[debt]) / &self.e.price[debt];
        let mut amt = amt;
        let cash = &self.st.bal[A_POOL0 + debt][debt];
        if &amt > cash && f[8] >> 30 != 3 {
            amt = cash * (300 + (f[8] >> 8) % 700) / 1000u32;
        }
        let mut swapped = amt.clone();
        if n.is_none() && pays[0].t == debt {
            swapped += &pays[0].amt;
        }
        let steps = self.route(debt, coll, &swapped, f[9]);
        Tx { caller, call: Call::Multiply { emode, coll, amt, debt, mode, steps, opt }, pays }.norm()
    }
    fn r_swap_debt(&mut self, f: &[u32; 10]) -> Step {
        if let Some(s) = self.towards_debt(f) {
            return s;
        }
        let n = match self.with_debt(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let caller = self.caller(n, f[1]);
        let owed: Vec<usize> = self.st.accounts[&n].bor.keys().cloned().collect();
        let existing = if owed.is_empty() { self.tk(f[2]) } else { owed[f[2] as usize % owed.len()] };
        let mut new = self.tk(f[3]);
        if new == existing && f[3] % 8 != 7 {
            new = *self.e.active.iter().find(|x| **x != existing).unwrap_or(&new);
        }
        let others: Vec<usize> = owed.iter().cloned().filter(|t| *t != existing).collect();
        let x = self.fit(Some(&self.st.accounts[&n].attr), &others, new, f[3], true);
        if x != existing {
            new = x;
        }
        let cur = self.units_of(n, existing, false);
        let want = self.quote(existing, new, &cur, 0);
        let amt = match f[4] % 6 {
            0 => want.clone(),
            1 => &want * 11u32 / 10u32,
            2 => self.amount(new, f[4] / 6),
            _ => &want * (1 + (f[4] / 6) % 1000) / 1000u32,
        };
        let cash = self.st.bal.get(A_POOL0 + new).filter(|_| new < NT).map(|b| b[new].clone());
        let amt = match cash {
            Some(c) if amt > c && f[5] >> 30 != 3 => c * (300 + (f[5] >> 8) % 700) / 1000u32,
            _ => amt,
        };
        let steps = self.route(new, existing, &amt, f[5]);
        let mut pays = self.acc_pays(n, f[6], f[7]);
        if f[8] % 6 == 5 {
            pays.push(PayI { t: existing, nonce: 0, amt: &cur / 3u32 + 1u32 });
        }
        Step::Tx(Tx { caller, call: Call::SwapDebt { existing, amt, new, steps }, pays }.norm())
    }
    fn r_swap_coll(&mut self, f: &[u32; 10]) -> Step {
        let n = match self.with_coll(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let caller = self.caller(n, f[1]);
        let held: Vec<usize> = self.st.accounts[&n].dep.keys().cloned().collect();
        let cur = if held.is_empty() { self.tk(f[2]) } else { held[f[2] as usize % held.len()] };
        let mut new = self.tk(f[3]);
        if new == cur && f[3] % 8 != 7 {
            new = *self.e.active.iter().find(|x| **x != cur).unwrap_or(&new);
        }
        let x = self.fit(Some(&self.st.accounts[&n].attr), &[], new, f[3], false);
        if x != cur {
            new = x;
        }
        let have = self.units_of(n, cur, true);
        let amt = match f[4] % 6 {
            0 => pow10(50),
            1 => have.clone(),
            2 => self.amount(cur, f[4] / 6),
            _ => &have * (1 + (f[4] / 6) % 1000) / 1000u32,
        };
        let real = amt.clone().min(have);
        let steps = self.route(cur, new, &real, f[5]);
        let mut pays = self.acc_pays(n, f[6], f[7]);
        if f[8] % 6 == 5 {
            pays.push(PayI { t: self.tk(f[8] / 6), nonce: 0, amt: self.amount(self.tk(f[8] / 6), f[9]) });
        }
        Step::Tx(Tx { caller, call: Call::SwapColl { cur, amt, new, steps }, pays }.norm())
    }
    fn r_repay_coll(&mut self, f: &[u32; 10]) -> Step {
        if let Some(s) = self.towards_debt(f) {
            return s;
        }
        let n = match self.with_debt(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let caller = self.caller(n, f[1]);
        let held: Vec<usize> = self.st.accounts[&n].dep.keys().cloned().collect();
        let owed: Vec<usize> = self.st.accounts[&n].bor.keys().cloned().collect();
        let from = if held.is_empty() { self.tk(f[2]) } else { held[f[2] as usize % held.len()] };
        let mut to = if owed.is_empty() { self.tk(f[3]) } else { owed[f[3] as usize % owed.len()] };
        if f[3] % 24 == 23 {
            to = self.tk(f[3] / 24);
        }
        let have = self.units_of(n, from, true);
        let cur = self.units_of(n, to, false);
        let need = self.quote(to, from, &cur, 0);
        let amt = match f[4] % 6 {
            0 => pow10(50),
            1 => need.clone() + 1u32,
            2 => &need * 12u32 / 10u32,
            3 => self.amount(from, f[4] / 6),
            _ => &need * (1 + (f[4] / 6) % 1000) / 1000u32,
        };
        let real = amt.clone().min(have);
        let steps = if from == to && f[5] % 2 == 0 { None } else { Some(self.route(from, to, &real, f[5])) };
        let mut pays = self.acc_pays(n, f[6], f[7]);
        if f[8] % 4 == 3 {
            // settle the other debts directly
            for t in &owed {
                if *t != to || f[8] % 8 == 7 {
                    pays.push(PayI { t: *t, nonce: 0, amt: self.units_of(n, *t, false) + 5u32 });
                }
            }
        }
        Step::Tx(Tx { caller, call: Call::RepayColl { from, amt, to, close: f[9] % 3 != 0, steps }, pays }.norm())
    }
    fn r_feed(&mut self, f: &[u32; 10]) -> Step {
        let a = self.w.a.clone();
        if f[0] % 3 == 0 {
            // heal everything
            for t in 0..NT {
                self.e.skew_agg[t] = 0;
                self.e.skew_safe[t] = 0;
                self.e.age[t] = 0;
            }
            for i in 0..2 {
                self.e.reserves[i].1 = 0;
            }
            for p in [&a.pair_usdc, &a.pair_utk, &a.pair_wbtc, &a.pair_mex, &a.pair_lp2] {
                self.w.vm.set_storage(p, b"state".to_vec(), vec![1]);
            }
            let k = Enc::new().raw(b"pair_state").u32(ONEDEX_ID).done();
            self.w.vm.set_storage(&a.onedex, k, vec![1]);
            self.w.vm.set_storage(&a.aggregator, b"pause_module:paused".to_vec(), vec![]);
            let e = self.e.clone();
            self.w.apply_prices(&e);
            return Step::World("feeds healed".into());
        }
        let t = if f[1] % 4 == 3 {
            [T_EGLD, T_USDC, T_XOXNO, T_LXOXNO][(f[1] / 4 % 4) as usize]
        } else {
            self.tk(f[1])
        };
        let (first, last) = match &self.st.ctl.oracles[t] {
            Some(o) => (
                o.tol.fu.to_u64().unwrap() as i64 - 10_000,
                o.tol.lu.to_u64().unwrap() as i64 - 10_000,
            ),
            None => (200, 500),
        };
        let mut first = first;
        let mut last = last;
        if f[7] & (1 << 28) != 0 {
            // the bands of an LP token made of it; its price moves half as much
            let lp = match t {
                T_USDC => Some(T_LP),
                T_XOXNO | T_LXOXNO => Some(T_LP2),
                _ => None,
            };
            if let Some(o) = lp.and_then(|l| self.st.ctl.oracles[l].as_ref()) {
                first = (o.tol.fu.to_u64().unwrap() as i64 - 10_000) * 2;
                last = (o.tol.lu.to_u64().unwrap() as i64 - 10_000) * 2;
            }
        }
        // in parts per million
        let s = match f[2] % 8 {
            0 => first * 100 + (f[3] % 201) as i64 - 100,
            1 => last * 100 + (f[3] % 201) as i64 - 100,
            2 => -(first * 100 + (f[3] % 201) as i64 - 100),
            3 => -(last * 100 + (f[3] % 201) as i64 - 100),
            4 => (first + last) * 50,
            5 => last * 100 * 3,
            6 => -(last * 100 * 3).min(900_000),
            _ => (f[3] % 100_000) as i64 - 50_000,
        }
        .max(-900_000);
        let what;
        match f[4] % 10 {
            0..=2 => {
                self.e.skew_agg[t] = s;
                what = format!("feed of {} off by {s} ppm", TOKENS[t]);
            }
            3..=5 => {
                self.e.skew_safe[t] = s;
                what = format!("on-chain average of {} off by {s} ppm", TOKENS[t]);
            }
            6 => {
                // its own window, or that of a token priced from it
                let by = match (t, f[6] % 2) {
                    (T_XOXNO, 1) => T_LXOXNO,
                    (T_EGLD, 1) => [T_XEGLD, T_LEGLD, T_LP][(f[6] / 2 % 3) as usize],
                    (T_USDC, 1) => T_LP,
                    _ => t,
                };
                let stale = self.st.ctl.oracles[by].as_ref().map_or(600, |o| o.stale);
                let stale = if f[7] % 4 == 3 { stale * 3 / 2 } else { stale };
                self.e.age[t] = (stale + (f[5] % 5) as u64).saturating_sub(2);
                what = format!("feed of {} aged {}", TOKENS[t], self.e.age[t]);
            }
            7 => {
                let ps = [&a.pair_usdc, &a.pair_utk, &a.pair_wbtc, &a.pair_mex, &a.pair_lp2];
                let p = ps[(f[5] % 5) as usize];
                self.w.vm.set_storage(p, b"state".to_vec(), if f[6] % 2 == 0 { vec![] } else { vec![2] });
                what = "pair state changed".into();
            }
            8 => {
                if f[5] % 3 == 0 {
                    self.w.vm.set_storage(&a.aggregator, b"pause_module:paused".to_vec(), vec![1]);
                    what = "aggregator paused".into();
                } else {
                    let k = Enc::new().raw(b"pair_state").u32(ONEDEX_ID).done();
                    self.w.vm.set_storage(&a.onedex, k, if f[6] % 2 == 0 { vec![] } else { vec![2] });
                    what = "onedex pair state changed".into();
                }
            }
            _ => {
                // manipulated LP reserves
                let i = (f[5] % 2) as usize;
                self.e.reserves[i].1 = [900_000i64, -500_000, 9_000_000, -900_000][(f[6] % 4) as usize];
                what = "LP reserves imbalanced".into();
            }
        }
        let e = self.e.clone();
        self.w.apply_prices(&e);
        Step::World(what)
    }
    fn r_emode(&mut self, f: &[u32; 10]) -> Tx {
        let ids: Vec<u8> = self.st.ctl.cats.keys().cloned().collect();
        let id = if ids.is_empty() || f[0] % 16 == 15 { (f[0] / 16 % 5) as u8 } else { ids[(f[0] / 16) as usize % ids.len()] };
        let t = if f[1] % 40 == 38 { TK_JUNK } else { self.tk(f[1]) };
        let genes = [f[2], f[3], f[4]];
        let mut cat = gen_cat(&mut Genes::new(&genes));
        let (coll, borrow) = (f[5] % 4 != 3, f[6] % 4 != 3);
        let call = match f[7] % 12 {
            0 | 1 => Call::AddCat(cat),
            2 => {
                cat.deprecated = f[8] % 6 == 5;
                Call::EditCat(id, cat)
            }
            3 if f[8] % 2 == 0 => Call::RemCat(id),
            3..=6 => Call::AddAssetCat { t, id, coll, borrow },
            7..=9 => Call::EditAssetCat { t, id, coll, borrow },
            _ => Call::RemAssetCat { t, id },
        };
        owner(call)
    }
    fn r_oracle(&mut self, f: &[u32; 10]) -> Step {
        let t = self.tk(f[0]);
        let edge = |g: u32, e: &[u64]| e[g as usize % e.len()];
        let first = match f[1] % 4 {
            0 => edge(f[2], &[49, 50, 51, 4999, 5000, 5001, 0]),
            _ => 50 + (f[2] % 1500) as u64,
        };
        let last = match f[3] % 4 {
            0 => edge(f[4], &[149, 150, 151, 9999, 10000, 10001]),
            1 => first,
            2 => first.saturating_sub(1),
            _ => 150 + (f[4] % 4000) as u64,
        };
        if f[5] % 2 == 0 || self.st.ctl.pools[T_LP2].is_some() {
            let t = if f[5] % 32 == 30 { TK_JUNK } else { t };
            return Step::Tx(owner(Call::Tol { t, first, last }));
        }
        let a = &self.w.a;
        let t = if f[6] % 5 == 4 { t } else { T_LP2 };
        let mut o = Oracle {
            base: T_LXOXNO,
            quote: T_WEGLD,
            tol: Tol { fu: bu(0), fl: bu(0), lu: bu(0), ll: bu(0) },
            contract: a.pair_lp2.clone(),
            method: (f[7] % 5) as u8,
            otype: 3,
            source: 1,
            decimals: 18,
            onedex: 0,
            stale: 60 + (f[8] % 1000) as u64,
        };
        if f[9] % 12 == 11 {
            o.source = 0;
        }
        Step::Tx(owner(Call::SetOracle { t, o, first, last }))
    }
    fn r_stranger(&mut self, f: &[u32; 10]) -> Step {
        let who = if f[0] % 8 == 7 { A_RECV } else { self.user(f[0]) };
        let mut g = *f;
        g.rotate_left(2);
        if f[1] % 3 == 0 {
            // a market's own endpoints, with plausible arguments
            let mut t = self.tk(f[2]);
            if t == T_LP2 && !self.w.vm.has(&self.w.a.pools[t]) {
                t = self.e.active[0];
            }
            let d = DECIMALS[t];
            let dec = |v: u64| Enc::new().dec(&Dec::new(bu(v as u128), d)).done();
            let pos = |ty: u8, scaled: BigUint| {
                let z = Dec::zero(4);
                Enc::new()
                    .u8(ty)
                    .buf(ntok(t))
                    .dec(&Dec::ray(scaled))
                    .u64(1)
                    .dec(&z)
                    .dec(&z)
                    .dec(&z)
                    .dec(&z)
                    .done()
            };
            let price = Enc::new().dec(&Dec::wad(wad())).done();
            let me = self.w.tracked[who].to_vec();
            let p = |amt: u64| vec![PayI { t, nonce: 0, amt: bu(amt as u128) }];
            let (func, args, pays): (&'static str, Vec<Vec<u8>>, Vec<PayI>) = match f[3] % 11 {
                0 => ("supply", vec![pos(1, bu(0)), price], p(1000)),
                1 => ("borrow", vec![me, dec(1000), pos(2, bu(0)), price], vec![]),
                2 => ("withdraw", vec![me, dec(1000), pos(1, ray()), vec![], Enc::new().u8(0).done(), price], vec![]),
                3 => ("repay", vec![me, pos(2, ray()), price], p(1000)),
                4 => (
                    "flashLoan",
                    vec![
                        tok(t).to_vec(),
                        dec(1000),
                        self.w.a.receiver.to_vec(),
                        b"noop".to_vec(),
                        vec![],
                        Enc::new().dec(&Dec::zero(4)).done(),
                        price,
                    ],
                    vec![],
                ),
                5 => ("createStrategy", vec![pos(2, bu(0)), dec(1000), dec(1), price], vec![]),
                6 => ("seizePosition", vec![pos(2, bu(0)), price], vec![]),
                7 => ("claimRevenue", vec![price], vec![]),
                8 => ("addRewards", vec![price], p(1000)),
                9 => ("updateIndexes", vec![price], vec![]),
                _ => (
                    "updateParams",
                    vec![
                        top_big(&ray()),
                        top_big(&bu(1)),
                        top_big(&bu(1)),
                        top_big(&bu(1)),
                        top_big(&bu(1)),
                        top_big(&(ray() / 2u32)),
                        top_big(&(ray() * 8u32 / 10u32)),
                        top_big(&bu(9000)),
                        price,
                    ],
                    vec![],
                ),
            };
            let who = if who == A_RECV { A_USER0 } else { who };
            return Step::Tx(Tx { caller: who, call: Call::PoolDirect { t, func, args }, pays });
        }
        let who = if who == A_RECV { A_USER0 + 1 } else { who };
        if f[1] % 3 == 1 && f[3] % 3 == 0 {
            let t = self.tk(f[2]);
            if f[4] % 2 == 0 {
                return Step::Tx(Tx { caller: who, call: Call::UpgradePool(t), pays: vec![] });
            }
            let (func, args): (&'static str, Vec<Vec<u8>>) = ("registerAccountToken", vec![b"LendAcc".to_vec(), b"LEND".to_vec()]);
            if f[5] % 2 == 0 {
                // as on the day of the deployment, before the collection exists
                let (fresh, owner) = (f[5] % 4 == 0, f[5] % 8 >= 6);
                let snap = self.w.vm.snapshot();
                let (ctl, from) = (self.w.a.controller.clone(), self.w.tracked[if owner { A_OWNER } else { who }].clone());
                if fresh {
                    self.w.vm.set_storage(&ctl, b"account".to_vec(), vec![]);
                }
                let r = self.w.vm.call(&from, &ctl, func, args, &[Pay { token: EGLD.to_vec(), nonce: 0, amount: pow10(17) / 2u32 }]);
                self.w.vm.restore(&snap);
                self.hit2("registerAccountToken", if r.ok { "accepted" } else if owner { "refused to the owner" } else { "privileged operation by a stranger" });
                if r.ok && (!owner || !fresh) {
                    let who = if owner { "the owner a second time" } else { "a stranger" };
                    self.flag(c_reg(owner), format!("registerAccountToken accepted from {who}"));
                }
                return Step::None;
            }
            return Step::Tx(Tx { caller: who, call: Call::Denied { func, args }, pays: vec![] });
        }
        let k = [K_EDIT, K_LIMITS, K_EMODE, K_ORACLE, K_PARAMS, K_CREATE, K_PAUSE, K_ADDR, K_REWARD][(f[3] % 9) as usize];
        let step = self.resolve(&Op { k, f: g });
        // who may upgrade a contract is the chain's business
        let fits = |tx: &Tx| !matches!(tx.call, Call::UpgradeCtl);
        match step {
            Step::Tx(tx) if !fits(&tx) => Step::None,
            Step::Tx(mut tx) => {
                tx.caller = who;
                Step::Tx(tx)
            }
            Step::Txs(v) => Step::Txs(
                v.into_iter()
                    .filter(fits)
                    .map(|mut tx| {
                        tx.caller = who;
                        tx
                    })
                    .collect(),
            ),
            s => s,
        }
    }
    /// Draws a user operation the model accepts as things stand, changes one
    /// thing about the rules or the market it depends on, and then sends it.
    fn r_aim(&mut self, f: &[u32; 10]) -> Step {
        let k = [
            K_SUPPLY, K_BORROW, K_BORROW, K_MULT, K_MULT, K_SDEBT, K_SDEBT, K_SCOLL, K_SCOLL, K_RCOLL, K_WITHDRAW, K_WITHDRAW, K_REPAY,
            K_LIQ, K_FLASH, K_UPTHR,
        ][(f[0] % 16) as usize];
        let mut g = *f;
        g.rotate_left(3);
        for (i, x) in g.iter_mut().enumerate() {
            *x = x.wrapping_mul(0x9E37_79B1).rotate_left(7 + i as u32) ^ f[0].wrapping_mul(i as u32 | 1);
        }
        g[7] &= 0x00ff_ffff; // draw again until the model accepts
        let tx = match self.resolve(&Op { k, f: g }) {
            Step::Tx(tx) => tx,
            s => return s,
        };
        if !self.accepts(&tx) {
            return Step::Tx(tx);
        }
        // whom and what it is about
        let n = tx.pays.iter().find(|p| p.t == TK_ACC).map(|p| p.nonce).or(match &tx.call {
            Call::Supply { nonce, .. } => *nonce,
            Call::Repay(n) | Call::Liquidate(n) => Some(*n),
            Call::UpdThr { accts, .. } => accts.first().cloned(),
            _ => None,
        });
        let a = n.and_then(|n| self.st.accounts.get(&n).cloned());
        let mut ins: Vec<usize> = tx.pays.iter().map(|p| p.t).collect();
        let mut outs: Vec<(usize, BigUint)> = vec![];
        match &tx.call {
            Call::Withdraw(l) | Call::Borrow(l) => outs.extend(l.iter().cloned()),
            Call::Multiply { coll, debt, amt, .. } => {
                ins.push(*coll);
                outs.push((*debt, amt.clone()));
            }
            Call::SwapDebt { existing, new, amt, .. } => {
                ins.push(*existing);
                outs.push((*new, amt.clone()));
            }
            Call::SwapColl { cur, new, amt, .. } => {
                ins.push(*new);
                outs.push((*cur, amt.clone()));
            }
            Call::RepayColl { from, to, amt, .. } => {
                ins.push(*to);
                outs.push((*from, amt.clone()));
            }
            Call::Flash { t, amt, .. } => outs.push((*t, amt.clone())),
            Call::UpdThr { t, .. } => ins.push(*t),
            _ => {}
        }
        let mut ts: Vec<usize> = ins.iter().cloned().chain(outs.iter().map(|x| x.0)).filter(|t| *t < NT).collect();
        if f[1] % 4 == 3 {
            // or one of the account's other positions
            if let Some(a) = &a {
                ts.extend(a.dep.keys().chain(a.bor.keys()));
            }
        }
        ts.sort();
        ts.dedup();
        if ts.is_empty() {
            return Step::Tx(tx);
        }
        let t = ts[f[2] as usize % ts.len()];
        let emode = a.as_ref().map_or(
            match &tx.call {
                Call::Supply { emode, .. } => emode.unwrap_or(0),
                Call::Multiply { emode, .. } => *emode,
                _ => 0,
            },
            |a| a.attr.emode,
        );
        let nudge = |x: BigUint, g: u32| -> BigUint {
            match g % 3 {
                0 => x,
                1 => x + 1u32,
                _ => {
                    if x.is_zero() {
                        x
                    } else {
                        x - 1u32
                    }
                }
            }
        };
        let mut undo: Option<Tx> = None;
        let mut what = f[3] % 16;
        let mut f = *f;
        if !self.bias.aim.is_empty() && f[3] >> 31 == 1 {
            let (w, v) = self.bias.aim[(f[3] >> 20) as usize % self.bias.aim.len()];
            what = w;
            if v != ANY {
                f[4] = v;
            }
        }
        let f = &f;
        if what < 4 && emode == 0 {
            what += 4;
        }
        let change: Option<Tx> = match what {
            0..=3 => {
                let cat = self.st.ctl.cats.get(&emode).cloned();
                let member = self.st.ctl.emode_assets.get(&emode).and_then(|m| m.get(&t)).is_some();
                match (cat, f[4] % 8) {
                    (Some(c), 0 | 1) => {
                        undo = Some(owner(Call::EditCat(emode, c.clone())));
                        Some(owner(Call::EditCat(emode, Cat { deprecated: true, ..c })))
                    }
                    (Some(c), 2) => {
                        undo = Some(owner(Call::EditCat(emode, c.clone())));
                        let x = [97u32, 80, 50, 103][(f[5] % 4) as usize];
                        Some(owner(Call::EditCat(emode, Cat { ltv: &c.ltv * x / 100u32, thr: &c.thr * x / 100u32, ..c })))
                    }
                    (Some(_), 3) => Some(owner(Call::RemCat(emode))),
                    (Some(_), 4) if member => Some(owner(Call::RemAssetCat { t, id: emode })),
                    (Some(_), _) if member => {
                        Some(owner(Call::EditAssetCat { t, id: emode, coll: f[5] % 2 == 0, borrow: f[5] / 2 % 2 == 0 }))
                    }
                    _ => None,
                }
            }
            4 | 5 => {
                let (b, d) = a.as_ref().map_or((1, 1), |a| (a.bor.len(), a.dep.len()));
                let lim = |x: usize, g: u32| (x as i64 + [0i64, 1, -1, 0][(g % 4) as usize]).max(0) as u8;
                undo = Some(owner(Call::Limits(self.st.ctl.max_borrow, self.st.ctl.max_supply)));
                Some(owner(if f[4] % 2 == 0 {
                    Call::Limits(lim(b, f[5]), self.st.ctl.max_supply)
                } else {
                    Call::Limits(self.st.ctl.max_borrow, lim(d, f[5]))
                }))
            }
            6..=10 => match self.st.ctl.assets[t].clone() {
                None => None,
                Some(c) => {
                    let old = c.clone();
                    undo = Some(owner(Call::EditAsset { t, cfg: old }));
                    let mut c = c;
                    let p = &self.st.pools[t];
                    let units = |x: &BigUint, i: &BigUint| rmul(x, i) / pow10(27 - DECIMALS[t]);
                    let amt = tx
                        .pays
                        .iter()
                        .filter(|p| p.t == t)
                        .map(|p| p.amt.clone())
                        .chain(outs.iter().filter(|x| x.0 == t).map(|x| x.1.clone()))
                        .fold(BigUint::zero(), |x, y| x + y);
                    match f[4] % 12 {
                        0 => c.coll = !c.coll,
                        1 | 2 => c.borrow = !c.borrow,
                        3 => c.siloed = !c.siloed,
                        4 => c.isolated = !c.isolated,
                        5 => c.iso_borrow = !c.iso_borrow,
                        6 => c.flash = !c.flash,
                        7 => c.scap = Some(nudge(units(&p.supplied, &p.sidx) + if f[5] % 3 == 0 { bu(0) } else { amt }, f[6])),
                        8 => c.bcap = Some(nudge(units(&p.borrowed, &p.bidx) + if f[5] % 3 == 0 { bu(0) } else { amt }, f[6])),
                        9 => {
                            // the ceiling of the account's isolated asset, around what it owes
                            let iso = &self.st.iso[t].v;
                            let mut s = self.st.clone();
                            let then = if exec(&mut s, &self.w.a, &tx).is_ok() { s.iso[t].v.clone() } else { iso.clone() };
                            c.ceiling = nudge(if &then > iso && f[5] % 4 != 3 { then } else { iso.clone() }, f[6]);
                        }
                        10 => {
                            let x = [97u32, 80, 50, 10][(f[5] % 4) as usize];
                            c.ltv = &c.ltv * x / 100u32;
                            c.thr = (&c.thr * x / 100u32).max(&c.ltv + 1u32);
                        }
                        _ => {
                            c.ltv = bu(0);
                            c.thr = bu(0);
                        }
                    }
                    Some(owner(Call::EditAsset { t, cfg: c }))
                }
            },
            11 => {
                undo = Some(owner(Call::Pause(false)));
                Some(owner(Call::Pause(true)))
            }
            12 => Some(owner(Call::UpgradePool(t))).filter(|_| self.st.ctl.template == self.w.a.template.to_vec()),
            13 => {
                if let Step::World(s) = self.resolve_once(&Op { k: [K_FEED, K_PRICE, K_TIME][(f[4] % 3) as usize], f: [f[5], f[6], f[7], f[8], f[9], f[4], f[3], f[2], f[1], f[0]] }) {
                    self.st = self.w.read();
                    self.log(|| s);
                }
                None
            }
            14 => {
                if let Step::World(s) = self.resolve_once(&Op { k: K_NFT, f: [f[5], f[6], f[7], f[8], f[9], f[4], f[3], f[2], f[1], f[0]] }) {
                    self.st = self.w.read();
                    self.log(|| s);
                }
                None
            }
            _ => {
                // somebody else's operation in between
                let k = [K_SUPPLY, K_BORROW, K_WITHDRAW, K_REPAY, K_LIQ][(f[4] % 5) as usize];
                match self.resolve(&Op { k, f: [f[5], f[6], f[7], f[8], f[9], f[4], f[3], 0, f[1], f[0]] }) {
                    Step::Tx(t) => Some(t),
                    Step::World(s) => {
                        self.st = self.w.read();
                        self.log(|| s);
                        None
                    }
                    _ => None,
                }
            }
        };
        if let Some(c) = change {
            if self.transact(&c) {
                let verdict = if self.accepts(&tx) { "aimed: still legal" } else { "aimed: now illegal" };
                self.hit(verdict);
            } else {
                undo = None;
            }
        }
        match undo {
            Some(u) if f[9] % 8 != 0 => Step::Txs(vec![tx, u]),
            _ => Step::Tx(tx),
        }
    }
    /// Moves prices so that an account's health factor lands near a target.
    /// A fresh account whose debt and threshold-weighted collateral come out
    /// equal, or one price unit to either side of it, and the calls that hang
    /// on the difference.
    fn r_exact(&mut self, f: &[u32; 10]) -> Option<Step> {
        let fixed = |t: usize| t == T_EGLD || t == T_WEGLD;
        let usable = |c: &AssetCfg| !c.isolated && !c.siloed;
        let ok = |t: usize, coll: bool| {
            self.st.ctl.assets[t].as_ref().map_or(false, |c| usable(c) && if coll { c.coll && c.thr > bu(100) && c.ltv > bu(1) } else { c.borrow })
        };
        let cs: Vec<usize> = self.e.active.iter().cloned().filter(|t| ok(*t, true)).collect();
        let ds: Vec<usize> =
            self.e.active.iter().cloned().filter(|t| ok(*t, false) && !fixed(*t) && self.st.bal[A_POOL0 + *t][*t] > bu(1000)).collect();
        if cs.is_empty() || ds.is_empty() {
            return None;
        }
        let tc = *cs.iter().find(|t| fixed(**t)).filter(|_| f[3] % 3 != 2).unwrap_or(&cs[f[3] as usize % cs.len()]);
        let ds: Vec<usize> = ds.into_iter().filter(|t| *t != tc).collect();
        if ds.is_empty() {
            return None;
        }
        let td = ds[f[4] as usize % ds.len()];
        // round figures all the way, so that the quotient is a short decimal
        let round = |x: &BigUint, g: u32| -> BigUint {
            let s = x.to_string();
            let top = (s.as_bytes()[0] - b'0') as u32;
            let k = [1u32, 2, 4, 5, 8];
            let l: Vec<u32> = k.iter().cloned().filter(|v| *v <= top).collect();
            bu(l[g as usize % l.len()] as u128) * pow10(s.len() as u32 - 1)
        };
        if !fixed(tc) {
            let p = round(&self.e.price[tc], f[5]);
            self.e.price[tc] = p.max(pow10(9));
            let e = self.e.clone();
            self.w.apply_prices(&e);
            self.st = self.w.read();
        }
        let u = self.user(f[0]);
        let cfg = self.st.ctl.assets[tc].clone()?;
        let cash = &self.st.bal[A_POOL0 + td][td];
        let most = round(&(cash * &self.e.price[td] / pow10(DECIMALS[td]) / 4u32).max(bu(10)), f[8]);
        let v = log10(f[2], 160, 210).min(most);
        let camt = round(&(&v * pow10(DECIMALS[tc]) / &self.e.price[tc]).max(bu(10)), f[6]);
        let cv = &camt * &self.e.price[tc] / pow10(DECIMALS[tc]);
        let dv = cv * &cfg.ltv / 10_000u32 * (950 - f[6] % 700) / 1000u32;
        let damt = round(&(dv * pow10(DECIMALS[td]) / &self.e.price[td]).max(bu(1)), f[9]);
        let n = self.st.account_nonce + 1;
        if !self.transact(&Tx {
            caller: u,
            call: Call::Supply { nonce: None, emode: None },
            pays: vec![PayI { t: tc, nonce: 0, amt: camt }],
        }) {
            return Some(Step::None);
        }
        if !self.transact(&Tx { caller: u, call: Call::Borrow(vec![(td, damt)]), pays: vec![self.nft_pay(n)] }) {
            return Some(Step::None);
        }
        let a = self.st.accounts.get(&n)?.clone();
        let (w, d) = self.model(|m| Ok((m.collateral(&a.dep)?.0, m.debt(&a.bor)?)))?;
        if d.is_zero() || w.is_zero() {
            return Some(Step::None);
        }
        // health factor one, or the one a change of thresholds has to leave
        let buffer = (f[9] >> 28) % 4 == 3;
        let np = if buffer { &self.e.price[td] * &w * 20u32 / (&d * 21u32) } else { &self.e.price[td] * &w / &d };
        let np = match f[7] % 8 {
            6 => np + 1u32,
            7 if np > bu(1) => np - 1u32,
            _ => np,
        };
        if np < pow10(9) || np > pow10(27) {
            return Some(Step::None);
        }
        self.e.price[td] = np;
        let e = self.e.clone();
        self.w.apply_prices(&e);
        self.st = self.w.read();
        let h = self.hf(n)?;
        if h == ray() {
            self.hit("health factor exactly one");
        } else if h == ray() + ray() / 20u32 {
            self.hit("health factor exactly 1.05");
        }
        self.log(|| format!("account {n} brought to health factor {h}"));
        if let Some(i) = self.st.accounts.keys().position(|x| *x == n) {
            if self.bias.exact_views {
                self.check_views(i as u32);
            }
        }
        let owed = self.units_of(n, td, false);
        let tx = match f[8] / 8 % 6 {
            _ if buffer => {
                Tx { caller: self.user(f[0] + 1), call: Call::UpdThr { t: tc, risks: f[8] / 8 % 6 != 5, accts: vec![n] }, pays: vec![] }
            }
            0..=2 => Tx {
                caller: self.user(f[0] + 1),
                call: Call::Liquidate(n),
                pays: vec![PayI { t: td, nonce: 0, amt: (owed * (1 + f[9] / 8 % 1000) / 500u32).max(bu(1)) }],
            },
            3 => Tx { caller: u, call: Call::Withdraw(vec![(tc, bu(1))]), pays: vec![self.nft_pay(n)] },
            4 => Tx { caller: u, call: Call::Clean(n), pays: vec![] },
            _ => return Some(Step::World("health set".into())),
        };
        Some(Step::Tx(tx.norm()))
    }
    fn r_crash(&mut self, f: &[u32; 10]) -> Step {
        if f[5] % 6 == 5 {
            if let Some(s) = self.r_exact(f) {
                return s;
            }
        }
        let n = match self.with_debt(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let h = match self.hf(n) {
            Some(h) => h,
            None => return Step::None,
        };
        let a = self.st.accounts[&n].clone();
        if a.bor.is_empty() || a.dep.is_empty() || h.is_zero() {
            return Step::None;
        }
        // thousandths
        let target = [990u32, 970, 950, 900, 999, 1001, 800, 600, 300, 1020, 1041, 1050][(f[1] % 12) as usize] + f[2] % 20;
        let num = ray() * target / 1000u32;
        let fixed = |t: usize| t == T_EGLD || t == T_WEGLD;
        let down: Vec<usize> = a.dep.keys().cloned().filter(|t| !fixed(*t) && !a.bor.contains_key(t)).collect();
        let up: Vec<usize> = a.bor.keys().cloned().filter(|t| !fixed(*t) && !a.dep.contains_key(t)).collect();
        // one factor for the movable assets of one side
        let sub = |l: &[usize], m: &BTreeMap<usize, Pos>| -> BTreeMap<usize, Pos> {
            m.iter().filter(|(t, _)| l.contains(t)).map(|(t, p)| (*t, p.clone())).collect()
        };
        let v = self.model(|m| {
            Ok((m.collateral(&a.dep)?.0, m.collateral(&sub(&down, &a.dep))?.0, m.debt(&a.bor)?, m.debt(&sub(&up, &a.bor))?))
        });
        let (w, wm, d, dm) = match v {
            Some(v) => v,
            None => return Step::None,
        };
        // wanted threshold-weighted collateral, wanted debt
        let (ww, wd) = (&d * &num / ray(), &w * ray() / &num);
        let can_down = !wm.is_zero() && ww > &w - &wm;
        let can_up = !dm.is_zero() && wd > &d - &dm;
        let (list, top, bot) = if can_down && (!can_up || f[3] % 2 == 0) {
            (&down, &ww + &wm - &w, wm.clone())
        } else if can_up {
            (&up, &wd + &dm - &d, dm.clone())
        } else {
            return Step::None;
        };
        for &t in list {
            let np = &self.e.price[t] * &top / &bot;
            self.e.price[t] = np.max(pow10(9)).min(pow10(27));
        }
        let e = self.e.clone();
        self.w.apply_prices(&e);
        Step::World(format!("prices moved: account {n} towards health {target}/1000"))
    }
    /// A strategy that is fine at the quoted prices, but whose own swap moves a
    /// price so far that the account would end up liquidatable: it has to be
    /// refused, since health is judged by the prices after the swap.
    fn r_move(&mut self, f: &[u32; 10]) -> Step {
        for i in 0..8u32 {
            let mut g = *f;
            for (j, x) in g.iter_mut().enumerate().skip(1) {
                *x = (*x ^ i.wrapping_mul(0x9E37_79B9).rotate_left(j as u32)).wrapping_mul(0x85EB_CA6B | 1);
                *x ^= *x >> 15;
            }
            let s = match (f[0] + i) % 4 {
                0 => Step::Tx(self.r_multiply(&g)),
                1 => self.r_swap_debt(&g),
                2 => self.r_swap_coll(&g),
                _ => self.r_repay_coll(&g),
            };
            let tx = match s {
                Step::Tx(tx) => tx,
                s => return s,
            };
            if matches!(&tx.call, Call::RepayColl { steps: None, .. }) {
                continue;
            }
            if !matches!(&tx.call, Call::Multiply { .. } | Call::SwapDebt { .. } | Call::SwapColl { .. } | Call::RepayColl { .. }) {
                continue;
            }
            let mut after = self.st.clone();
            if exec(&mut after, &self.w.a, &tx).is_err() {
                continue;
            }
            let n = tx.pays.iter().find(|p| p.t == TK_ACC).map_or(self.st.account_nonce + 1, |p| p.nonce);
            let (dep, bor) = match after.accounts.get(&n) {
                Some(a) => (a.dep.clone(), a.bor.clone()),
                None => continue,
            };
            let a = self.w.a.clone();
            for (t, at) in [(T_XEGLD, &a.xegld), (T_LEGLD, &a.legld), (T_LXOXNO, &a.lxoxno)] {
                let down = dep.contains_key(&t);
                if down == bor.contains_key(&t) {
                    continue;
                }
                let old = after.ext.staking[&at.to_vec()].clone();
                for per_mille in [990u32, 900, 700, 400, 100, 10] {
                    let new = if down { &old * per_mille / 1000u32 } else { &old * 1000u32 / per_mille };
                    let mut s = after.clone();
                    std::sync::Arc::make_mut(&mut s.ext).staking.insert(at.to_vec(), new.clone());
                    let hf = M::open(&mut s, &a, A_USER0).and_then(|mut m| m.health(n));
                    if !matches!(hf, Ok(h) if h < ray() * 9999u32 / 10000u32) || new.is_zero() {
                        continue;
                    }
                    self.w.vm.set_storage(&a.router, b"moved".to_vec(), at.to_vec());
                    self.w.vm.set_storage(&a.router, b"moved_rate".to_vec(), top_big(&new));
                    self.moved(&tx, n);
                    self.w.vm.set_storage(&a.router, b"moved".to_vec(), vec![]);
                    self.w.vm.set_storage(&a.router, b"moved_rate".to_vec(), vec![]);
                    return Step::World(format!("swap moving the rate of {} to {new}", crate::check::short(t)));
                }
            }
        }
        Step::None
    }
    /// One account borrows everything an (almost) empty market holds and fails; then somebody
    /// uses the market again.
    fn r_wipe(&mut self, f: &[u32; 10]) -> Step {
        let fixed = |t: usize| t == T_EGLD || t == T_WEGLD;
        let ok = |s: &Self, t: usize, coll: bool| {
            s.st.ctl.assets[t].as_ref().map_or(false, |c| {
                !c.isolated && !c.siloed && if coll { c.coll && c.ltv > bu(1000) && !fixed(t) } else { c.coll && c.borrow && c.scap.is_none() && c.bcap.is_none() }
            })
        };
        let one = |t: usize| pow10(DECIMALS[t]);
        let mut ts: Vec<usize> =
            (0..NT).filter(|t| ok(self, *t, false) && self.st.bal[A_POOL0 + *t][*t] < one(*t) && self.st.pools[*t].borrowed.is_zero()).collect();
        if ts.is_empty() || f[0] % 4 == 3 {
            // or one where somebody supplied: the loan is all that is left
            ts = (0..NT).filter(|t| ok(self, *t, false) && self.st.bal[A_POOL0 + *t][*t] > bu(1000)).collect();
        }
        if ts.is_empty() {
            return Step::None;
        }
        let t = ts[f[0] as usize / 4 % ts.len()];
        let cs: Vec<usize> = (0..NT).filter(|x| *x != t && ok(self, *x, true)).collect();
        if cs.is_empty() {
            return Step::None;
        }
        let c = cs[f[1] as usize % cs.len()];
        let pay = |t: usize, amt: BigUint| PayI { t, nonce: 0, amt };
        let open = |caller: usize, p: PayI| Tx { caller, call: Call::Supply { nonce: None, emode: None }, pays: vec![p] };
        let per_mille = [1u32, 200, 400, 499, 500, 900, 3_000, 80_400][(f[2] % 8) as usize];
        let x = (one(t) * per_mille / 1000u32 + f[2] / 8 % 97).max(BigUint::one());
        if f[3] % 4 != 3 && !self.transact(&open(self.user(f[3] / 4), pay(t, x))) {
            return Step::World("market to wipe out: no supply".into());
        }
        let cash = self.st.bal[A_POOL0 + t][t].clone();
        // three times what is borrowed, by the quoted prices
        let need = &cash * 3u32 * &self.e.price[t] * one(c) / (&self.e.price[c] * one(t)) + 1u32;
        let v = self.user(f[4]);
        let n = self.st.account_nonce + 1;
        if cash.is_zero() || !self.transact(&open(v, pay(c, need))) {
            return Step::World("market to wipe out: no collateral".into());
        }
        let acc = self.nft_pay(n);
        if !self.transact(&Tx { caller: v, call: Call::Borrow(vec![(t, cash)]), pays: vec![acc] }) {
            return Step::World("market to wipe out: no loan".into());
        }
        if f[5] % 4 != 3 {
            let now = self.w.vm.now() + if f[5] % 4 == 2 { 1 + (f[5] / 4 % 2_000_000) as u64 } else { 6 };
            self.w.vm.set_now(now);
        }
        self.e.price[c] = (&self.e.price[c] / 1000u32).max(pow10(6));
        let e = self.e.clone();
        self.w.apply_prices(&e);
        self.st = self.w.read();
        self.force = Some(n);
        let mut g = *f;
        g[2] &= 0x3fff_ffff;
        g[3] = 0;
        let s = self.r_bad(&g);
        self.force = None;
        match s {
            Step::Tx(tx) => {
                if !self.transact(&tx) {
                    return Step::World("market not wiped out".into());
                }
            }
            s => return s,
        }
        let p = self.st.pools[t].clone();
        if p.sidx < pow10(6) {
            self.hit("market wiped out");
            if rmul(&p.supplied, &p.sidx).is_zero() && !p.supplied.is_zero() {
                self.hit("market whose supply is worth nothing");
            }
        }
        if f[6] % 4 != 3 {
            let now = self.w.vm.now() + 1 + if f[6] % 4 == 2 { (f[6] / 4 % 20_000_000) as u64 } else { 5 };
            self.w.vm.set_now(now);
            let e = self.e.clone();
            self.w.apply_prices(&e);
            self.st = self.w.read();
        }
        // the market goes on
        let amt = one(t) * [1u32, 7, 1000, 60][(f[7] % 4) as usize] / [1u32, 1000][(f[7] / 4 % 2) as usize] + f[7] / 8 % 1000;
        Step::Tx(match f[8] % 8 {
            0 | 1 => open(self.user(f[9]), pay(t, amt)),
            2 | 3 => Tx { caller: A_OWNER, call: Call::Rewards, pays: vec![pay(t, amt)] },
            4 => Tx { caller: self.user(f[9]), call: Call::UpdIdx(vec![t]), pays: vec![] },
            5 => Tx { caller: A_OWNER, call: Call::Claim(vec![t]), pays: vec![] },
            6 => {
                let mut p = self.st.pools[t].p.clone();
                p.base = &p.base + 1u32;
                Tx { caller: A_OWNER, call: Call::UpdParams { t, p }, pays: vec![] }
            }
            _ => {
                let l = self.st.accounts.iter().filter(|(_, a)| a.dep.contains_key(&t)).map(|x| *x.0).last();
                match l.and_then(|n| self.holder(n).map(|h| (n, h))) {
                    Some((n, h)) => {
                        let a = self.nft_pay(n);
                        Tx { caller: h, call: Call::Withdraw(vec![(t, if f[9] % 2 == 0 { amt } else { BigUint::zero() })]), pays: vec![a] }
                    }
                    None => open(self.user(f[9]), pay(t, amt)),
                }
            }
        })
    }
    /// Makes an account hopeless: collateral worth a few dollars at most.
    fn r_bad(&mut self, f: &[u32; 10]) -> Step {
        let n = match self.with_debt(f[0]) {
            Some(n) => n,
            None => return Step::None,
        };
        let a = self.st.accounts[&n].clone();
        let tot = match self.model(|m| {
            let t = m.collateral(&a.dep)?.1;
            Ok(m.to_usd(&Dec::ray(t)))
        }) {
            Some(t) => t,
            None => return Step::None,
        };
        if tot.is_zero() {
            return Step::None;
        }
        // dollars, in hundredths
        let exact = f[2] >> 30 == 3;
        let target = if exact { 500_000 } else { [500u64, 499, 501, 100, 5, 400, 510, 1000][(f[1] % 8) as usize] * 1000 + (f[2] % 400) as u64 };
        let target = wad() * target / 100_000u32;
        let mut fixed_left = false;
        for t in a.dep.keys().cloned().collect::<Vec<_>>() {
            if t == T_EGLD || t == T_WEGLD {
                fixed_left = true;
                continue;
            }
            let p = &self.e.price[t];
            self.e.price[t] = (p * &target / &tot).max(pow10(6)).min(pow10(27));
        }
        if fixed_left {
            self.e.usd = (&self.e.usd * &target / &tot).max(pow10(9)).min(pow10(24));
        }
        let e = self.e.clone();
        self.w.apply_prices(&e);
        self.st = self.w.read();
        if exact {
            // to the last digit, with the dollar price of EGLD
            for _ in 0..6 {
                let got = match self.model(|m| {
                    let t = m.collateral(&a.dep)?.1;
                    Ok(m.to_usd(&Dec::ray(t)))
                }) {
                    Some(x) if !x.is_zero() => x,
                    _ => break,
                };
                if got == target {
                    self.hit("collateral of exactly five dollars");
                    break;
                }
                let x = (&self.e.usd * &target + &got / 2u32) / &got;
                let x = if x == self.e.usd { if got < target { x + 1u32 } else { x - 1u32 } } else { x };
                self.e.usd = x.max(pow10(9)).min(pow10(24));
                let e = self.e.clone();
                self.w.apply_prices(&e);
                self.st = self.w.read();
            }
            if f[1] % 4 == 3 {
                self.e.usd += 1u32;
                let e = self.e.clone();
                self.w.apply_prices(&e);
                self.st = self.w.read();
            }
        }
        // mostly beyond what the account owes, by the price of the debt
        let worth = |s: &Self| -> Option<(BigUint, BigUint)> {
            s.model(|m| {
                let t = m.collateral(&a.dep)?.1;
                let d = m.debt(&a.bor)?;
                Ok((m.to_usd(&Dec::ray(t)), m.to_usd(&Dec::ray(d))))
            })
        };
        if let Some((c, d)) = worth(self).filter(|x| x.1 <= x.0 && !x.1.is_zero() && f[5] % 4 != 3) {
            let by = [1001u32, 1500, 5000, 1000][(f[5] / 4 % 4) as usize];
            let mut any = false;
            for t in a.bor.keys().filter(|t| !a.dep.contains_key(t) && **t != T_EGLD && **t != T_WEGLD) {
                let p = &self.e.price[*t] * &c * by / (&d * 1000u32) + if by == 1001 { 1u32 } else { 0 };
                self.e.price[*t] = p.max(pow10(6)).min(pow10(27));
                any = true;
            }
            if any {
                let e = self.e.clone();
                self.w.apply_prices(&e);
                self.st = self.w.read();
            }
        }
        if let Some((c, d)) = worth(self) {
            if d == c {
                self.hit("debt worth exactly the collateral");
            } else if d > c && c == wad() * 5u32 {
                self.hit("hopeless with exactly five dollars");
            }
        }
        self.log(|| format!("prices moved: collateral of {n} towards {target} (WAD dollars)"));
        if exact || f[3] % 2 == 0 {
            return Step::Tx(Tx { caller: self.user(f[4]), call: Call::Clean(n), pays: vec![] });
        }
        Step::World("clean-up left for later".into())
    }
}
