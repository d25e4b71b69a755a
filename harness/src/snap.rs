//! Complete decoded state of the system, read from the VM.
use crate::enc::*;
use crate::fx::*;
use crate::vm::*;
use crate::world::*;
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Params {
    pub max: BigUint,
    pub base: BigUint,
    pub s1: BigUint,
    pub s2: BigUint,
    pub s3: BigUint,
    pub mid: BigUint,
    pub opt: BigUint,
    pub reserve: BigUint, // bps
    pub asset: usize,
    pub decimals: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pool {
    pub supplied: BigUint,
    pub borrowed: BigUint,
    pub revenue: BigUint,
    pub bidx: BigUint,
    pub sidx: BigUint,
    pub last: u64,
    pub p: Params,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AssetCfg {
    pub ltv: BigUint,
    pub thr: BigUint,
    pub bonus: BigUint,
    pub fees: BigUint,
    pub coll: bool,
    pub borrow: bool,
    pub emode: bool,
    pub isolated: bool,
    pub ceiling: BigUint,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: BigUint,
    pub iso_borrow: bool,
    pub bcap: Option<BigUint>,
    pub scap: Option<BigUint>,
}
impl AssetCfg {
    pub fn enc(&self) -> Vec<u8> {
        let d = |v: &BigUint| Dec::new(v.clone(), 4);
        Enc::new()
            .dec(&d(&self.ltv))
            .dec(&d(&self.thr))
            .dec(&d(&self.bonus))
            .dec(&d(&self.fees))
            .bool(self.coll)
            .bool(self.borrow)
            .bool(self.emode)
            .bool(self.isolated)
            .dec(&Dec::wad(self.ceiling.clone()))
            .bool(self.siloed)
            .bool(self.flash)
            .dec(&d(&self.flash_fee))
            .bool(self.iso_borrow)
            .opt_big(&self.bcap)
            .opt_big(&self.scap)
            .done()
    }
    pub fn dec(b: &[u8]) -> Self {
        let mut r = Rd::new(b);
        AssetCfg {
            ltv: r.dec().at(4).v,
            thr: r.dec().at(4).v,
            bonus: r.dec().at(4).v,
            fees: r.dec().at(4).v,
            coll: r.bool(),
            borrow: r.bool(),
            emode: r.bool(),
            isolated: r.bool(),
            ceiling: r.dec().at(18).v,
            siloed: r.bool(),
            flash: r.bool(),
            flash_fee: r.dec().at(4).v,
            iso_borrow: r.bool(),
            bcap: r.opt_big(),
            scap: r.opt_big(),
        }
    }
}
impl Params {
    pub fn enc(&self) -> Vec<u8> {
        let d = |v: &BigUint| Dec::ray(v.clone());
        Enc::new()
            .dec(&d(&self.max))
            .dec(&d(&self.base))
            .dec(&d(&self.s1))
            .dec(&d(&self.s2))
            .dec(&d(&self.s3))
            .dec(&d(&self.mid))
            .dec(&d(&self.opt))
            .dec(&Dec::new(self.reserve.clone(), 4))
            .buf(ntok(self.asset))
            .u32(self.decimals)
            .done()
    }
    pub fn dec(b: &[u8]) -> Self {
        if b.is_empty() {
            return Params { asset: usize::MAX, ..Default::default() };
        }
        let mut r = Rd::new(b);
        let mut n = || r.dec().at(27).v;
        let (max, base, s1, s2, s3, mid, opt) = (n(), n(), n(), n(), n(), n(), n());
        Params {
            max,
            base,
            s1,
            s2,
            s3,
            mid,
            opt,
            reserve: r.dec().at(4).v,
            asset: tok_index(r.buf()).unwrap_or(usize::MAX),
            decimals: r.u32(),
        }
    }
}
/// Token identifier as it appears nested in storage and structs.
pub fn ntok(i: usize) -> &'static [u8] {
    if i == T_EGLD {
        b"EGLD"
    } else {
        tok(i)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tol {
    pub fu: BigUint,
    pub fl: BigUint,
    pub lu: BigUint,
    pub ll: BigUint,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Oracle {
    pub base: usize,
    pub quote: usize,
    pub tol: Tol,
    pub contract: Addr,
    pub method: u8,
    pub otype: u8,
    pub source: u8,
    pub decimals: u32,
    pub onedex: u32,
    pub stale: u64,
}
impl Oracle {
    pub fn enc(&self) -> Vec<u8> {
        let d = |v: &BigUint| Dec::new(v.clone(), 4);
        Enc::new()
            .buf(ntok(self.base))
            .buf(ntok(self.quote))
            .dec(&d(&self.tol.fu))
            .dec(&d(&self.tol.fl))
            .dec(&d(&self.tol.lu))
            .dec(&d(&self.tol.ll))
            .raw(self.contract.as_bytes())
            .u8(self.method)
            .u8(self.otype)
            .u8(self.source)
            .u32(self.decimals)
            .u32(self.onedex)
            .u64(self.stale)
            .done()
    }
    pub fn dec(b: &[u8]) -> Self {
        let mut r = Rd::new(b);
        Oracle {
            base: tok_index(r.buf()).unwrap_or(usize::MAX),
            quote: tok_index(r.buf()).unwrap_or(usize::MAX),
            tol: Tol {
                fu: r.dec().at(4).v,
                fl: r.dec().at(4).v,
                lu: r.dec().at(4).v,
                ll: r.dec().at(4).v,
            },
            contract: Addr::from_slice(r.take(32)),
            method: r.u8(),
            otype: r.u8(),
            source: r.u8(),
            decimals: r.u32(),
            onedex: r.u32(),
            stale: r.u64(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cat {
    pub ltv: BigUint,
    pub thr: BigUint,
    pub bonus: BigUint,
    pub deprecated: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attr {
    pub isolated: bool,
    pub emode: u8,
    pub mode: u8,
    pub token: Option<usize>,
}
impl Attr {
    pub fn dec(b: &[u8]) -> Option<Self> {
        if b.is_empty() {
            return None;
        }
        let mut r = Rd::new(b);
        let isolated = r.bool();
        let emode = r.u8();
        let mode = r.u8();
        let token = if !r.end() && r.u8() == 1 { tok_index(r.buf()) } else { None };
        Some(Attr { isolated, emode, mode, token })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub scaled: BigUint,
    pub thr: BigUint,
    pub bonus: BigUint,
    pub fees: BigUint,
    pub ltv: BigUint,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub attr: Attr,
    pub dep: BTreeMap<usize, Pos>,
    pub bor: BTreeMap<usize, Pos>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PairSt {
    pub state: u8,
    pub r0: BigUint,
    pub r1: BigUint,
    pub total: BigUint,
}
#[derive(Clone, Debug)]
pub struct Ext {
    pub pairs: HashMap<Vec<u8>, PairSt>,
    pub safe: HashMap<(Vec<u8>, usize), (BigUint, usize)>,
    pub onedex_state: u8,
    pub onedex_rate: HashMap<(usize, usize), BigUint>,
    pub staking: HashMap<Vec<u8>, BigUint>,
    pub rounds: HashMap<Vec<u8>, (BigUint, u64, u32)>,
    pub agg_paused: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ctl {
    pub assets: Vec<Option<AssetCfg>>,
    pub pools: Vec<Option<Addr>>,
    pub oracles: Vec<Option<Oracle>>,
    pub cats: BTreeMap<u8, Cat>,
    pub last_cat: u8,
    pub emode_assets: BTreeMap<u8, BTreeMap<usize, (bool, bool)>>,
    pub asset_emodes: Vec<BTreeSet<u8>>,
    pub max_borrow: u8,
    pub max_supply: u8,
    pub paused: bool,
    pub template: Vec<u8>,
    pub accumulator: Vec<u8>,
    pub aggregator: Vec<u8>,
    pub safeview: Vec<u8>,
    pub router: Vec<u8>,
    pub account_token: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct St {
    pub now: u64,
    pub bal: Vec<Vec<BigUint>>,
    /// account token nonce -> (holder index, amount, attributes on the token)
    pub nft: BTreeMap<u64, Vec<(usize, BigUint, Option<Attr>)>>,
    pub pools: Vec<Pool>,
    pub ctl: Ctl,
    pub iso: Vec<Dec>,
    pub flash: bool,
    pub account_nonce: u64,
    pub accounts: BTreeMap<u64, Acct>,
    /// attributes or positions stored for numbers that are not live accounts
    pub orphans: Vec<u64>,
    /// structural problems met while decoding
    pub odd: Vec<String>,
    pub ext: std::sync::Arc<Ext>,
}

pub fn nested_key(base: &[u8], b: &[u8]) -> Vec<u8> {
    Enc::new().raw(base).buf(b).done()
}

impl World {
    pub fn read_pool(&self, t: usize) -> Pool {
        let a = &self.a.pools[t];
        let empty = Default::default();
        let s = self.vm.state().accounts.get(a).map_or(&empty, |x| &x.storage);
        let d = |k: &str| -> BigUint {
            match s.get(k.as_bytes()) {
                Some(b) => Rd::new(b).dec().at(27).v,
                None => BigUint::default(),
            }
        };
        Pool {
            supplied: d("supplied"),
            borrowed: d("borrowed"),
            revenue: d("revenue"),
            bidx: d("borrow_index"),
            sidx: d("supply_index"),
            last: s.get(&b"last_timestamp"[..]).map(|b| u64_of(b)).unwrap_or(0),
            p: Params::dec(s.get(&b"params"[..]).map(|v| &v[..]).unwrap_or(&[])),
        }
    }

    pub fn read_ext(&self) -> Ext {
        let a = &self.a;
        let vm = &self.vm;
        let mut pairs = HashMap::new();
        let mut safe = HashMap::new();
        let ss = &vm.acc(&a.safeview).storage;
        for p in [&a.pair_usdc, &a.pair_utk, &a.pair_wbtc, &a.pair_mex, &a.pair_lp2] {
            let st = &vm.acc(p).storage;
            let g = |k: &str| st.get(k.as_bytes()).map(|b| big_of(b)).unwrap_or_default();
            pairs.insert(
                p.to_vec(),
                PairSt {
                    state: st.get(&b"state"[..]).map(|b| b[0]).unwrap_or(0),
                    r0: g("r0"),
                    r1: g("r1"),
                    total: g("total"),
                },
            );
            let f = tok_index(st.get(&b"first"[..]).unwrap()).unwrap();
            let s2 = tok_index(st.get(&b"second"[..]).unwrap()).unwrap();
            for (x, y) in [(f, s2), (s2, f)] {
                if let Some(b) = ss.get(&safe_rate_key(p, x)) {
                    safe.insert((p.to_vec(), x), (big_of(b), y));
                }
            }
        }
        let os = &vm.acc(&a.onedex).storage;
        let mut onedex_rate = HashMap::new();
        for (f, t) in [(T_XOXNO, T_USDC), (T_USDC, T_XOXNO)] {
            if let Some(b) = os.get(&onedex_rate_key(f, t)) {
                onedex_rate.insert((f, t), big_of(b));
            }
        }
        let onedex_state = os
            .get(&Enc::new().raw(b"pair_state").u32(ONEDEX_ID).done())
            .map(|b| b[0])
            .unwrap_or(0);
        let mut staking = HashMap::new();
        for p in [&a.xegld, &a.lxoxno, &a.legld] {
            let v = vm.acc(p).storage.get(&b"rate"[..]).map(|b| big_of(b)).unwrap_or_default();
            staking.insert(p.to_vec(), v);
        }
        let ags = &vm.acc(&a.aggregator).storage;
        let mut rounds = HashMap::new();
        for t in 0..NT {
            if let Some(b) = ags.get(&round_key(&ticker(t))) {
                let mut r = Rd::new(b);
                rounds.insert(ticker(t), (r.big(), r.u64(), r.u32()));
            }
        }
        Ext {
            pairs,
            safe,
            onedex_state,
            onedex_rate,
            staking,
            rounds,
            agg_paused: ags.get(&b"pause_module:paused"[..]).map_or(false, |b| !b.is_empty()),
        }
    }

    pub fn read(&self) -> St {
        let vm = &self.vm;
        let c = &vm.acc(&self.a.controller).storage;
        let mut odd = vec![];
        let get = |k: &[u8]| -> Vec<u8> { c.get(k).cloned().unwrap_or_default() };
        let mut assets = vec![];
        let mut pools_addr = vec![];
        let mut oracles = vec![];
        let mut iso = vec![];
        let mut asset_emodes: Vec<BTreeSet<u8>> = vec![];
        for t in 0..NT {
            let a = get(&nested_key(b"asset_config", ntok(t)));
            assets.push(if a.is_empty() { None } else { Some(AssetCfg::dec(&a)) });
            let p = get(&nested_key(b"pools_map", ntok(t)));
            pools_addr.push(if p.len() == 32 { Some(Addr::from_slice(&p)) } else { None });
            let o = get(&nested_key(b"token_oracle", ntok(t)));
            oracles.push(if o.is_empty() { None } else { Some(Oracle::dec(&o)) });
            let i = get(&nested_key(b"isolated_asset_debt_usd", ntok(t)));
            iso.push(if i.is_empty() { Dec::zero(0) } else { Rd::new(&i).dec() });
            asset_emodes.push(BTreeSet::new());
        }
        let mut accounts: BTreeMap<u64, Acct> = BTreeMap::new();
        let mut cats = BTreeMap::new();
        let mut emode_assets: BTreeMap<u8, BTreeMap<usize, (bool, bool)>> = BTreeMap::new();
        let mut attrs: BTreeMap<u64, Attr> = BTreeMap::new();
        let mut live: BTreeSet<u64> = BTreeSet::new();
        let mut poss: Vec<(u64, u8, usize, Pos)> = vec![];
        let mut pos_nodes: BTreeMap<(u64, u8), BTreeSet<usize>> = BTreeMap::new();
        for (k, v) in c.iter() {
            if v.is_empty() {
                continue;
            }
            if let Some(rest) = k.strip_prefix(&b"positions"[..]) {
                if rest.len() < 9 {
                    continue;
                }
                let nonce = u64::from_be_bytes(rest[..8].try_into().unwrap());
                let ty = rest[8];
                let rest = &rest[9..];
                if let Some(r) = rest.strip_prefix(&b".mapped"[..]) {
                    let mut rr = Rd::new(r);
                    let t = tok_index(rr.buf()).unwrap_or(usize::MAX);
                    let mut r = Rd::new(v);
                    let pt = r.u8();
                    let at = tok_index(r.buf()).unwrap_or(usize::MAX);
                    let scaled = r.dec();
                    let pn = r.u64();
                    let thr = r.dec().at(4).v;
                    let bonus = r.dec().at(4).v;
                    let fees = r.dec().at(4).v;
                    let ltv = r.dec().at(4).v;
                    if pt != ty || at != t || pn != nonce || scaled.s != 27 {
                        odd.push(format!("position {nonce}/{ty}/{t}: type {pt} asset {at} nonce {pn} scale {}", scaled.s));
                    }
                    if t == usize::MAX {
                        odd.push("position in unknown asset".into());
                        continue;
                    }
                    poss.push((nonce, ty, t, Pos { scaled: scaled.at(27).v, thr, bonus, fees, ltv }));
                } else if let Some(r) = rest.strip_prefix(&b".node_id"[..]) {
                    let mut rr = Rd::new(r);
                    let t = tok_index(rr.buf()).unwrap_or(usize::MAX);
                    pos_nodes.entry((nonce, ty)).or_default().insert(t);
                }
            } else if let Some(rest) = k.strip_prefix(&b"account_attributes"[..]) {
                let n = u64::from_be_bytes(rest[..8].try_into().unwrap());
                if let Some(a) = Attr::dec(v) {
                    attrs.insert(n, a);
                }
            } else if let Some(rest) = k.strip_prefix(&b"accounts.node_id"[..]) {
                live.insert(u64::from_be_bytes(rest[..8].try_into().unwrap()));
            } else if let Some(rest) = k.strip_prefix(&b"accounts.index"[..]) {
                live.insert(u64::from_be_bytes(rest[..8].try_into().unwrap()));
            } else if let Some(rest) = k.strip_prefix(&b"e_mode_category.mapped"[..]) {
                let id = rest[0];
                let mut r = Rd::new(v);
                let id2 = r.u8();
                if id != id2 {
                    odd.push(format!("category stored under {id} has id {id2}"));
                }
                cats.insert(
                    id,
                    Cat {
                        ltv: r.dec().at(4).v,
                        thr: r.dec().at(4).v,
                        bonus: r.dec().at(4).v,
                        deprecated: r.bool(),
                    },
                );
            } else if let Some(rest) = k.strip_prefix(&b"e_mode_assets"[..]) {
                let id = rest[0];
                if let Some(r) = rest[1..].strip_prefix(&b".mapped"[..]) {
                    if let Some(t) = tok_index(Rd::new(r).buf()) {
                        let mut r = Rd::new(v);
                        emode_assets.entry(id).or_default().insert(t, (r.bool(), r.bool()));
                    }
                }
            } else if let Some(rest) = k.strip_prefix(&b"asset_e_modes"[..]) {
                let mut r = Rd::new(rest);
                let t = tok_index(r.buf());
                let n = 4 + u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
                if let (Some(t), Some(r)) = (t, rest[n..].strip_prefix(&b".index"[..])) {
                    asset_emodes[t].insert(r[0]);
                }
            }
        }
        let mut orphans = vec![];
        for n in &live {
            let attr = attrs.get(n).cloned();
            if attr.is_none() {
                odd.push(format!("account {n} has no stored attributes"));
            }
            accounts.insert(
                *n,
                Acct {
                    attr: attr.unwrap_or(Attr { isolated: false, emode: 0, mode: 0, token: None }),
                    dep: BTreeMap::new(),
                    bor: BTreeMap::new(),
                },
            );
        }
        for n in attrs.keys() {
            if !live.contains(n) {
                orphans.push(*n);
            }
        }
        let mut mapped: BTreeMap<(u64, u8), BTreeSet<usize>> = BTreeMap::new();
        for (n, ty, t, p) in poss {
            mapped.entry((n, ty)).or_default().insert(t);
            match accounts.get_mut(&n) {
                None => orphans.push(n),
                Some(a) => {
                    if ty == 1 {
                        a.dep.insert(t, p);
                    } else {
                        a.bor.insert(t, p);
                    }
                }
            }
        }
        if mapped != pos_nodes {
            odd.push("position map index and values disagree".into());
        }
        let mut nft: BTreeMap<u64, Vec<(usize, BigUint, Option<Attr>)>> = BTreeMap::new();
        let mut bal = Vec::with_capacity(NA);
        for (i, a) in self.tracked.iter().enumerate() {
            let Some(acc) = vm.state().accounts.get(a) else {
                bal.push(vec![BigUint::default(); NT]);
                continue;
            };
            let mut row = Vec::with_capacity(NT);
            for t in 0..NT {
                row.push(if t == 0 {
                    acc.egld_balance.clone()
                } else {
                    acc.esdt.get_esdt_balance(tok(t), 0)
                });
            }
            bal.push(row);
            if let Some(d) = acc.esdt.get_by_identifier(ACCOUNT_TOKEN.as_bytes()) {
                for (n, inst) in d.instances.get_instances() {
                    if inst.balance != BigUint::default() {
                        nft.entry(*n).or_default().push((
                            i,
                            inst.balance.clone(),
                            Attr::dec(&inst.metadata.attributes),
                        ));
                    }
                }
            }
        }
        let limits = get(b"position_limits");
        let last_cat = get(b"last_e_mode_category_id").first().copied().unwrap_or(0);
        St {
            now: vm.now(),
            bal,
            nft,
            pools: (0..NT).map(|t| self.read_pool(t)).collect(),
            ctl: Ctl {
                assets,
                pools: pools_addr,
                oracles,
                cats,
                last_cat,
                emode_assets,
                asset_emodes,
                max_borrow: limits.first().copied().unwrap_or(0),
                max_supply: limits.get(1).copied().unwrap_or(0),
                paused: !get(b"pause_module:paused").is_empty(),
                template: get(b"liq_pool_template_address"),
                accumulator: get(b"accumulator_address"),
                aggregator: get(b"price_aggregator_address"),
                safeview: get(b"safe_price_view"),
                router: get(b"swap_router_address"),
                account_token: get(b"account"),
            },
            iso,
            flash: !get(b"flash_loan_ongoing").is_empty(),
            account_nonce: u64_of(&get(b"account_nonce")),
            accounts,
            orphans,
            odd,
            ext: std::sync::Arc::new(self.read_ext()),
        }
    }
}
