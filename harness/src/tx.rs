//! Encoding of modelled calls as real transactions.
use crate::enc::*;
use crate::fx::*;
use crate::model::*;
use crate::snap::*;
use crate::vm::*;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::Zero;

pub fn tk(t: usize) -> Vec<u8> {
    match t {
        TK_JUNK => JUNK.as_bytes().to_vec(),
        TK_FAKE => FAKE_NFT.as_bytes().to_vec(),
        TK_ACC => ACCOUNT_TOKEN.as_bytes().to_vec(),
        _ => tok(t).to_vec(),
    }
}
fn nested_tok(t: usize) -> Vec<u8> {
    if t < NT {
        ntok(t).to_vec()
    } else {
        tk(t)
    }
}
fn payment(t: usize, amt: &BigUint) -> Vec<u8> {
    Enc::new().buf(&nested_tok(t)).u64(0).big(amt).done()
}
fn payments(l: &[TA]) -> Vec<Vec<u8>> {
    l.iter().map(|(t, a)| payment(*t, a)).collect()
}
fn steps(l: &[TA]) -> Vec<u8> {
    let mut e = Enc::new();
    for (t, a) in l {
        e = e.buf(&tk(*t)).buf(&top_big(a));
    }
    e.done()
}
fn top_u8(v: u8) -> Vec<u8> {
    top_u64(v as u64)
}

impl Tx {
    pub fn norm(mut self) -> Tx {
        if self.pays.len() == 1 && self.pays[0].t == T_EGLD && self.pays[0].amt.is_zero() {
            self.pays.clear();
        }
        self
    }
}

pub fn target(a: &Addrs, c: &Call) -> Addr {
    match c {
        Call::PoolDirect { t, .. } => a.pools[*t].clone(),
        _ => a.controller.clone(),
    }
}
pub fn pays(tx: &Tx) -> Vec<Pay> {
    tx.pays.iter().map(|p| Pay { token: tk(p.t), nonce: p.nonce, amount: p.amt.clone() }).collect()
}

pub fn args(w: &World, c: &Call) -> Vec<Vec<u8>> {
    use Call::*;
    let a = &w.a;
    match c {
        Supply { nonce, emode } => match (nonce, emode) {
            (None, None) => vec![],
            (Some(n), None) => vec![top_u64(*n)],
            (n, Some(e)) => vec![top_u64(n.unwrap_or(0)), top_u8(*e)],
        },
        Withdraw(l) | Borrow(l) => payments(l),
        Repay(n) | Liquidate(n) | Clean(n) => vec![top_u64(*n)],
        Flash { t, amt, to, func, repay, nested } => {
            let mut inner = Enc::new();
            if func == "flash" {
                let (target, f, pay, fargs) = match nested {
                    None => (a.controller.clone(), vec![], vec![], vec![]),
                    Some(x) => (
                        target(a, &x.call),
                        x.call.name().as_bytes().to_vec(),
                        x.pays
                            .iter()
                            .flat_map(|p| Enc::new().buf(&nested_tok(p.t)).u64(p.nonce).big(&p.amt).done())
                            .collect(),
                        args(w, &x.call),
                    ),
                };
                let mut fa = Enc::new();
                for x in &fargs {
                    fa = fa.buf(x);
                }
                let rep: Vec<u8> = payments(repay).concat();
                inner = inner.buf(&rep).buf(target.as_bytes()).buf(&f).buf(&pay).buf(&fa.done());
            }
            vec![
                tk(*t),
                top_big(amt),
                w.tracked[*to].to_vec(),
                func.as_bytes().to_vec(),
                inner.done(),
            ]
        }
        UpdThr { t, risks, accts } => {
            let mut v = vec![tk(*t), top_bool(*risks)];
            v.extend(accts.iter().map(|n| top_u64(*n)));
            v
        }
        UpdIdx(l) | Claim(l) => l.iter().map(|t| tk(*t)).collect(),
        Rewards => vec![],
        Multiply { emode, coll, amt, debt, mode, steps: s, opt } => {
            let mut v = vec![top_u8(*emode), tk(*coll), top_big(amt), tk(*debt), top_u8(*mode), swap_args(s)];
            if let Some(o) = opt {
                v.push(swap_args(o));
            }
            v
        }
        SwapDebt { existing, amt, new, steps: s } => {
            vec![tk(*existing), top_big(amt), tk(*new), swap_args(s)]
        }
        SwapColl { cur, amt, new, steps: s } => vec![tk(*cur), top_big(amt), tk(*new), swap_args(s)],
        RepayColl { from, amt, to, close, steps: s } => {
            let mut v = vec![tk(*from), top_big(amt), tk(*to), top_bool(*close)];
            if let Some(s) = s {
                v.push(swap_args(s));
            }
            v
        }
        EditAsset { t, cfg } => vec![
            tk(*t),
            top_big(&cfg.ltv),
            top_big(&cfg.thr),
            top_big(&cfg.bonus),
            top_big(&cfg.fees),
            top_bool(cfg.isolated),
            top_big(&cfg.ceiling),
            top_bool(cfg.siloed),
            top_bool(cfg.flash),
            top_big(&cfg.flash_fee),
            top_bool(cfg.coll),
            top_bool(cfg.borrow),
            top_bool(cfg.iso_borrow),
            top_big(&cfg.bcap.clone().unwrap_or_default()),
            top_big(&cfg.scap.clone().unwrap_or_default()),
        ],
        Limits(b, s) => vec![top_u8(*b), top_u8(*s)],
        AddCat(k) => vec![top_big(&k.ltv), top_big(&k.thr), top_big(&k.bonus)],
        EditCat(id, k) => {
            let d = |v: &BigUint| Dec::new(v.clone(), 4);
            vec![Enc::new().u8(*id).dec(&d(&k.ltv)).dec(&d(&k.thr)).dec(&d(&k.bonus)).bool(k.deprecated).done()]
        }
        RemCat(id) => vec![top_u8(*id)],
        AddAssetCat { t, id, coll, borrow } => vec![tk(*t), top_u8(*id), top_bool(*coll), top_bool(*borrow)],
        EditAssetCat { t, id, coll, borrow } => {
            vec![tk(*t), top_u8(*id), Enc::new().bool(*coll).bool(*borrow).done()]
        }
        RemAssetCat { t, id } => vec![tk(*t), top_u8(*id)],
        Tol { t, first, last } => vec![tk(*t), top_u64(*first), top_u64(*last)],
        SetOracle { t, o, first, last } => {
            let mut v = vec![
                tk(*t),
                top_u64(o.decimals as u64),
                o.contract.to_vec(),
                top_u8(o.method),
                top_u8(o.otype),
                top_u8(o.source),
                top_u64(*first),
                top_u64(*last),
                top_u64(o.stale),
            ];
            if o.onedex > 0 {
                v.push(top_u64(o.onedex as u64));
            }
            v
        }
        SetAddr { to, .. } => vec![to.as_ref().map(|x| x.to_vec()).unwrap_or(vec![0; 32])],
        UpdParams { t, p } => {
            let mut v = vec![tk(*t)];
            v.extend([&p.max, &p.base, &p.s1, &p.s2, &p.s3, &p.mid, &p.opt, &p.reserve].map(top_big));
            v
        }
        CreatePool { t, p, cfg } => {
            let mut v = vec![tk(*t)];
            v.extend([&p.max, &p.base, &p.s1, &p.s2, &p.s3, &p.mid, &p.opt, &p.reserve].map(top_big));
            v.extend([&cfg.ltv, &cfg.thr, &cfg.bonus, &cfg.fees].map(top_big));
            v.extend([top_bool(cfg.coll), top_bool(cfg.borrow), top_bool(cfg.isolated), top_big(&cfg.ceiling)]);
            v.extend([
                top_big(&cfg.flash_fee),
                top_bool(cfg.siloed),
                top_bool(cfg.flash),
                top_bool(cfg.iso_borrow),
                top_u64(p.decimals as u64),
                top_big(&cfg.bcap.clone().unwrap_or_default()),
                top_big(&cfg.scap.clone().unwrap_or_default()),
            ]);
            v
        }
        Pause(_) => vec![],
        UpgradePool(t) => vec![tk(*t)],
        UpgradeCtl => vec![b"controller".to_vec(), vec![5, 0]],
        PoolDirect { args, .. } | Denied { args, .. } => args.clone(),
    }
}
/// Router arguments: the outputs the router is told to send.
fn swap_args(l: &[TA]) -> Vec<u8> {
    steps(l)
}

impl World {
    pub fn run_tx(&mut self, tx: &Tx) -> Res {
        if let Call::CreatePool { t, .. } = &tx.call {
            let (c, mut p) = (self.a.controller.clone(), self.a.pools[*t].clone());
            let n = self.vm.acc(&c).nonce;
            // a second market for the same asset would live somewhere else
            if self.vm.state_mut().accounts.contains_key(&p) {
                p = addr(&format!("again{n}"), true, 0);
            }
            self.vm.state_mut().put_new_address(c, n, p);
        }
        // a forger copies the attributes of the account his token imitates
        for p in tx.pays.iter().filter(|p| p.t == TK_FAKE) {
            let key = [&b"account_attributes"[..], &p.nonce.to_be_bytes()].concat();
            let attributes = self.vm.storage(&self.a.controller, &key);
            if !attributes.is_empty() {
                let who = self.tracked[tx.caller].clone();
                let mut meta: multiversx_sc_scenario::multiversx_chain_vm::blockchain::state::EsdtInstanceMetadata = Default::default();
                meta.attributes = attributes;
                self.vm.acc_mut(&who).esdt.set_esdt_balance(FAKE_NFT.as_bytes().to_vec(), p.nonce, &BigUint::from(1u32), meta);
            }
        }
        let to = target(&self.a, &tx.call);
        let from = self.tracked[tx.caller].clone();
        let a = args(self, &tx.call);
        let p = pays(tx);
        self.vm.call(&from, &to, tx.call.name(), a, &p)
    }
}
