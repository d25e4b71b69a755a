//! Comparison of real and expected outcomes, and model-free invariants.
use crate::enc::*;
use crate::fx::*;
use crate::model::*;
use crate::sim::*;
use crate::snap::*;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{CheckedSub, One, Zero};
use std::collections::BTreeSet;

pub fn short(t: usize) -> &'static str {
    TOKENS[t].split('-').next().unwrap()
}

/// Properties that promise a legal request of this kind is accepted.
fn refusal_tags(c: &Call) -> u32 {
    use Call::*;
    match c {
        Supply { .. } => c_(&[6, 13, 14, 15, 16, 21]),
        Borrow(_) => c_(&[7, 8, 13, 14, 15, 16, 21]),
        Withdraw(_) => c_(&[6, 9, 21]),
        Repay(_) => c_(&[7, 13]),
        Liquidate(_) => c_(&[10, 11, 13]),
        Clean(_) => c_(&[12, 13]),
        Multiply { .. } | SwapDebt { .. } => c_(&[9, 13, 14, 15, 16, 22]),
        SwapColl { .. } | RepayColl { .. } => c_(&[9, 13, 14, 15, 16, 22]),
        _ => 0,
    }
}
pub fn c_(l: &[u32]) -> u32 {
    l.iter().fold(0, |a, n| a | c(*n))
}

impl<'w> Sim<'w> {
    /// Runs one operation; violations are collected in `self.viol`.
    pub fn step(&mut self, op: &Op) {
        let s = self.resolve(op);
        match s {
            Step::None => {}
            Step::World(what) => {
                self.st = self.w.read();
                self.log(|| what);
                self.hit("world");
            }
            Step::Tx(tx) => {
                self.transact(&tx);
            }
            Step::Lend(tx, n, user) => {
                self.transact(&tx);
                if self.holder(n) == Some(A_RECV) {
                    self.send_account(n, A_RECV, user);
                }
            }
            Step::Txs(v) => {
                let round = op.k == K_ROUND;
                let before = self.st.clone();
                for (i, tx) in v.iter().enumerate() {
                    let ok = self.transact(tx);
                    if !ok && round {
                        return;
                    }
                    if round && i == 1 {
                        self.roundtrip(&before, v[0].caller, &v[0].pays[0]);
                    }
                }
            }
        }
        self.steps += 1;
    }

    /// Deposit and immediate full withdrawal: never a gain, at most one unit lost.
    fn roundtrip(&mut self, before: &St, who: usize, p: &PayI) {
        self.hit("round trip");
        let (a, b) = (&before.bal[who][p.t], &self.st.bal[who][p.t]);
        // very large indexes make one scaled unit worth several asset units
        let sidx = before.pools[p.t].sidx.clone().max(self.st.pools[p.t].sidx.clone());
        let per = sidx / pow10(27 - DECIMALS[p.t]) / ray();
        let most = if per.is_zero() { BigUint::zero() } else { &per / 2u32 + 1u32 };
        if *b > a + &most {
            let m = format!("supply and withdraw of {} {} at once gained {}", p.amt, short(p.t), b - a);
            self.flag(c_(&[4, 6]), m);
        } else if a > b && a - b > BigUint::one() {
            if a - b > per + 1u32 {
                let m = format!("supply and withdraw of {} {} at once lost {}", p.amt, short(p.t), a - b);
                self.flag(c_(&[4, 6]), m);
            }
        }
    }

    pub fn transact(&mut self, tx: &Tx) -> bool {
        let pre = self.st.clone();
        let mut exp = pre.clone();
        let want = exec(&mut exp, &self.w.a, tx);
        let got = self.w.run_tx(tx);
        let post = self.w.read();
        let name = tx.call.name();
        let prim = tx.call.primary();
        self.log(|| {
            format!(
                "{} {:?} -> {}",
                name,
                tx,
                if got.ok { "ok".into() } else { format!("refused ({})", got.msg) }
            )
        });
        if got.msg.contains("panic") || got.msg.contains("overflow") {
            self.hit("arithmetic refusal");
        }
        self.hit(if got.ok { "accepted" } else { "refused" });
        if got.ok {
            self.hit(name);
            for n in tx.pays.iter().filter(|p| p.t == TK_ACC).map(|p| p.nonce) {
                if let Some(a) = pre.accounts.get(&n) {
                    let (e, i, m) = (a.attr.emode, a.attr.isolated, a.attr.mode);
                    if e != 0 {
                        self.hit2(name, "in a category");
                    }
                    if i {
                        self.hit2(name, "on an isolated account");
                    }
                    if m >= 2 {
                        self.hit2(name, "on a leveraged account");
                    }
                }
            }
        } else if let Err(e) = &want {
            if !e.maybe {
                self.hit(e.why);
                self.hit(match name {
                    "supply" => "supply refused",
                    "borrow" => "borrow refused",
                    "withdraw" => "withdraw refused",
                    "repay" => "repay refused",
                    "liquidate" => "liquidate refused",
                    "cleanBadDebt" => "cleanBadDebt refused",
                    "flashLoan" => "flashLoan refused",
                    "multiply" | "swapDebt" | "swapCollateral" | "repayDebtWithCollateral" => "strategy refused",
                    "updateAccountThreshold" => "updateAccountThreshold refused",
                    _ => "other refused",
                });
                self.hit2(name, e.why);
            }
        }
        let ctx = self.context(&pre, tx);
        match (&want, got.ok) {
            (Ok(notes), true) => {
                for n in notes {
                    self.hit(n);
                }
                self.diff(&pre, &exp, &post, tx, prim);
                if self.bias.events {
                    self.events(&pre, &post, tx, &got.logs);
                }
            }
            (Ok(_), false) => {
                let mut tags = prim | refusal_tags(&tx.call) | ctx;
                if self.had_flash {
                    tags |= c(17);
                }
                if self.had_pause {
                    tags |= c(20);
                }
                self.flag(tags, format!("legal {name} refused: {} ({:?})", got.msg, tx));
            }
            (Err(e), true) => {
                if !e.maybe {
                    let tags = e.tags | prim;
                    self.flag(tags, format!("{name} accepted although: {} ({:?})", e.why, tx));
                }
            }
            (Err(_), false) => {}
        }
        if !got.ok {
            self.unchanged(&pre, &post, prim);
        }
        self.st = post;
        if got.ok {
            if let Call::Flash { .. } = tx.call {
                self.had_flash = true;
            }
            if let Call::Pause(_) = tx.call {
                self.had_pause = true;
            }
            self.invariants(&pre, tx);
        }
        got.ok
    }

    /// A strategy during which the router moves a price, leaving account n unhealthy.
    pub fn moved(&mut self, tx: &Tx, n: u64) {
        let pre = self.st.clone();
        let got = self.w.run_tx(tx);
        let post = self.w.read();
        let name = tx.call.name();
        self.log(|| format!("{name} {tx:?} with a price moved by its swap -> {}", if got.ok { "ok".into() } else { got.msg.clone() }));
        self.hit2(name, "whose swap moved a price");
        self.st = post.clone();
        if got.ok {
            if post.ext.staking != pre.ext.staking {
                if let Some(h) = self.hf(n) {
                    if h < ray() * 9999u32 / 10000u32 {
                        let m = format!("{name} left account {n} with health factor {h} at the prices after its swap");
                        self.flag(c_(&[9, 18, 22]), m);
                    }
                }
            }
            self.invariants(&pre, tx);
        } else {
            self.unchanged(&pre, &post, tx.call.primary());
        }
    }

    /// Extra properties involved because of the situation.
    fn context(&self, pre: &St, tx: &Tx) -> u32 {
        let mut t = 0;
        let n = tx.pays.iter().find(|p| p.t == TK_ACC).map(|p| p.nonce);
        if let Some(a) = n.and_then(|n| pre.accounts.get(&n)) {
            if a.attr.isolated {
                t |= c(13);
            }
            if a.attr.emode != 0 {
                t |= c(14);
            }
            t |= c(21);
        }
        let skew = (0..NT).any(|i| self.e.skew_agg[i] != 0 || self.e.skew_safe[i] != 0 || self.e.age[i] != 0);
        if skew {
            t |= c(18);
        }
        t
    }

    fn unchanged(&mut self, a: &St, b: &St, prim: u32) {
        let same = a.bal == b.bal
            && a.nft == b.nft
            && a.pools == b.pools
            && a.ctl == b.ctl
            && a.flash == b.flash
            && a.account_nonce == b.account_nonce
            && a.accounts == b.accounts
            && a.iso.iter().zip(&b.iso).all(|(x, y)| x.v == y.v && x.s == y.s);
        if !same {
            self.flag(prim | c(5), "a refused call changed the state".into());
        }
    }

    fn diff(&mut self, pre: &St, e: &St, a: &St, tx: &Tx, prim: u32) {
        let name = tx.call.name();
        let mut out: Vec<(u32, String)> = vec![];
        if e.flash != a.flash {
            out.push((c(17) | prim, format!("flash flag expected {} found {}", e.flash, a.flash)));
        }
        for i in 0..NA {
            for t in 0..NT {
                if e.bal[i][t] != a.bal[i][t] {
                    let mut tags = prim | c(4);
                    if i == A_CTRL {
                        tags |= c(5) | c(22);
                    }
                    if i == A_ACC || i == A_ACC2 {
                        tags |= c(23);
                    }
                    if i == A_OWNER || (i >= A_USER0 && i <= NU) {
                        tags |= if i == tx.caller { 0 } else { c(5) };
                    }
                    out.push((
                        tags,
                        format!(
                            "balance of account {i} in {}: before {} expected {} found {}",
                            short(t),
                            pre.bal[i][t],
                            e.bal[i][t],
                            a.bal[i][t]
                        ),
                    ));
                }
            }
        }
        if e.nft != a.nft {
            out.push((prim | c(21), format!("account tokens expected {:?} found {:?}", e.nft, a.nft)));
        }
        if e.account_nonce != a.account_nonce {
            out.push((prim | c(21), "account numbering".into()));
        }
        for t in 0..NT {
            let (x, y) = (&e.pools[t], &a.pools[t]);
            if x == y {
                continue;
            }
            let s = short(t);
            let mut push = |tags: u32, k: &str, p: &BigUint, q: &BigUint| {
                if p != q {
                    out.push((tags | prim, format!("{k} of {s}: expected {p} found {q}")));
                }
            };
            push(c_(&[2, 3]), "borrow index", &x.bidx, &y.bidx);
            push(c_(&[2, 3]), "supply index", &x.sidx, &y.sidx);
            push(c_(&[4, 5]), "total supplied", &x.supplied, &y.supplied);
            push(c_(&[4, 5]), "total borrowed", &x.borrowed, &y.borrowed);
            push(c_(&[3, 4, 5, 23]), "revenue", &x.revenue, &y.revenue);
            push(c(3), "timestamp", &BigUint::from(x.last), &BigUint::from(y.last));
            if x.p != y.p {
                out.push((prim | c_(&[20, 24]), format!("rate parameters of {s}: expected {:?} found {:?}", x.p, y.p)));
            }
        }
        if e.ctl != a.ctl {
            let mut what = String::new();
            let mut more = 0;
            if (e.ctl.max_borrow, e.ctl.max_supply) != (a.ctl.max_borrow, a.ctl.max_supply) {
                more |= c(15);
            }
            for t in 0..NT {
                if let (Some(x), Some(y)) = (&e.ctl.assets[t], &a.ctl.assets[t]) {
                    // whose rule the setting is
                    let mut by = |differs: bool, n: u32| more |= if differs { c(n) } else { 0 };
                    by(x.bcap != y.bcap || x.scap != y.scap, 16);
                    by(x.coll != y.coll || x.borrow != y.borrow || x.siloed != y.siloed, 15);
                    by(x.isolated != y.isolated || x.ceiling != y.ceiling || x.iso_borrow != y.iso_borrow, 13);
                    by(x.flash != y.flash || x.flash_fee != y.flash_fee, 17);
                    by(x.ltv != y.ltv, 8);
                }
                if e.ctl.oracles[t] != a.ctl.oracles[t] {
                    more |= c(18);
                }
                if e.ctl.assets[t] != a.ctl.assets[t] {
                    what += &format!(" asset {}: {:?} vs {:?}", short(t), e.ctl.assets[t], a.ctl.assets[t]);
                }
                if e.ctl.oracles[t] != a.ctl.oracles[t] {
                    what += &format!(" oracle {}: {:?} vs {:?}", short(t), e.ctl.oracles[t], a.ctl.oracles[t]);
                }
            }
            if e.ctl.cats != a.ctl.cats || e.ctl.emode_assets != a.ctl.emode_assets || e.ctl.asset_emodes != a.ctl.asset_emodes {
                what += &format!(" categories: {:?} {:?} vs {:?} {:?}", e.ctl.cats, e.ctl.emode_assets, a.ctl.cats, a.ctl.emode_assets);
            }
            if e.ctl.accumulator != a.ctl.accumulator {
                more |= c(23);
            }
            if e.ctl.aggregator != a.ctl.aggregator || e.ctl.safeview != a.ctl.safeview {
                more |= c(18);
            }
            out.push((prim | more | c_(&[14, 20, 24]), format!("configuration differs:{what}")));
        }
        for t in 0..NT {
            if !e.iso[t].eq(&a.iso[t]) {
                out.push((
                    prim | c(13),
                    format!("isolated debt of {}: expected {:?} found {:?}", short(t), e.iso[t], a.iso[t]),
                ));
            }
        }
        // accounts the operation is about
        let mut actors: BTreeSet<u64> = tx.pays.iter().filter(|p| p.t == TK_ACC).map(|p| p.nonce).collect();
        match &tx.call {
            Call::Repay(n) | Call::Liquidate(n) | Call::Clean(n) | Call::Supply { nonce: Some(n), .. } => {
                actors.insert(*n);
            }
            Call::UpdThr { accts, .. } => actors.extend(accts.iter()),
            _ => {}
        }
        actors.insert(pre.account_nonce + 1);
        let all: BTreeSet<u64> = e.accounts.keys().chain(a.accounts.keys()).cloned().collect();
        for n in all {
            let who = if actors.contains(&n) { 0 } else { c_(&[5, 21]) };
            match (e.accounts.get(&n), a.accounts.get(&n)) {
                (Some(x), Some(y)) if x == y => {}
                (Some(x), Some(y)) => {
                    if x.attr != y.attr {
                        out.push((
                            prim | who | c_(&[13, 14, 21]),
                            format!("attributes of {n}: expected {:?} found {:?}", x.attr, y.attr),
                        ));
                    }
                    for (dep, p, q) in [(true, &x.dep, &y.dep), (false, &x.bor, &y.bor)] {
                        let ts: BTreeSet<usize> = p.keys().chain(q.keys()).cloned().collect();
                        for t in ts {
                            let (p, q) = (p.get(&t), q.get(&t));
                            if p == q {
                                continue;
                            }
                            let params = |z: Option<&Pos>| z.map(|z| (z.thr.clone(), z.bonus.clone(), z.fees.clone(), z.ltv.clone()));
                            let mut tags = prim | who;
                            if p.map(|z| &z.scaled) != q.map(|z| &z.scaled) {
                                tags |= c(5) | if dep { c(6) } else { c(7) };
                            }
                            if params(p) != params(q) && dep {
                                tags |= c_(&[14, 24]);
                            }
                            let k = if dep { "deposit" } else { "debt" };
                            out.push((tags, format!("{k} of {n} in {}: expected {:?} found {:?}", short(t), p, q)));
                        }
                    }
                }
                (x, y) => out.push((
                    prim | who | c(21),
                    format!("account {n}: expected {} found {}", x.is_some(), y.is_some()),
                )),
            }
        }
        for (tags, m) in out {
            self.flag(tags, format!("after {name} ({:?}): {m}", tx.call));
        }
    }

    /// Facts that must hold whatever the model says.
    fn invariants(&mut self, pre: &St, tx: &Tx) {
        let st = self.st.clone();
        let prim = tx.call.primary();
        let name = tx.call.name();
        // ledgers agree
        for t in 0..NT {
            let p = &st.pools[t];
            let dep: BigUint = st.accounts.values().filter_map(|a| a.dep.get(&t)).map(|x| &x.scaled).sum();
            let bor: BigUint = st.accounts.values().filter_map(|a| a.bor.get(&t)).map(|x| &x.scaled).sum();
            if p.supplied != &dep + &p.revenue {
                let m = format!(
                    "{}: supplied {} but positions {} and revenue {} (after {name})",
                    short(t),
                    p.supplied,
                    dep,
                    p.revenue
                );
                self.flag(c(5) | prim, m);
            }
            if p.borrowed != bor {
                let m = format!("{}: borrowed {} but positions {} (after {name})", short(t), p.borrowed, bor);
                self.flag(c(5) | prim, m);
            }
            if !st.bal[A_CTRL][t].is_zero() && st.bal[A_CTRL][t] != pre.bal[A_CTRL][t] {
                let m = format!("{} {} left in the controller by {name}", st.bal[A_CTRL][t], short(t));
                self.flag(c_(&[5, 22]) | prim, m);
            }
        }
        if !st.orphans.is_empty() {
            let m = format!("data left for closed accounts {:?} after {name}", st.orphans);
            self.flag(c_(&[5, 21]) | prim, m);
        }
        if !st.odd.is_empty() {
            let m = format!("inconsistent records {:?} after {name}", st.odd);
            self.flag(c_(&[5, 21]) | prim, m);
        }
        if st.flash {
            self.flag(c(17), format!("flash loan still marked as running after {name}"));
        }
        // one token per live account, attributes equal
        for (n, a) in &st.accounts {
            match st.nft.get(n) {
                None => self.flag(c(21) | prim, format!("live account {n} has no token after {name}")),
                Some(v) => {
                    if v.len() != 1 || !v[0].1.is_one() || v[0].2.as_ref() != Some(&a.attr) {
                        self.flag(c(21) | prim, format!("token of account {n}: {:?} vs {:?}", v, a.attr));
                    }
                    if v[0].0 == A_CTRL {
                        self.flag(c_(&[21, 5]) | prim, format!("token of account {n} kept by the controller"));
                    }
                }
            }
            let was = pre.accounts.get(n).map_or(false, |a| !a.dep.is_empty());
            if was && a.dep.is_empty() && a.bor.is_empty() && matches!(tx.call, Call::Withdraw(_)) {
                self.flag(c(21) | prim, format!("account {n} is empty but alive after {name}"));
            }
            if a.attr.isolated && (a.attr.emode != 0 || a.attr.token.is_none()) {
                self.flag(c_(&[13, 14, 21]), format!("attributes of isolated account {n}: {:?}", a.attr));
            }
            if a.attr.isolated && a.dep.keys().any(|t| Some(*t) != a.attr.token) {
                self.flag(c(13) | prim, format!("isolated account {n} holds other deposits: {:?}", a.dep.keys()));
            }
            if let Some(b) = pre.accounts.get(n) {
                if a.attr != b.attr {
                    self.flag(c_(&[14, 13, 21]), format!("attributes of account {n} changed: {:?} -> {:?}", b.attr, a.attr));
                }
            }
        }
        // indexes
        let clean = matches!(tx.call, Call::Clean(_));
        for t in 0..NT {
            let (x, y) = (&pre.pools[t], &st.pools[t]);
            if x.bidx.is_zero() {
                if !y.bidx.is_zero() && (y.bidx != ray() || y.sidx != ray()) {
                    self.flag(c_(&[3, 24]), format!("new market {} starts at {:?}", short(t), (&y.bidx, &y.sidx)));
                }
                continue;
            }
            if y.bidx < x.bidx || (!clean && y.sidx < x.sidx) {
                self.flag(c(3) | prim, format!("index of {} fell during {name}: {:?} -> {:?}", short(t), (&x.bidx, &x.sidx), (&y.bidx, &y.sidx)));
            }
            let idle = x.last == st.now * 1000;
            if idle && y.bidx != x.bidx {
                self.flag(c(3) | prim, format!("interest charged twice for one moment in {} by {name}", short(t)));
            }
            if idle && y.sidx != x.sidx && !matches!(tx.call, Call::Clean(_) | Call::Rewards) {
                self.flag(c(3) | prim, format!("supply value of {} changed within one moment by {name}", short(t)));
            }
            self.solvency(t, pre, tx);
            // what was paid out cannot exceed the cash
        }
        self.entry_rules(pre, &st, tx);
        if matches!(tx.call, Call::Liquidate(_)) {
            self.liquidation_value(pre, &st, tx);
        }
    }

    /// cash + debts >= supplier claims, up to rounding dust.
    fn solvency(&mut self, t: usize, pre: &St, tx: &Tx) {
        let st = &self.st;
        let p = &st.pools[t];
        let d = DECIMALS[t];
        let unit = pow10(27 - d);
        let worth = |s: &St| -> (BigUint, BigUint) {
            let p = &s.pools[t];
            (
                &s.bal[A_POOL0 + t][t] * &unit + rmul(&p.borrowed, &p.bidx),
                rmul(&p.supplied, &p.sidx),
            )
        };
        let (a0, l0) = worth(pre);
        let (a1, l1) = worth(st);
        // allowed loss in one operation: a few units, plus index rounding
        let mut allow = &unit * (4 + 4 * tx.pays.len() as u32)
            + (&p.supplied + &p.borrowed + &pre.pools[t].supplied + &pre.pools[t].borrowed) * 8u32 / ray()
            + 16u32;
        // a scaled unit may be worth more than one asset unit
        allow += (&p.sidx + &p.bidx) * 8u32 / ray();
        // the exponential's own rounding, applied to the outstanding debt
        allow += (&p.borrowed / pow10(24)) * 8u32 + (&p.supplied / pow10(24)) * 8u32 * (&p.sidx + ray()) / ray() / 1u32;
        if matches!(tx.call, Call::Clean(_)) && l1 > a1 {
            // the floor of the supply value may leave a remainder
            allow += rmul(&p.supplied, &BigUint::from(2u32));
        }
        // change of (assets - liabilities)
        let lost = (&a0 + &l1).checked_sub(&(&l0 + &a1));
        if let Some(lost) = lost {
            // A write-off can exceed every claim when rewards were paid into an
            // empty market and borrowed from there: it then only eats a surplus.
            let eats_surplus = matches!(tx.call, Call::Clean(_)) && &a1 + &allow >= l1;
            if lost > allow && !eats_surplus {
                let m = format!(
                    "{}: cash and loans fell by {} (1e-27) against claims during {}; allowed {}",
                    short(t),
                    lost,
                    tx.call.name(),
                    allow
                );
                self.flag(c(4) | tx.call.primary(), m);
            }
            self.dust[t] += allow;
        }
        if l1 > &a1 + &self.dust[t] {
            let m = format!("{}: owed to suppliers {} exceeds cash and loans {} (dust {})", short(t), l1, a1, self.dust[t]);
            self.flag(c(4) | tx.call.primary(), m);
        }
    }

    fn entry_rules(&mut self, pre: &St, st: &St, tx: &Tx) {
        use Call::*;
        let prim = tx.call.primary();
        let name = tx.call.name();
        let opens_debt = matches!(tx.call, Borrow(_) | Multiply { .. } | SwapDebt { .. });
        let opens_dep = matches!(tx.call, Supply { .. } | Multiply { .. } | SwapColl { .. });
        let keeps_health = matches!(
            tx.call,
            Withdraw(_) | Multiply { .. } | SwapDebt { .. } | SwapColl { .. } | RepayColl { .. }
        );
        if !(opens_debt || opens_dep || keeps_health) {
            return;
        }
        // accounts whose positions changed
        let changed: Vec<u64> = st
            .accounts
            .iter()
            .filter(|(n, a)| pre.accounts.get(n) != Some(a))
            .map(|x| *x.0)
            .collect();
        for n in changed {
            let a = st.accounts[&n].clone();
            let old = pre.accounts.get(&n);
            let mut copy = st.clone();
            let vals = M::open(&mut copy, &self.w.a, A_OWNER).and_then(|mut m| {
                m.lax = true;
                let (w, _, l) = m.collateral(&a.dep)?;
                let d = m.debt(&a.bor)?;
                let mut usd = vec![];
                if a.attr.isolated {
                    for (t, p) in &a.bor {
                        let px = m.price(*t)?.0;
                        let i = m.idx(*t)?.0;
                        let v = M::egld_ray(&Dec::ray(rmul(&p.scaled, &i)), &px);
                        usd.push(m.to_usd(&Dec::ray(v)));
                    }
                }
                Ok((w, l, d, usd))
            });
            let (w, l, d, usd) = match vals {
                Ok(v) => v,
                Err(_) => continue,
            };
            if matches!(tx.call, Borrow(_)) {
                // rounding of the share a debt is recorded in
                let slack = &d / pow10(15) + pow10(10) + self.unit_value(&a);
                if d > &l + slack {
                    self.flag(c(8) | prim, format!("account {n} owes {d} with a limit of {l} after borrow"));
                }
            }
            if keeps_health && !a.bor.is_empty() && hf_of(&w, &d) < ray() {
                self.flag(c(9) | prim, format!("account {n} left with health {} after {name}", hf_of(&w, &d)));
            }
            if opens_debt {
                let grew: Vec<usize> = a
                    .bor
                    .iter()
                    .filter(|(t, p)| old.and_then(|o| o.bor.get(t)).map_or(true, |q| p.scaled > q.scaled))
                    .map(|x| *x.0)
                    .collect();
                let limit = st.ctl.max_borrow as usize;
                if a.bor.len() > limit && old.map_or(true, |o| a.bor.len() > o.bor.len()) {
                    self.flag(c(15) | prim, format!("account {n} has {} debts, limit {limit}", a.bor.len()));
                }
                for &t in &grew {
                    let cfg = st.ctl.assets[t].clone().unwrap();
                    let em = a.attr.emode;
                    if em == 0 {
                        if !cfg.borrow {
                            self.flag(c(15) | prim, format!("{} borrowed although not borrowable", short(t)));
                        }
                    } else {
                        let ok = st.ctl.emode_assets.get(&em).and_then(|m| m.get(&t)).map_or(false, |x| x.1);
                        let live = st.ctl.cats.get(&em).map_or(false, |k| !k.deprecated);
                        if !ok || !live {
                            self.flag(c(14) | prim, format!("{} borrowed in category {em} without permission", short(t)));
                        }
                    }
                    if a.attr.isolated && !cfg.iso_borrow {
                        self.flag(c(13) | prim, format!("{} borrowed in isolation", short(t)));
                    }
                    if cfg.siloed && a.bor.len() > 1 {
                        self.flag(c(15) | prim, format!("siloed {} next to {:?}", short(t), a.bor.keys()));
                    }
                    if let Some(cap) = &cfg.bcap {
                        let p = &st.pools[t];
                        if p.units(&p.borrowed, &p.bidx) > cap + 1u32 {
                            self.flag(c(16) | prim, format!("borrow cap of {}: {} > {cap}", short(t), p.units(&p.borrowed, &p.bidx)));
                        }
                    }
                    for (t2, _) in &a.bor {
                        if *t2 != t && st.ctl.assets[*t2].as_ref().map_or(false, |c| c.siloed) && old.map_or(true, |o| o.bor.len() < a.bor.len() && o.bor.len() <= 1) {
                            self.flag(c(15) | prim, format!("{} borrowed next to siloed {}", short(t), short(*t2)));
                        }
                    }
                }
                if a.attr.isolated && !grew.is_empty() {
                    let it = a.attr.token.unwrap();
                    let cfg = st.ctl.assets[it].clone().unwrap();
                    if !st.iso[it].le(&Dec::wad(&cfg.ceiling + 1u32)) {
                        self.flag(c(13) | prim, format!("isolated debt {:?} above ceiling {}", st.iso[it], cfg.ceiling));
                    }
                    let _ = &usd;
                }
            }
            if opens_dep || matches!(tx.call, SwapColl { .. }) {
                let grew: Vec<usize> = a
                    .dep
                    .iter()
                    .filter(|(t, p)| old.and_then(|o| o.dep.get(t)).map_or(true, |q| p.scaled > q.scaled))
                    .map(|x| *x.0)
                    .collect();
                let limit = st.ctl.max_supply as usize;
                if a.dep.len() > limit && old.map_or(true, |o| a.dep.len() > o.dep.len()) {
                    self.flag(c(15) | prim, format!("account {n} has {} deposits, limit {limit}", a.dep.len()));
                }
                for &t in &grew {
                    let cfg = st.ctl.assets[t].clone().unwrap();
                    let em = a.attr.emode;
                    let p = &a.dep[&t];
                    if em == 0 {
                        if !cfg.coll {
                            self.flag(c(15) | prim, format!("{} deposited although not collateral", short(t)));
                        }
                        if p.ltv != cfg.ltv || p.bonus != cfg.bonus {
                            self.flag(c_(&[14, 24]) | prim, format!("deposit in {} carries {:?}, asset has {:?}", short(t), p, cfg));
                        }
                    } else {
                        let ok = st.ctl.emode_assets.get(&em).and_then(|m| m.get(&t)).map_or(false, |x| x.0);
                        let cat = st.ctl.cats.get(&em).filter(|k| !k.deprecated);
                        if !ok || cat.is_none() {
                            self.flag(c(14) | prim, format!("{} deposited in category {em} without permission", short(t)));
                        } else if p.ltv != cat.unwrap().ltv || p.bonus != cat.unwrap().bonus {
                            self.flag(c_(&[14, 24]) | prim, format!("deposit in {} carries {:?}, category has {:?}", short(t), p, cat));
                        }
                    }
                    if cfg.isolated && !a.attr.isolated {
                        self.flag(c(13) | prim, format!("isolated {} in ordinary account {n}", short(t)));
                    }
                    if let Some(cap) = &cfg.scap {
                        let q = &st.pools[t];
                        if q.units(&q.supplied, &q.sidx) > cap + 1u32 {
                            self.flag(c(16) | prim, format!("supply cap of {}: {} > {cap}", short(t), q.units(&q.supplied, &q.sidx)));
                        }
                    }
                }
            }
        }
    }
    /// Value of one smallest unit of each debt (EGLD, RAY).
    fn unit_value(&self, a: &Acct) -> BigUint {
        let mut v = BigUint::zero();
        for t in a.bor.keys() {
            v += (&self.e.price[*t] * pow10(9) / pow10(DECIMALS[*t]) + 1u32) * 4u32;
        }
        v
    }

    /// Collateral taken is worth at most the debt retired plus the bonus.
    fn liquidation_value(&mut self, pre: &St, st: &St, tx: &Tx) {
        let n = match tx.call {
            Call::Liquidate(n) => n,
            _ => return,
        };
        let old = match pre.accounts.get(&n) {
            Some(a) => a.clone(),
            None => return,
        };
        let empty = Acct { attr: old.attr.clone(), dep: Default::default(), bor: Default::default() };
        let new = st.accounts.get(&n).cloned().unwrap_or(empty);
        let mut copy = st.clone();
        let mut dust = BigUint::from(1000u32);
        let r = M::open(&mut copy, &self.w.a, tx.caller).and_then(|mut m| {
            m.lax = true;
            let (_, c0, _) = m.collateral(&old.dep)?;
            let (_, c1, _) = m.collateral(&new.dep)?;
            let d0 = m.debt(&old.bor)?;
            let d1 = m.debt(&new.bor)?;
            for t in old.dep.keys().chain(old.bor.keys()) {
                let px = m.price(*t)?.0;
                dust += (px * pow10(9) / pow10(DECIMALS[*t]) + 1u32) * 6u32;
            }
            let hf = {
                let (w, _, _) = m.collateral(&old.dep)?;
                hf_of(&w, &d0)
            };
            Ok((c0, c1, d0, d1, hf))
        });
        if let Ok((c0, c1, d0, d1, hf)) = r {
            if hf >= ray() {
                self.flag(c(10), format!("account {n} liquidated at health {hf}"));
            }
            let taken = c0.checked_sub(&c1).unwrap_or_default();
            let repaid = d0.checked_sub(&d1).unwrap_or_default();
            let most = &repaid + &repaid * 15u32 / 100u32 + &dust + &repaid / pow10(15);
            if taken > most && old.dep.values().all(|p| p.bonus <= bu(1500)) {
                self.flag(
                    c_(&[10, 11]),
                    format!("liquidation of {n} took {taken} for {repaid} of debt (RAY EGLD)"),
                );
            }
            if c1 > &c0 + &dust {
                self.flag(c(10), "liquidation raised the collateral".into());
            }
        }
    }
}

// --------------------------------------------------------------- views -----

impl<'w> Sim<'w> {
    fn view(&mut self, f: &str, args: Vec<Vec<u8>>) -> Result<Vec<Vec<u8>>, String> {
        let to = self.w.a.controller.clone();
        let r = self.w.vm.query(&to, f, args);
        if r.ok {
            Ok(r.out)
        } else {
            Err(r.msg)
        }
    }
    fn view_is(&mut self, tags: u32, f: &'static str, args: Vec<Vec<u8>>, want: Option<Vec<u8>>, what: &str) {
        let got = self.view(f, args);
        self.hit("view");
        let g = got.as_ref().ok().map(|v| v.first().cloned().unwrap_or_default());
        if g != want {
            self.flag(
                tags | c(25),
                format!(
                    "{f}({what}) expected {} found {}",
                    want.map(|w| show_out(&w)).unwrap_or("refusal".into()),
                    match (&g, &got) {
                        (Some(v), _) => show_out(v),
                        (None, Err(e)) => format!("refusal ({e})"),
                        _ => "nothing".into(),
                    }
                ),
            );
        }
    }
    /// Prices of the active tokens through the public views.
    pub fn check_prices(&mut self) {
        let mut toks = self.e.active.clone();
        toks.push([T_USDC, T_LP, T_LXOXNO, T_XOXNO, T_LP2, T_UTK, T_MEX, T_WBTC, T_XEGLD][self.steps % 9]);
        for t in toks {
            let st = self.st.clone();
            let mut copy = st.clone();
            let a = self.w.a.clone();
            let p = M::open(&mut copy, &a, A_OWNER).and_then(|mut m| {
                let p = m.price(t)?;
                let u = m.to_usd(&Dec::wad(p.0.clone()));
                Ok((p.0, u))
            });
            let (eg, usd) = match p {
                Ok((p, u)) => (Some(top_dec(&p, 18)), Some(top_dec(&u, 18))),
                Err(_) => (None, None),
            };
            self.view_is(c(18), "getTokenPriceEGLD", vec![tok(t).to_vec()], eg, short(t));
            self.view_is(c(18), "getTokenPriceUSD", vec![tok(t).to_vec()], usd, short(t));
        }
        self.check_indexes_view();
    }
    pub fn check_indexes_view(&mut self) {
        let list = self.e.active.clone();
        let mut copy = self.st.clone();
        let a = self.w.a.clone();
        let mut first_err = false;
        let mut want: Vec<Vec<u8>> = vec![];
        let mut markets: Vec<Vec<u8>> = vec![];
        let mut merr = false;
        match M::open(&mut copy, &a, A_OWNER) {
            Err(_) => {
                first_err = true;
                merr = true;
            }
            Ok(mut m) => {
                for &t in &list {
                    let r: R<Vec<u8>> = (|| {
                        let (b, s) = m.idx(t)?;
                        let k = m.components(t)?;
                        let usd = m.to_usd(&Dec::wad(k.fin.clone()));
                        let su = k.safe.as_ref().map(|x| m.to_usd(&Dec::wad(x.clone()))).unwrap_or(usd.clone());
                        let au = k.agg.as_ref().map(|x| m.to_usd(&Dec::wad(x.clone()))).unwrap_or(usd.clone());
                        Ok(Enc::new()
                            .buf(ntok(t))
                            .dec(&Dec::ray(s))
                            .dec(&Dec::ray(b))
                            .dec(&Dec::wad(k.fin.clone()))
                            .dec(&Dec::wad(usd))
                            .dec(&Dec::wad(k.safe.clone().unwrap_or(k.fin.clone())))
                            .dec(&Dec::wad(su))
                            .dec(&Dec::wad(k.agg.clone().unwrap_or(k.fin.clone())))
                            .dec(&Dec::wad(au))
                            .bool(k.first)
                            .bool(k.second)
                            .done())
                    })();
                    match r {
                        Ok(v) => want.push(v),
                        Err(_) => first_err = true,
                    }
                    let r: R<Vec<u8>> = (|| {
                        let p = m.price(t)?.0;
                        let usd = m.to_usd(&Dec::wad(p.clone()));
                        Ok(Enc::new()
                            .buf(ntok(t))
                            .raw(a.pools[t].as_bytes())
                            .dec(&Dec::wad(p))
                            .dec(&Dec::wad(usd))
                            .done())
                    })();
                    match r {
                        Ok(v) => markets.push(v),
                        Err(_) => merr = true,
                    }
                }
            }
        }
        let args: Vec<Vec<u8>> = list.iter().map(|t| tok(*t).to_vec()).collect();
        for (f, err, want, tags) in [
            ("getAllMarketIndexes", first_err, want, c_(&[3, 18, 25])),
            ("getAllMarkets", merr, markets, c_(&[18, 25])),
        ] {
            let got = self.view(f, args.clone());
            self.hit("view");
            let want: Option<Vec<u8>> = if err { None } else { Some(want.concat()) };
            let g = got.as_ref().ok().map(|v| v.first().cloned().unwrap_or_default());
            if g != want {
                self.flag(
                    tags,
                    format!(
                        "{f}: expected {} found {}",
                        want.map(hex::encode).unwrap_or("refusal".into()),
                        g.map(hex::encode).unwrap_or(format!("{:?}", got))
                    ),
                );
            }
        }
    }
    /// Account views for up to three accounts, and the views of their markets.
    pub fn check_views(&mut self, g: u32) {
        let keys: Vec<u64> = self.st.accounts.keys().cloned().collect();
        let a = self.w.a.clone();
        let before = self.st.clone();
        for i in 0..keys.len().min(2) {
            let n = keys[(g as usize + i) % keys.len()];
            let acct = self.st.accounts[&n].clone();
            let mut copy = self.st.clone();
            let vals = M::open(&mut copy, &a, A_OWNER).and_then(|mut m| {
                let (w, _, l) = m.collateral(&acct.dep)?;
                let d = m.debt(&acct.bor)?;
                let mut sum = BigUint::zero();
                for (t, p) in &acct.dep {
                    let px = m.price(*t)?.0;
                    let s = m.idx(*t)?.1;
                    sum += Dec::ray(M::egld_ray(&Dec::ray(rmul(&p.scaled, &s)), &px)).round_to(WAD).v;
                }
                Ok((w, l, d, sum))
            });
            let v = vals.ok();
            let arg = vec![top_u64(n)];
            let what = format!("{n}");
            let get = |f: &dyn Fn(&(BigUint, BigUint, BigUint, BigUint)) -> BigUint| v.as_ref().map(|x| top_dec(&f(x), 27));
            let hf = get(&|x| hf_of(&x.0, &x.2));
            let wr = |x: &BigUint| Dec::ray(x.clone()).round_to(WAD).v;
            let liq = v.as_ref().map(|x| top_bool(hf_of(&x.0, &x.2) < ray()));
            if let Some(x) = &v {
                if !acct.bor.is_empty() {
                    // a debt-free account reports a fixed maximum instead
                    self.view_is(c(25), "getHealthFactor", arg.clone(), hf, &what);
                    if hf_of(&x.0, &x.2) < ray() {
                        self.hit("liquidatable seen");
                    }
                } else {
                    // no debt: never liquidatable
                    self.hit("debt-free seen");
                }
                self.view_is(c_(&[10, 25]), "canBeLiquidated", arg.clone(), liq, &what);
            } else {
                self.view_is(c(25), "getHealthFactor", arg.clone(), None, &what);
            }
            let partial = {
                // debt view needs only the debts
                let mut copy = self.st.clone();
                M::open(&mut copy, &a, A_OWNER).and_then(|mut m| m.debt(&acct.bor)).ok().map(|d| top_dec(&wr(&d), 18))
            };
            self.view_is(c(25), "getTotalBorrowInEgld", arg.clone(), partial, &what);
            let colls = {
                let mut copy = self.st.clone();
                M::open(&mut copy, &a, A_OWNER).and_then(|mut m| {
                    let (w, _, l) = m.collateral(&acct.dep)?;
                    let mut sum = BigUint::zero();
                    for (t, p) in &acct.dep {
                        let px = m.price(*t)?.0;
                        let s = m.idx(*t)?.1;
                        sum += Dec::ray(M::egld_ray(&Dec::ray(rmul(&p.scaled, &s)), &px)).round_to(WAD).v;
                    }
                    Ok((w, l, sum))
                })
                .ok()
            };
            self.view_is(c(25), "getTotalCollateralInEgld", arg.clone(), colls.as_ref().map(|x| top_dec(&x.2, 18)), &what);
            self.view_is(
                c(25),
                "getLiquidationCollateralAvailable",
                arg.clone(),
                colls.as_ref().map(|x| top_dec(&wr(&x.0), 18)),
                &what,
            );
            self.view_is(c(25), "getLtvCollateralInEgld", arg.clone(), colls.as_ref().map(|x| top_dec(&wr(&x.1), 18)), &what);
            for (dep, map) in [(true, &acct.dep), (false, &acct.bor)] {
                let f = if dep { "getCollateralAmountForToken" } else { "getBorrowAmountForToken" };
                for (t, p) in map {
                    let mut copy = self.st.clone();
                    let u = M::open(&mut copy, &a, A_OWNER)
                        .and_then(|mut m| m.amount_units(*t, &p.scaled, dep))
                        .ok()
                        .map(|x| top_dec(&x, DECIMALS[*t]));
                    self.view_is(c(25), f, vec![top_u64(n), tok(*t).to_vec()], u, &format!("{n}, {}", short(*t)));
                }
                let missing = self.e.active.iter().find(|t| !map.contains_key(t)).cloned();
                if let Some(t) = missing {
                    self.view_is(c(25), f, vec![top_u64(n), tok(t).to_vec()], None, &format!("{n}, {}", short(t)));
                }
            }
            self.estimate_view(n, &acct, g);
        }
        for t in self.e.active.clone() {
            self.pool_views(t);
        }
        let after = self.w.read();
        self.unchanged(&before, &after, c(25));
    }
    fn estimate_view(&mut self, n: u64, acct: &Acct, g: u32) {
        let a = self.w.a.clone();
        let mut list: Vec<TA> = vec![];
        if g % 3 != 0 {
            for (i, (t, p)) in acct.bor.iter().enumerate() {
                let mut copy = self.st.clone();
                if let Ok(x) = M::open(&mut copy, &a, A_OWNER).and_then(|mut m| m.amount_units(*t, &p.scaled, false)) {
                    let f = [500u32, 1000, 100, 2000, 1, 750][((g >> 3) as usize + i) % 6];
                    let x = x * f / 1000u32;
                    if !x.is_zero() {
                        list.push((*t, x));
                    }
                }
                if g % 3 == 1 {
                    break;
                }
            }
        }
        let mut copy = self.st.clone();
        let want = M::open(&mut copy, &a, A_OWNER).and_then(|mut m| m.liquidation(n, &list));
        let arg: Vec<u8> = list.iter().flat_map(|(t, x)| Enc::new().buf(ntok(*t)).u64(0).big(x).done()).collect();
        let got = self.view("liquidationEstimations", vec![top_u64(n), arg]);
        self.hit("view");
        let tags = c_(&[10, 11, 25]);
        match (want, got) {
            (Err(e), Ok(_)) if !e.maybe => {
                self.flag(tags, format!("liquidationEstimations({n}) answered although: {}", e.why));
            }
            (Ok(_), Err(m)) => self.flag(tags, format!("liquidationEstimations({n}) refused: {m}")),
            (Ok(q), Ok(out)) => {
                self.hit("estimate");
                let mut ser = Enc::new();
                let list = |l: Vec<(usize, BigUint)>| -> Vec<u8> {
                    l.iter().flat_map(|(t, x)| Enc::new().buf(ntok(*t)).u64(0).big(x).done()).collect()
                };
                let seized = list(q.seized.iter().map(|x| (x.0, x.1.clone())).collect());
                let fees = list(q.seized.iter().map(|x| (x.0, x.2.clone())).collect());
                let refunds = list(q.refunds.clone());
                // nested vectors carry their length in items
                ser = ser.u32(q.seized.len() as u32).raw(&seized);
                ser = ser.u32(q.seized.len() as u32).raw(&fees);
                ser = ser.u32(q.refunds.len() as u32).raw(&refunds);
                let ser = ser
                    .dec(&Dec::ray(q.max_debt.clone()).round_to(WAD))
                    .dec(&Dec::ray(q.bonus.clone()).round_to(BPS))
                    .done();
                let g = out.first().cloned().unwrap_or_default();
                if sorted_estimate(&g) != sorted_estimate(&ser) {
                    self.flag(
                        tags,
                        format!("liquidationEstimations({n}): expected {} found {}", hex::encode(ser), hex::encode(g)),
                    );
                }
            }
            _ => {}
        }
    }
    fn pool_views(&mut self, t: usize) {
        let to = self.w.a.pools[t].clone();
        let p = self.st.pools[t].clone();
        let cash = self.st.bal[A_POOL0 + t][t].clone();
        let sv = rmul(&p.supplied, &p.sidx);
        let util = if sv.is_zero() { BigUint::zero() } else { rdiv(&rmul(&p.borrowed, &p.bidx), &sv).unwrap() };
        let rate = borrow_rate(&util, &p.p);
        let dec = p.p.decimals;
        let list: Vec<(&str, Vec<u8>)> = vec![
            ("capitalUtilisation", top_dec(&util, 27)),
            ("reserves", top_dec(&cash, dec)),
            ("borrowRate", top_dec(&rate, 27)),
            ("depositRate", top_dec(&deposit_rate(&util, &rate, &p.p.reserve), 27)),
            ("deltaTime", top_u64(self.st.now * 1000 - p.last)),
            ("protocolRevenue", top_dec(&p.units(&p.revenue, &p.sidx), dec)),
            ("suppliedAmount", top_dec(&p.units(&p.supplied, &p.sidx), dec)),
            ("borrowedAmount", top_dec(&p.units(&p.borrowed, &p.bidx), dec)),
        ];
        for (f, want) in list {
            let r = self.w.vm.query(&to, f, vec![]);
            self.hit("view");
            let g = r.out.first().cloned().unwrap_or_default();
            if !r.ok || g != want {
                let m = format!("{f} of {}: expected {} found {}", short(t), show_out(&want), if r.ok { show_out(&g) } else { r.msg });
                self.flag(c_(&[2, 25]), m);
            }
        }
    }
}
/// Decodes an estimate, ignoring the order of its lists.
fn sorted_estimate(b: &[u8]) -> (Vec<Vec<(Vec<u8>, BigUint)>>, Vec<u8>) {
    let mut r = Rd::new(b);
    let mut ls = vec![];
    for _ in 0..3 {
        if r.end() {
            return (ls, b.to_vec());
        }
        let n = r.u32();
        let mut l = vec![];
        for _ in 0..n {
            let t = r.buf().to_vec();
            r.u64();
            l.push((t, r.big()));
        }
        l.sort();
        ls.push(l);
    }
    let d1 = r.dec();
    let d2 = r.dec();
    (ls, Enc::new().dec(&d1).dec(&d2).done())
}
