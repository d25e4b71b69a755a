//! The account events give of what a transaction did, against what it really did.
//!
//! Observers (indexers, keepers, front ends) rebuild the state of markets and
//! accounts from the events alone; here the events of a transaction are folded
//! over the state before it and compared with the state after it.
use crate::enc::*;
use crate::fx::*;
use crate::model::*;
use crate::sim::*;
use crate::snap::*;
use crate::vm::Log;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};

const E: u32 = c(26);

/// A read-only view of topics that cannot panic on short data.
fn dec_of(b: &[u8]) -> Option<Dec> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as usize;
    if b.len() != n + 8 {
        return None;
    }
    Some(Rd::new(b).dec())
}
/// A decimal that must be exact at the given number of digits.
fn at(b: &[u8], s: u32) -> Option<BigUint> {
    let d = dec_of(b)?;
    Some(if d.s <= s {
        d.v * pow10(s - d.s)
    } else {
        let f = pow10(d.s - s);
        if !(&d.v % &f).is_zero() {
            return None;
        }
        d.v / f
    })
}
fn token_of(b: &[u8]) -> Option<usize> {
    tok_index(b)
}

struct PosEv {
    n: u64,
    dep: bool,
    t: usize,
    idx: BigUint,
    amount: BigUint, // asset units
    pos: Pos,
    price: Option<BigUint>,
    caller: Option<Vec<u8>>,
    attr: Option<Attr>,
}

fn pos_event(t: &[Vec<u8>]) -> Option<PosEv> {
    let b = t.get(3)?;
    if b.len() < 5 {
        return None;
    }
    let mut r = Rd::new(b);
    let ty = r.u8();
    let a = tok_index(r.buf())?;
    let scaled = r.dec();
    let n = r.u64();
    let bps = |r: &mut Rd| r.dec().at(4).v;
    let thr = bps(&mut r);
    let bonus = bps(&mut r);
    let fees = bps(&mut r);
    let ltv = bps(&mut r);
    Some(PosEv {
        n,
        dep: ty == 1,
        t: a,
        idx: at(t.get(1)?, 27)?,
        amount: at(t.get(2)?, DECIMALS[a])?,
        pos: Pos { scaled: scaled.at(27).v, thr, bonus, fees, ltv },
        price: match t.get(4) {
            Some(p) => Some(at(p, 18)?),
            None => None,
        },
        caller: t.get(5).cloned(),
        attr: t.get(6).and_then(|b| Attr::dec(b)),
    })
}

impl<'w> Sim<'w> {
    pub fn events(&mut self, pre: &St, post: &St, tx: &Tx, logs: &[Log]) {
        let mut bad: Vec<String> = vec![];
        let a = self.w.a.clone();
        let name = tx.call.name();
        let mut m_pre = pre.clone();
        let mut m = M::open(&mut m_pre, &a, tx.caller).ok();
        let mut price = |t: usize| -> Option<BigUint> { m.as_mut().and_then(|m| m.price(t).ok()).map(|p| p.0) };

        // ---- markets
        let mut seen_market = 0;
        for t in 0..NT {
            let l: Vec<&Log> = logs.iter().filter(|l| l.addr == a.pools[t] && l.is("update_market_state")).collect();
            let (x, y) = (&pre.pools[t], &post.pools[t]);
            let moved = x.supplied != y.supplied
                || x.borrowed != y.borrowed
                || x.revenue != y.revenue
                || x.bidx != y.bidx
                || x.sidx != y.sidx
                || x.last != y.last;
            let created = pre.ctl.pools[t].is_none() && post.ctl.pools[t].is_some();
            let Some(e) = l.last() else {
                if moved && !created {
                    bad.push(format!("{name} changed market {} without an event", TOKENS[t]));
                }
                continue;
            };
            seen_market += 1;
            let tp = &e.topics;
            if tp.len() != 10 {
                bad.push(format!("{name}: market event of {} with {} topics", TOKENS[t], tp.len()));
                continue;
            }
            let mut cmp = |what: &str, got: Option<BigUint>, want: &BigUint| {
                if got.as_ref() != Some(want) {
                    bad.push(format!("{name}: the last market event of {} says {what} {got:?}, it is {want}", TOKENS[t]));
                }
            };
            cmp("timestamp", Some(BigUint::from(u64_of(&tp[1]))), &BigUint::from(y.last));
            cmp("supply index", at(&tp[2], 27), &y.sidx);
            cmp("borrow index", at(&tp[3], 27), &y.bidx);
            cmp("reserves", at(&tp[4], DECIMALS[t]), &post.bal[A_POOL0 + t][t]);
            cmp("supplied", at(&tp[5], 27), &y.supplied);
            cmp("borrowed", at(&tp[6], 27), &y.borrowed);
            cmp("revenue", at(&tp[7], 27), &y.revenue);
            if token_of(&tp[8]) != Some(t) {
                bad.push(format!("{name}: market event of {} names another asset", TOKENS[t]));
            }
            for e in &l {
                if let (Some(p), Some(q)) = (e.topics.get(9).and_then(|b| at(b, 18)), price(t)) {
                    if p != q {
                        bad.push(format!("{name}: market event of {} carries price {p}, the price is {q}", TOKENS[t]));
                    }
                }
            }
        }
        if seen_market > 0 {
            self.hit("market events");
        }

        // ---- positions
        let mut cur: BTreeMap<(u64, bool, usize), Pos> = BTreeMap::new();
        for (n, x) in &pre.accounts {
            for (t, p) in &x.dep {
                cur.insert((*n, true, *t), p.clone());
            }
            for (t, p) in &x.bor {
                cur.insert((*n, false, *t), p.clone());
            }
        }
        let mut told: BTreeSet<(u64, bool, usize)> = BTreeSet::new();
        // closing positions by decree carries no amount
        let decree = matches!(tx.call, Call::Clean(_));
        for l in logs.iter().filter(|l| l.addr == a.controller && l.is("update_position")) {
            let Some(e) = pos_event(&l.topics) else {
                bad.push(format!("{name}: unreadable position event {:?}", l.topics));
                continue;
            };
            let k = (e.n, e.dep, e.t);
            told.insert(k);
            let what = format!("{} position of account {} in {}", if e.dep { "deposit" } else { "debt" }, e.n, TOKENS[e.t]);
            let old = cur.get(&k).map_or(BigUint::zero(), |p| p.scaled.clone());
            let d = if old > e.pos.scaled { &old - &e.pos.scaled } else { &e.pos.scaled - &old };
            let upd = matches!(tx.call, Call::UpdThr { .. });
            if (decree || upd) && !e.amount.is_zero() {
                bad.push(format!("{name}: event of the {what} carries amount {}", e.amount));
            }
            if !decree {
                // the change, at the stated index, is the stated amount
                let f = pow10(27 - DECIMALS[e.t]);
                let moved = &d * &e.idx / ray();
                let said = &e.amount * &f;
                let tol = &f + &e.idx / ray() + 2u32;
                let diff = if moved > said { &moved - &said } else { &said - &moved };
                if diff > tol {
                    bad.push(format!("{name}: event of the {what} says amount {} but it changed by {moved}e-27", e.amount));
                }
            }
            let p = &post.pools[e.t];
            let now = p.indexes(post.now * 1000).map(|(b, s)| if e.dep { s } else { b });
            if now.as_ref().is_some_and(|x| *x != e.idx) {
                // only write-offs, rewards and the like move an index inside a transaction
                let q = &pre.pools[e.t];
                let shifted = e.dep && !matches!(tx.call, Call::Supply { .. } | Call::Borrow(_) | Call::Withdraw(_) | Call::Repay(_)) && q != p;
                if !shifted {
                    bad.push(format!("{name}: event of the {what} carries index {}, the market's is {}", e.idx, now.unwrap_or_default()));
                }
            }
            if let (Some(p), Some(q)) = (&e.price, price(e.t)) {
                if *p != q {
                    bad.push(format!("{name}: event of the {what} carries price {p}, the price is {q}"));
                }
            }
            if let Some(at) = &e.attr {
                let real = post.accounts.get(&e.n).or(pre.accounts.get(&e.n)).map(|x| &x.attr);
                if real != Some(at) {
                    bad.push(format!("{name}: event of the {what} carries attributes {at:?}, they are {real:?}"));
                }
            }
            let direct = matches!(
                tx.call,
                Call::Supply { .. } | Call::Borrow(_) | Call::Withdraw(_) | Call::Repay(_) | Call::Liquidate(_) | Call::Clean(_)
            );
            if direct {
                let who = self.w.tracked[tx.caller].to_vec();
                if e.caller.as_ref() != Some(&who) {
                    bad.push(format!("{name}: event of the {what} names another caller"));
                }
            }
            if e.pos.scaled.is_zero() {
                cur.remove(&k);
            } else {
                cur.insert(k, e.pos.clone());
            }
        }
        if !told.is_empty() {
            self.hit("position events");
            self.hit2(name, "position events");
        }
        let mut real: BTreeMap<(u64, bool, usize), Pos> = BTreeMap::new();
        for (n, x) in &post.accounts {
            for (t, p) in &x.dep {
                real.insert((*n, true, *t), p.clone());
            }
            for (t, p) in &x.bor {
                real.insert((*n, false, *t), p.clone());
            }
        }
        let keys: BTreeSet<_> = cur.keys().chain(real.keys()).cloned().collect();
        for k in keys {
            let z = |p: Option<&Pos>| p.filter(|p| !p.scaled.is_zero()).cloned();
            if z(cur.get(&k)) != z(real.get(&k)) {
                bad.push(format!(
                    "{name}: by the events the {} position of account {} in {} is {:?}, it is {:?}",
                    if k.1 { "deposit" } else { "debt" },
                    k.0,
                    TOKENS[k.2],
                    cur.get(&k),
                    real.get(&k)
                ));
            }
        }

        // ---- isolated debt
        for t in 0..NT {
            let l = logs.iter().rev().find(|l| l.addr == a.controller && l.is("update_debt_ceiling") && l.topics.get(1).and_then(|b| token_of(b)) == Some(t));
            match l {
                Some(l) => {
                    self.hit("isolated debt events");
                    let got = l.topics.get(2).and_then(|b| dec_of(b));
                    let same = got.as_ref().is_some_and(|g| g.at(18).v == post.iso[t].at(18).v);
                    if !same {
                        bad.push(format!("{name}: event says isolated debt of {} is {got:?}, it is {:?}", TOKENS[t], post.iso[t]));
                    }
                }
                None => {
                    if pre.iso[t].at(18).v != post.iso[t].at(18).v {
                        bad.push(format!("{name} changed the isolated debt of {} without an event", TOKENS[t]));
                    }
                }
            }
        }

        // ---- configuration
        let last = |what: &str, f: &dyn Fn(&Log) -> bool| logs.iter().rev().find(|l| l.addr == a.controller && l.is(what) && f(l)).cloned();
        for t in 0..NT {
            let of_t = |l: &Log| l.topics.get(1).and_then(|b| token_of(b)) == Some(t);
            let (x, y) = (&pre.ctl.assets[t], &post.ctl.assets[t]);
            let created = matches!(&tx.call, Call::CreatePool { t: u, .. } if *u == t);
            if x != y || last("update_asset_config", &of_t).is_some() {
                let (got, i) = match created {
                    true => (last("create_market_params", &of_t), 11),
                    false => (last("update_asset_config", &of_t), 2),
                };
                let got = got.and_then(|l| l.topics.get(i).cloned());
                if got != y.as_ref().map(|c| c.enc()) {
                    bad.push(format!("{name}: configuration of {} is {y:?}, the event says {:?}", TOKENS[t], got.map(hex::encode)));
                }
                self.hit("configuration events");
            }
            if created {
                if let Some(l) = last("create_market_params", &of_t) {
                    let p = &post.pools[t].p;
                    let want: Vec<Vec<u8>> = [&p.max, &p.base, &p.s1, &p.s2, &p.s3, &p.mid, &p.opt, &p.reserve]
                        .iter()
                        .map(|v| top_big(v))
                        .chain([a.pools[t].to_vec()])
                        .collect();
                    if l.topics.get(2..11) != Some(&want[..]) {
                        bad.push(format!("{name}: the creation event does not give the market's parameters"));
                    }
                } else {
                    bad.push(format!("{name}: market created without an event"));
                }
            }
            let (x, y) = (&pre.pools[t].p, &post.pools[t].p);
            if x != y && !created {
                let l = logs.iter().rev().find(|l| l.addr == a.pools[t] && l.is("update_market_params"));
                let want: Vec<Vec<u8>> = [&y.max, &y.base, &y.s1, &y.s2, &y.s3, &y.mid, &y.opt, &y.reserve].iter().map(|v| top_big(v)).collect();
                if l.and_then(|l| l.topics.get(2..10)) != Some(&want[..]) {
                    bad.push(format!("{name}: rate parameters of {} changed, the event does not say so", TOKENS[t]));
                }
                self.hit("configuration events");
            }
            let (x, y) = (&pre.ctl.oracles[t], &post.ctl.oracles[t]);
            if x != y && y.is_some() {
                let got = last("update_asset_oracle", &of_t).and_then(|l| l.topics.get(2).cloned());
                if got != y.as_ref().map(|o| o.enc()) {
                    bad.push(format!("{name}: oracle of {} changed, the event says {:?}", TOKENS[t], got.map(hex::encode)));
                }
                self.hit("configuration events");
            }
        }
        for (id, y) in &post.ctl.cats {
            if pre.ctl.cats.get(id) != Some(y) {
                let got = last("update_e_mode_category", &|l| l.topics.get(1).is_some_and(|b| b.first() == Some(id))).and_then(|l| l.topics.get(1).cloned());
                let d = |v: &BigUint| Dec::new(v.clone(), 4);
                let want = Enc::new().u8(*id).dec(&d(&y.ltv)).dec(&d(&y.thr)).dec(&d(&y.bonus)).bool(y.deprecated).done();
                if got.as_ref() != Some(&want) {
                    bad.push(format!("{name}: category {id} changed, the event says {:?}", got.map(hex::encode)));
                }
                self.hit("configuration events");
            }
        }
        let none = BTreeMap::new();
        let ids: BTreeSet<u8> = pre.ctl.emode_assets.keys().chain(post.ctl.emode_assets.keys()).cloned().collect();
        for id in ids {
            let (x, y) = (pre.ctl.emode_assets.get(&id).unwrap_or(&none), post.ctl.emode_assets.get(&id).unwrap_or(&none));
            let ts: BTreeSet<usize> = x.keys().chain(y.keys()).cloned().collect();
            for t in ts {
                if x.get(&t) == y.get(&t) {
                    continue;
                }
                let l = last("update_e_mode_asset", &|l| {
                    l.topics.get(1).and_then(|b| token_of(b)) == Some(t) && l.topics.get(3).map(|b| u64_of(b)) == Some(id as u64)
                });
                match (l, y.get(&t)) {
                    (None, _) => bad.push(format!("{name}: {} in category {id} changed without an event", TOKENS[t])),
                    (Some(l), Some((cl, bo))) => {
                        if l.topics.get(2) != Some(&vec![*cl as u8, *bo as u8]) {
                            bad.push(format!("{name}: event misstates {} in category {id}", TOKENS[t]));
                        }
                    }
                    _ => {}
                }
                self.hit("configuration events");
            }
        }

        // ---- opening payment of a leveraged account
        let l: Vec<&Log> = logs.iter().filter(|l| l.addr == a.controller && l.is("initial_multiply_payment")).collect();
        if let (Call::Multiply { coll, debt, .. }, false) = (&tx.call, logs.is_empty()) {
            let opening = !tx.pays.iter().any(|p| p.t == TK_ACC);
            if l.len() != opening as usize {
                bad.push(format!("multiply: {} opening payment events", l.len()));
            }
            for l in &l {
                self.hit("opening payment events");
                let t = l.topics.get(1).and_then(|b| token_of(b));
                let n = l.topics.get(4).map(|b| u64_of(b));
                if n != Some(post.account_nonce) {
                    bad.push(format!("multiply: opening payment event for account {n:?}, opened {}", post.account_nonce));
                }
                let p = &tx.pays[0];
                let want = if p.t == *coll || p.t == *debt { p.t } else { *coll };
                if t != Some(want) {
                    bad.push(format!("multiply: opening payment event names {t:?} instead of {want}"));
                    continue;
                }
                let got = l.topics.get(2).and_then(|b| at(b, DECIMALS[want]));
                if p.t == want && got.as_ref() != Some(&p.amt) {
                    bad.push(format!("multiply: opening payment event says {got:?}, {} was sent", p.amt));
                }
                let usd = l.topics.get(3).and_then(|b| at(b, 18));
                if let (Some(g), Some(px)) = (got, price(want)) {
                    let egld = mul(&Dec::new(g, DECIMALS[want]), &Dec::wad(px), 27).round_to(18);
                    let mut st = pre.clone();
                    let w = M::open(&mut st, &a, tx.caller).ok().map(|m| m.to_usd(&egld));
                    if w.is_some() && usd != w {
                        bad.push(format!("multiply: opening payment event says {usd:?} USD, it is {w:?}"));
                    }
                }
            }
        } else if !l.is_empty() {
            bad.push(format!("{name}: opening payment event"));
        }

        // ---- keepers are called to clean hopeless accounts, and only those
        let calls: Vec<u64> = logs
            .iter()
            .filter(|l| l.addr == a.controller && l.is("emit_trigger_clean_bad_debt"))
            .map(|l| l.topics.get(1).map_or(0, |b| u64_of(b)))
            .collect();
        if let Call::Liquidate(n) = &tx.call {
            let mut st = post.clone();
            let left = M::open(&mut st, &a, tx.caller).ok().and_then(|mut m| {
                let acct = post.accounts.get(n)?;
                let total = m.collateral(&acct.dep).ok()?.1;
                let debt = m.debt(&acct.bor).ok()?;
                Some((m.to_usd(&Dec::ray(debt)), m.to_usd(&Dec::ray(total))))
            });
            // a thousandth of a dollar and two units of each asset on either side are left open
            let mut eps = pow10(15);
            if let (Some(acct), Ok(m)) = (pre.accounts.get(n), M::open(&mut st, &a, tx.caller)) {
                for t in acct.dep.keys().chain(acct.bor.keys()) {
                    if let Some(p) = price(*t) {
                        let unit = mul(&Dec::new(BigUint::from(2u32), DECIMALS[*t]), &Dec::wad(p), 27);
                        eps += m.to_usd(&unit) + 1u32;
                    }
                }
            }
            let five = wad() * 5u32;
            let clear = left.clone().and_then(|(d, c)| {
                if d > &c + &eps && &c + &eps < five {
                    Some(true)
                } else if &d + &eps < c || c > &five + &eps {
                    Some(false)
                } else {
                    None
                }
            });
            match clear {
                Some(true) => {
                    self.hit("clean-up wanted");
                    if calls != [*n] {
                        bad.push(format!("liquidate left account {n} hopeless (debt, collateral in WAD dollars: {left:?}) and announced {calls:?}"));
                    }
                }
                Some(false) if !calls.is_empty() => bad.push(format!("liquidate announced {calls:?} for a clean-up although account {n} is not hopeless")),
                _ => {}
            }
            // what the announcement says is left, in EGLD (or in dollars, as its fields are called)
            let mut st = post.clone();
            let egld = M::open(&mut st, &a, tx.caller).ok().and_then(|mut m| {
                let acct = post.accounts.get(n)?;
                Some([m.debt(&acct.bor).ok()?, m.collateral(&acct.dep).ok()?.1])
            });
            let ann = logs.iter().find(|l| l.addr == a.controller && l.is("emit_trigger_clean_bad_debt"));
            if let (Some(l), Some(egld), Some((d, c))) = (ann, egld, &left) {
                let usd = [d.clone(), c.clone()];
                for (i, what) in ["debt", "collateral"].iter().enumerate() {
                    let said = l.topics.get(2 + i).and_then(|b| at(b, 27)).unwrap_or_default();
                    let mut near = |v: &BigUint| {
                        let (hi, lo) = if said > *v { (&said, v) } else { (v, &said) };
                        let mut tol = v / pow10(12) + pow10(15);
                        if let Some(acct) = pre.accounts.get(n) {
                            for t in acct.dep.keys().chain(acct.bor.keys()) {
                                if let Some(p) = price(*t) {
                                    tol += mul(&Dec::new(BigUint::from(4u32), DECIMALS[*t]), &Dec::wad(p), 27).v;
                                }
                            }
                        }
                        hi - lo <= tol
                    };
                    let usd27 = &usd[i] * pow10(9);
                    if !near(&egld[i]) && !near(&usd27) {
                        bad.push(format!("liquidate announced a remaining {what} of {said}, account {n} is left with {} EGLD = {usd27} USD (1e-27)", egld[i]));
                    } else {
                        self.hit("announced remainder compared");
                    }
                }
            }
        } else if !calls.is_empty() {
            bad.push(format!("{name} announced a clean-up of {calls:?}"));
        }

        for m in bad {
            self.flag(E, m);
        }
    }
}
