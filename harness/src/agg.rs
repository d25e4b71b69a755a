//! C19: the price aggregator against a small model of rounds.
use crate::enc::*;
use crate::model::*;
use crate::pure::Outcome;
use crate::sim::*;
use crate::vm::{addr, Addr};
use crate::world::*;
use num_bigint::BigUint;

const PAIRS: [(&[u8], &[u8]); 4] = [(b"AAA", b"USD"), (b"BBB", b"USD"), (b"AAA", b"EUR"), (b"USD", b"AAA")];

#[derive(Clone, Default, Debug)]
struct PairM {
    pending: Vec<(usize, BigUint)>,
    first: u64,
    round: Option<(BigUint, u64, u32)>,
}
#[derive(Clone, Debug)]
struct AggM {
    oracles: Vec<usize>,
    count: usize,
    paused: bool,
    pairs: Vec<PairM>,
    published: u64,
    /// per oracle: submissions accepted, submissions made
    stats: Vec<(u64, u64)>,
    /// events the submissions of this call must have caused
    ev: Vec<Vec<Vec<u8>>>,
}
impl AggM {
    /// One submission; Err = the call must be refused.
    fn submit(&mut self, who: usize, pair: usize, ts: u64, price: &BigUint, now: u64, o: &mut Outcome) -> Result<(), &'static str> {
        if ts > now {
            return Err("future submission");
        }
        if now - ts > 30 {
            return Err("late submission");
        }
        let p = &mut self.pairs[pair];
        let (a, b) = PAIRS[pair];
        let id = p.round.as_ref().map_or(0, |r| r.2 + 1);
        let ev = |name: &str, more: &[Vec<u8>]| -> Vec<Vec<u8>> {
            [name.as_bytes().to_vec(), a.to_vec(), b.to_vec(), top_u64(id as u64)].into_iter().chain(more.iter().cloned()).collect()
        };
        if p.pending.is_empty() {
            p.first = now;
        } else if now > p.first + 1800 {
            p.pending.clear();
            p.first = now;
            o.hit("expired round");
            self.ev.push(ev("discard_round", &[]));
        }
        self.stats[who].1 += 1;
        if p.pending.iter().any(|x| x.0 == who) {
            o.hit("duplicate submission");
            self.ev.push(ev("discard_submission", &[Enc::new().u64(now).u64(p.first).bool(true).done()]));
            return Ok(());
        }
        self.stats[who].0 += 1;
        p.pending.push((who, price.clone()));
        self.ev.push(ev("add_submission", &[top_big(price)]));
        if p.pending.len() >= self.count {
            let mut v: Vec<BigUint> = p.pending.iter().map(|x| x.1.clone()).collect();
            v.sort();
            let n = v.len();
            let med = if n % 2 == 1 { v[n / 2].clone() } else { (&v[n / 2 - 1] + &v[n / 2]) / 2u32 };
            self.ev.push(ev("new_round", &[Enc::new().big(&med).u64(now).done()]));
            p.round = Some((med, now, id));
            p.pending.clear();
            self.published += 1;
            o.hit(if n == 1 {
                "published single"
            } else if n % 2 == 0 {
                "published even"
            } else {
                "published odd"
            });
        }
        Ok(())
    }
}

pub fn run_c19(w: &mut World, case: &Case, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let base = w.base.clone();
    w.vm.restore(&base);
    let agg = w.a.aggregator2();
    let owner = w.a.owner.clone();
    let mut g = Genes::new(&case.cfg);
    // everybody who may call: candidates for oracles, then strangers
    let lim = if g.next() % 6 == 5 { 50 } else { 8 };
    let many = 3 + g.below(lim) as usize;
    let mut who: Vec<Addr> = vec![owner.clone()];
    for i in 0..many + 4 {
        let a = addr(&format!("orc{i}"), false, (i % 3) as u8);
        w.vm.add_account(&a);
        who.push(a);
    }
    let start = 1 + g.below(many as u32) as usize;
    let count = 1 + g.below(start.min(50) as u32) as usize;
    let mut args = vec![top_u64(count as u64)];
    args.extend((1..=start).map(|i| who[i].to_vec()));
    let r = w.vm.deploy(&owner, &agg, b"aggregator", args);
    if !r.ok {
        o.viol.push(Viol { tags: c(19), step: 0, msg: format!("deployment with {start} oracles and count {count} refused: {}", r.msg) });
        return o;
    }
    let mut m = AggM { oracles: (1..=start).collect(), count, paused: true, pairs: vec![PairM::default(); 4], published: 0, stats: vec![(0, 0); who.len()], ev: vec![] };
    if g.next() % 8 != 7 {
        w.vm.call(&owner, &agg, "unpause", vec![], &[]);
        m.paused = false;
    }
    let n_who = who.len() as u32;
    for (i, op) in case.ops.iter().enumerate() {
        let f = &op.f;
        let now = w.vm.now();
        let pre = m.clone();
        let pick = |m: &AggM, x: u32| -> usize {
            if x % 12 == 11 || m.oracles.is_empty() {
                (x / 12 % n_who) as usize
            } else {
                m.oracles[(x / 12) as usize % m.oracles.len()]
            }
        };
        // prefer an oracle that has not submitted yet
        let fresh = |m: &AggM, x: u32, pair: usize| -> usize {
            let l: Vec<usize> = m.oracles.iter().cloned().filter(|o| !m.pairs[pair].pending.iter().any(|p| p.0 == *o)).collect();
            if x % 5 == 4 || l.is_empty() {
                pick(m, x / 5)
            } else {
                l[(x / 5) as usize % l.len()]
            }
        };
        let price = |x: u32, y: u32| -> BigUint {
            match x % 6 {
                0 => BigUint::from(y % 4),
                1 => BigUint::from(1000 + y % 10),
                2 => crate::fx::pow10(x / 6 % 30) * (y % 100) + y % 7,
                _ => crate::fx::pow10(18) + y,
            }
        };
        let stamp = |x: u32| -> u64 {
            match x % 16 {
                0 => now - 30,
                1 => now - 31,
                2 => now + 1,
                3 => now - 29,
                4 => now - (x as u64 / 16 % 40),
                5 => 0,
                6 => now + 1000,
                _ => now,
            }
        };
        let mut what = String::new();
        let mut want: Result<(), &'static str> = Ok(());
        let mut got: Option<crate::vm::Res> = None;
        match op.k % 16 {
            0..=6 => {
                let pair = [0usize, 0, 0, 1, 2, 3][(f[0] % 6) as usize];
                let c = fresh(&m, f[1], pair);
                let (ts, pr) = (stamp(f[2]), price(f[3], f[4]));
                want = if m.paused {
                    Err("paused")
                } else if !m.oracles.contains(&c) {
                    Err("not an oracle")
                } else {
                    m.submit(c, pair, ts, &pr, now, &mut o)
                };
                what = format!("submit by {c} pair {pair} at {} price {pr}", ts as i64 - now as i64);
                let (a, b) = PAIRS[pair];
                got = Some(w.vm.call(&who[c], &agg, "submit", vec![a.to_vec(), b.to_vec(), top_u64(ts), top_big(&pr)], &[]));
            }
            7..=9 => {
                let c = fresh(&m, f[1], (f[0] % 4) as usize);
                let n = 1 + f[2] % 4;
                let mut args = vec![];
                let mut list = vec![];
                for j in 0..n {
                    let pair = ((f[0] + j * (1 + f[5] % 2)) % 4) as usize;
                    let ts = stamp(f[3].rotate_left(j * 7) | 8);
                    let ts = if f[6] % 8 == 7 && j == n - 1 { stamp(f[6] / 8) } else { ts };
                    let pr = price(f[4].rotate_left(j * 5), f[7].rotate_left(j));
                    let (a, b) = PAIRS[pair];
                    args.extend([a.to_vec(), b.to_vec(), top_u64(ts), top_big(&pr)]);
                    list.push((pair, ts, pr));
                }
                want = if m.paused {
                    Err("paused")
                } else if !m.oracles.contains(&c) {
                    Err("not an oracle")
                } else {
                    list.iter().try_for_each(|(p, ts, pr)| m.submit(c, *p, *ts, pr, now, &mut o))
                };
                what = format!("batch by {c}: {list:?}");
                got = Some(w.vm.call(&who[c], &agg, "submitBatch", args, &[]));
            }
            10 | 11 => {
                let dt = [1u64, 6, 30, 31, 600, 1799, 1800, 1801, 5000, 0][(f[0] % 10) as usize];
                // land exactly on the edge of an open round
                let edge = m.pairs[(f[1] % 4) as usize].clone();
                let t = if f[2] % 3 == 0 && !edge.pending.is_empty() {
                    (edge.first + 1799 + (f[3] % 3) as u64).max(now)
                } else {
                    now + dt
                };
                w.vm.set_now(t);
                what = format!("time +{}", t - now);
            }
            12 => {
                let c = if f[0] % 6 == 5 { (f[1] % n_who) as usize } else { 0 };
                let l: Vec<usize> = (0..1 + f[2] % 3).map(|j| (1 + (f[3].rotate_left(j * 9)) % (n_who - 1)) as usize).collect();
                want = if c != 0 { Err("owner only") } else { Ok(()) };
                if want.is_ok() {
                    for x in &l {
                        if !m.oracles.contains(x) {
                            m.oracles.push(*x);
                            m.stats[*x] = (0, 0);
                        }
                    }
                }
                what = format!("addOracles by {c}: {l:?}");
                got = Some(w.vm.call(&who[c], &agg, "addOracles", l.iter().map(|x| who[*x].to_vec()).collect(), &[]));
            }
            13 => {
                let c = if f[0] % 6 == 5 { (f[1] % n_who) as usize } else { 0 };
                let l: Vec<usize> = (0..1 + f[2] % 2).map(|j| pick(&m, f[3].rotate_left(j * 9)).max(1)).collect();
                let left = m.oracles.iter().filter(|x| !l.contains(x)).count();
                let n = if f[4] % 4 == 3 { (f[4] / 4 % (many as u32 + 2)) as usize } else { m.count.min(left) };
                want = if c != 0 {
                    Err("owner only")
                } else if n < 1 || n > left || n > 50 {
                    Err("count out of range")
                } else {
                    Ok(())
                };
                if want.is_ok() {
                    m.oracles.retain(|x| !l.contains(x));
                    m.count = n;
                }
                what = format!("removeOracles by {c}: {l:?} count {n}");
                let mut args = vec![top_u64(n as u64)];
                args.extend(l.iter().map(|x| who[*x].to_vec()));
                got = Some(w.vm.call(&who[c], &agg, "removeOracles", args, &[]));
            }
            14 => {
                let c = if f[0] % 6 == 5 { (f[1] % n_who) as usize } else { 0 };
                let n = (f[2] % (m.oracles.len() as u32 + 2)) as usize;
                want = if c != 0 {
                    Err("owner only")
                } else if n < 1 || n > m.oracles.len() || n > 50 {
                    Err("count out of range")
                } else {
                    Ok(())
                };
                if want.is_ok() {
                    m.count = n;
                }
                what = format!("setSubmissionCount({n}) by {c}");
                got = Some(w.vm.call(&who[c], &agg, "setSubmissionCount", vec![top_u64(n as u64)], &[]));
            }
            _ if f[3] % 6 == 5 => {
                m.paused = true;
                what = "upgrade".into();
                o.hit("upgraded");
                got = Some(w.vm.upgrade(&owner, &agg, b"aggregator"));
            }
            _ => {
                let c = if f[0] % 4 == 3 { (f[1] % n_who) as usize } else { 0 };
                let on = f[2] % 4 == 0;
                want = if c != 0 { Err("owner only") } else { Ok(()) };
                if want.is_ok() {
                    m.paused = on;
                }
                what = format!("{} by {c}", if on { "pause" } else { "unpause" });
                got = Some(w.vm.call(&who[c], &agg, if on { "pause" } else { "unpause" }, vec![], &[]));
            }
        }
        o.steps += 1;
        let mut bad: Vec<String> = vec![];
        let admin = matches!(op.k % 16, 12..=15);
        let mut rights = false;
        if let Some(r) = &got {
            if trace {
                o.trace.push(format!("{what} -> {}", if r.ok { "ok".into() } else { format!("refused ({})", r.msg) }));
            }
            match (&want, r.ok) {
                (Err(e), true) => {
                    rights |= matches!(*e, "owner only" | "paused" | "not an oracle");
                    bad.push(format!("{what} accepted although: {e}"))
                }
                (Ok(()), false) => bad.push(format!("legal {what} refused: {}", r.msg)),
                _ => {}
            }
            if want.is_ok() {
                o.hit("accepted");
            } else {
                o.hit(want.unwrap_err());
            }
            if !r.ok {
                m = pre;
            } else if want.is_ok() {
                // what the call announced: every submission, round and discard, and nothing else
                let names = ["add_submission", "new_round", "discard_round", "discard_submission"];
                let mut said: Vec<Vec<Vec<u8>>> = r.logs.iter().filter(|l| names.iter().any(|n| l.is(n))).map(|l| l.topics.clone()).collect();
                for l in said.iter_mut().filter(|l| l[0] == b"new_round" && l.len() == 5) {
                    // the block and epoch that end the record are the chain's
                    let n = l[4].len();
                    l[4].truncate(n.saturating_sub(16));
                }
                said.sort();
                m.ev.sort();
                if !m.ev.is_empty() {
                    o.hit("submission events");
                }
                if said != m.ev {
                    let show = |v: &Vec<Vec<Vec<u8>>>| format!("{:?}", v.iter().map(|l| l.iter().map(hex::encode).collect::<Vec<_>>()).collect::<Vec<_>>());
                    o.viol.push(Viol { tags: c(26), step: i, msg: format!("{what}: events {} expected {}", show(&said), show(&m.ev)) });
                }
            }
            m.ev.clear();
        } else if trace {
            o.trace.push(what.clone());
        }
        // what the aggregator serves
        let now = w.vm.now();
        let mut pairs_arg = vec![];
        let mut feeds: Vec<Vec<u8>> = vec![];
        for (j, (a, b)) in PAIRS.iter().enumerate() {
            let r = w.vm.query(&agg, "latestPriceFeed", vec![a.to_vec(), b.to_vec()]);
            let enc = m.pairs[j].round.as_ref().map(|(p, ts, id)| Enc::new().u32(*id).buf(a).buf(b).u64(*ts).big(p).done());
            let want = if m.paused { None } else { enc.clone() };
            let got = if r.ok { r.out.first().cloned() } else { None };
            if want != got {
                bad.push(format!(
                    "after {what}: feed {j} is {} expected {} (time {now}, {:?})",
                    got.map_or("refused".into(), hex::encode),
                    want.map_or("refusal".into(), hex::encode),
                    m.pairs[j]
                ));
            }
            pairs_arg.push(Enc::new().buf(a).buf(b).done());
            feeds.extend(enc);
        }
        let r = w.vm.query(&agg, "latestRoundData", pairs_arg);
        if m.paused == r.ok || (r.ok && r.out != feeds) {
            bad.push(format!("after {what}: latestRoundData {:?} expected {:?}", r.out, feeds));
        }
        let r = w.vm.query(&agg, "getOracles", vec![]);
        let mut a: Vec<Vec<u8>> = r.out.clone();
        a.sort();
        let mut b: Vec<Vec<u8>> = m.oracles.iter().map(|x| who[*x].to_vec()).collect();
        b.sort();
        if a != b {
            bad.push(format!("after {what}: registered oracles differ"));
        }
        let r = w.vm.query(&agg, "submission_count", vec![]);
        if r.out.first().map(|x| u64_of(x)) != Some(m.count as u64) {
            bad.push(format!("after {what}: submission count differs"));
        }
        for x in &m.oracles {
            let v = w.vm.storage(&agg, &[&b"oracle_status.mapped"[..], &who[*x].to_vec()].concat());
            let (a, t) = m.stats[*x];
            if v != Enc::new().u64(a).u64(t).done() {
                bad.push(format!("after {what}: oracle {x} recorded as {} expected {a} accepted of {t}", hex::encode(v)));
            }
        }
        for msg in bad {
            // a stranger configuring, or service while paused, is C20's business too
            let tags = if rights || admin || m.paused { c(19) | c(20) } else { c(19) };
            o.viol.push(Viol { tags, step: i, msg });
        }
        if !o.viol.is_empty() {
            break;
        }
    }
    o
}
