//! What each property's check generates and when a case counts as non-trivial.
use crate::model::c;
use crate::pure::*;
use crate::sim::*;
use crate::world::*;

pub struct Phase {
    pub name: &'static str,
    pub run: fn(&mut World, &Case, &Prof, bool) -> Outcome,
    /// histories (quick, thorough)
    pub cases: (u32, u32),
    pub len: (usize, usize),
    pub prof: Prof,
    /// every group must have occurred for a case to count as non-trivial
    pub need: Vec<Vec<&'static str>>,
}
#[derive(Clone)]
pub struct Prof {
    pub bit: u32,
    pub w: Vec<(u8, u32)>,
    pub bias: Bias,
    /// views / prices are compared every n-th step (0 = never)
    pub views: usize,
    pub prices: usize,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: Vec<Phase>,
}

fn c01(w: &mut World, k: &Case, _: &Prof, t: bool) -> Outcome {
    #[cfg(feature = "direct")]
    return crate::math::run_c01(w, k, t);
    #[cfg(not(feature = "direct"))]
    {
        let _ = (w, k, t);
        panic!("built without the arithmetic library")
    }
}
fn c02(w: &mut World, k: &Case, _: &Prof, t: bool) -> Outcome {
    run_c02(w, k, t)
}
fn c19(w: &mut World, k: &Case, p: &Prof, t: bool) -> Outcome {
    c20(w, k, p, t)
}
fn c20(w: &mut World, k: &Case, p: &Prof, t: bool) -> Outcome {
    let mut o = crate::agg::run_c19(w, k, t);
    o.viol.retain(|v| v.tags & p.bit != 0);
    o
}
pub fn history(w: &mut World, k: &Case, p: &Prof, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut s = Sim::new(w, &k.cfg, p.bias.clone(), u32::MAX);
    if trace {
        s.trace = Some(vec![]);
    }
    for (tags, msg) in s.w.fresh.clone() {
        s.flag(tags, msg);
    }
    for (i, op) in k.ops.iter().enumerate() {
        s.step(op);
        if p.prices > 0 && (i + 1) % p.prices == 0 {
            s.check_prices();
        }
        if p.views > 0 && (i + 1) % p.views == 0 {
            s.check_views(op.f[9]);
        }
        o.steps += 1;
        if !s.viol.is_empty() {
            break;
        }
    }
    for v in s.viol {
        if v.tags & p.bit != 0 {
            o.viol.push(v);
        } else {
            o.other += 1;
        }
    }
    o.ev = s.ev;
    o.trace = s.trace.unwrap_or_default();
    o
}

const BASE: [(u8, u32); 34] = [
    (K_SUPPLY, 14),
    (K_BORROW, 13),
    (K_WITHDRAW, 9),
    (K_REPAY, 9),
    (K_LIQ, 8),
    (K_CLEAN, 2),
    (K_FLASH, 3),
    (K_MULT, 4),
    (K_SDEBT, 3),
    (K_SCOLL, 3),
    (K_RCOLL, 3),
    (K_UPTHR, 1),
    (K_UPIDX, 2),
    (K_CLAIM, 2),
    (K_REWARD, 2),
    (K_TIME, 8),
    (K_PRICE, 3),
    (K_FEED, 1),
    (K_EDIT, 2),
    (K_LIMITS, 1),
    (K_EMODE, 1),
    (K_ORACLE, 0),
    (K_PARAMS, 1),
    (K_CREATE, 0),
    (K_PAUSE, 0),
    (K_STRANGER, 1),
    (K_NFT, 1),
    (K_CRASH, 6),
    (K_BAD, 1),
    (K_ROUND, 2),
    (K_ADDR, 0),
    (K_AIM, 6),
    (K_WIPE, 1),
    (K_MOVE, 0),
];

/// The base mix with some weights replaced.
fn mix(over: &[(u8, u32)]) -> Vec<(u8, u32)> {
    BASE.iter()
        .map(|&(k, w)| (k, over.iter().find(|x| x.0 == k).map_or(w, |x| x.1)))
        .filter(|x| x.1 > 0)
        .collect()
}

/// Histories in a quick run, by what one of them costs.
fn n_cases(n: u32) -> u32 {
    match n {
        3 => 4000,
        11 => 2800,
        18 => 2400,
        25 => 1300,
        _ => 4500,
    }
}

pub fn property(id: &str) -> Option<Prop> {
    let n: u32 = id.strip_prefix('C')?.parse().ok()?;
    if n == 0 || n > 26 {
        return None;
    }
    let id: &'static str = Box::leak(format!("C{n:02}").into_boxed_str());
    let bit = c(n);
    let h = |over: &[(u8, u32)], bias: Bias, views: usize, prices: usize, need: &[&[&'static str]]| Phase {
        name: "history",
        run: history,
        cases: (n_cases(n), 14 * n_cases(n)),
        len: (8, 40),
        prof: Prof { bit, w: mix(over), bias, views, prices },
        need: need.iter().map(|g| g.to_vec()).collect(),
    };
    let d = Bias::default();
    let d2 = Bias::default();
    let (rule, phases) = match n {
        1 => (
            "a case is a list of 64 arithmetic evaluations; non-trivial: at least one needs rounding or mixes scales",
            vec![Phase {
                name: "arithmetic",
                run: c01,
                cases: (60_000, 1_200_000),
                len: (64, 64),
                prof: Prof { bit, w: (0..8).map(|k| (k, 1)).collect(), bias: d, views: 0, prices: 0 },
                need: vec![vec!["rounded or mixed-scale"]],
            }],
        ),
        2 => (
            "a case is a list of curve points written into a real pool, each followed by a growth check; non-trivial: a point with debt and non-zero growth (history phase: a borrow succeeded and rate views were compared)",
            vec![
                Phase {
                    name: "curve",
                    run: c02,
                    cases: (8_000, 160_000),
                    len: (8, 12),
                    prof: Prof { bit, w: vec![(0, 1)], bias: d.clone(), views: 0, prices: 0 },
                    need: vec![vec!["curve point with debt"], vec!["growth non-zero"]],
                },
                Phase { cases: (400, 8_000), ..h(&[(K_TIME, 14), (K_BORROW, 18), (K_PARAMS, 4)], d, 4, 0, &[&["borrow"], &["view"]]) },
            ],
        ),
        3 => (
            "non-trivial history: a debt was opened and time passed before a later accepted operation",
            vec![h(
                &[(K_TIME, 20), (K_BORROW, 18), (K_UPIDX, 8), (K_PARAMS, 4), (K_LIQ, 5), (K_CRASH, 3)],
                Bias { index: 50, flags: 2, ..d },
                0,
                9,
                &[&["borrow", "multiply"], &["world"]],
            )],
        ),
        4 => (
            "non-trivial history: a debt was opened and a withdrawal, repayment, liquidation, claim or strategy paid out",
            vec![h(
                &[(K_TIME, 14), (K_BORROW, 16), (K_WITHDRAW, 12), (K_LIQ, 10), (K_CLEAN, 4), (K_BAD, 3), (K_WIPE, 3), (K_CLAIM, 5), (K_REWARD, 4), (K_ROUND, 5)],
                Bias { index: 40, ..d },
                0,
                0,
                &[&["borrow", "multiply"], &["withdraw", "liquidate", "repay", "claimRevenue", "repayDebtWithCollateral", "swapCollateral"]],
            )],
        ),
        5 => (
            "non-trivial history: at least three accepted user operations on positions and one refused operation",
            vec![h(
                &[(K_MULT, 8), (K_SDEBT, 6), (K_SCOLL, 6), (K_RCOLL, 6), (K_FLASH, 5), (K_LIQ, 10), (K_CRASH, 7), (K_CLEAN, 4), (K_BAD, 3)],
                d,
                0,
                0,
                &[&["supply"], &["borrow", "multiply"], &["refused"]],
            )],
        ),
        6 => (
            "non-trivial history: an accepted supply and an accepted withdrawal",
            vec![h(
                &[(K_WIPE, 3), (K_SUPPLY, 24), (K_WITHDRAW, 24), (K_ROUND, 12), (K_REWARD, 5), (K_TIME, 10), (K_LIQ, 4), (K_CRASH, 3)],
                Bias { index: 60, ..d },
                0,
                0,
                &[&["supply"], &["withdraw"]],
            )],
        ),
        7 => (
            "non-trivial history: an accepted borrow and an accepted repayment",
            vec![h(
                &[(K_BORROW, 24), (K_REPAY, 26), (K_TIME, 12), (K_LIQ, 4), (K_CRASH, 3), (K_SUPPLY, 14)],
                Bias { index: 50, flags: 3, ..d },
                0,
                0,
                &[&["borrow"], &["repay"]],
            )],
        ),
        8 => (
            "non-trivial history: a borrow accepted and one refused for its loan-to-value, or one at the exact limit",
            vec![h(
                &[(K_BORROW, 34), (K_PRICE, 6), (K_EDIT, 5), (K_LIQ, 3), (K_CRASH, 4), (K_MULT, 3)],
                Bias { flags: 2, siloed: 4, caps: 4, ..d },
                0,
                0,
                &[&["borrow"], &["beyond loan-to-value", "borrow at the limit"]],
            )],
        ),
        9 => (
            "non-trivial history: an owner action was refused for health, or one succeeded on an account with debt at the limit",
            vec![h(
                &[(K_MOVE, 8), (K_AIM, 8), (K_WITHDRAW, 22), (K_MULT, 9), (K_SDEBT, 8), (K_SCOLL, 9), (K_RCOLL, 7), (K_CRASH, 7), (K_LIQ, 3)],
                Bias { flags: 3, siloed: 4, caps: 4, aim: &[(AIM_ASSET, 10), (AIM_WORLD, 1), (AIM_OTHERS, ANY)], ..d },
                0,
                0,
                &[&["health factor too low", "withdraw at the limit"], &["borrow", "multiply"]],
            )],
        ),
        10 => (
            "non-trivial history: an accepted liquidation",
            vec![h(
                &[(K_LIQ, 26), (K_CRASH, 18), (K_BORROW, 18), (K_WITHDRAW, 4), (K_TIME, 6)],
                Bias { flags: 2, siloed: 4, caps: 3, exact_views: true, ..d },
                0,
                0,
                &[&["liquidate"]],
            )],
        ),
        11 => (
            "non-trivial history: an accepted liquidation, or an estimate compared for an unhealthy account",
            vec![h(
                &[(K_LIQ, 26), (K_CRASH, 18), (K_BORROW, 18), (K_WITHDRAW, 4), (K_EMODE, 3), (K_EDIT, 3)],
                Bias { flags: 2, siloed: 4, caps: 3, emode: 35, ..d },
                7,
                0,
                &[&["liquidate", "estimate"]],
            )],
        ),
        12 => (
            "non-trivial history: an accepted clean-up, or one refused because the account was not hopeless",
            vec![h(
                &[(K_WIPE, 4), (K_CLEAN, 34), (K_BAD, 16), (K_BORROW, 18), (K_LIQ, 6), (K_CRASH, 4), (K_TIME, 8), (K_WITHDRAW, 4)],
                Bias { flags: 2, isolated: 15, caps: 3, ..d },
                0,
                0,
                &[&["cleanBadDebt", "collateral above five dollars"]],
            )],
        ),
        13 => (
            "non-trivial history: an isolated account was opened or an isolation rule refused a call",
            vec![h(
                &[(K_AIM, 10), (K_BORROW, 20), (K_REPAY, 12), (K_LIQ, 9), (K_SDEBT, 5), (K_SCOLL, 5), (K_CLEAN, 4), (K_BAD, 3)],
                Bias { isolated: 60, flags: 3, aim: &[(AIM_ASSET, 4), (AIM_ASSET, 5), (AIM_ASSET, 9), (AIM_ASSET, 9), (AIM_ASSET, 3)], ..d },
                0,
                0,
                &[&["isolated account", "isolation debt ceiling", "isolated asset in an ordinary account", "not borrowable in isolation", "isolated account takes one asset"]],
            )],
        ),
        14 => (
            "non-trivial history: an e-mode account was used or an e-mode rule refused a call",
            vec![h(
                &[(K_AIM, 16), (K_EMODE, 9), (K_BORROW, 16), (K_MULT, 7), (K_UPTHR, 5), (K_SCOLL, 5), (K_SDEBT, 4)],
                Bias { emode: 100, isolated: 15, aim: &[(AIM_CAT, ANY), (AIM_CAT, 0)], ..d },
                0,
                0,
                &[&["e-mode position", "asset not in category", "category deprecated", "no such category", "isolated asset in e-mode"]],
            )],
        ),
        15 => (
            "non-trivial history: a permission, silo or count rule refused a call, next to an accepted position",
            vec![h(
                &[(K_AIM, 14), (K_BORROW, 20), (K_MULT, 8), (K_SDEBT, 7), (K_SCOLL, 7), (K_EDIT, 5), (K_LIMITS, 4), (K_LIQ, 3)],
                Bias { flags: 18, siloed: 30, tight: 60, aim: &[(AIM_LIMIT, ANY), (AIM_ASSET, 0), (AIM_ASSET, 1), (AIM_ASSET, 3)], ..d },
                0,
                0,
                &[
                    &["position limit", "not borrowable", "not allowed as collateral", "siloed debt stands alone", "siloed asset next to other debts"],
                    &["borrow", "supply", "multiply"],
                ],
            ),
            // accounts of an isolated asset, which owe several others
            Phase {
                cases: (900, 12_600),
                ..h(
                    &[(K_AIM, 30), (K_BORROW, 30), (K_MULT, 4), (K_SDEBT, 6), (K_REPAY, 3), (K_LIMITS, 2), (K_CRASH, 1), (K_BAD, 1)],
                    Bias { isolated: 70, flags: 4, caps: 2, emode: 5, tight: 4, aim: &[(AIM_ASSET, 3), (AIM_ASSET, 3), (AIM_LIMIT, ANY)], ..d2 },
                    0,
                    0,
                    &[
                        &["position limit", "not borrowable", "not allowed as collateral", "siloed debt stands alone", "siloed asset next to other debts"],
                        &["borrow", "supply", "multiply"],
                    ],
                )
            }],
        ),
        16 => (
            "non-trivial history: a cap refused a call",
            vec![h(
                &[(K_AIM, 12), (K_SUPPLY, 22), (K_BORROW, 22), (K_TIME, 10), (K_EDIT, 6), (K_MULT, 6), (K_SCOLL, 5), (K_LIQ, 3), (K_CREATE, 3)],
                Bias { unlist: 50, caps: 70, flags: 2, index: 40, aim: &[(AIM_ASSET, 7), (AIM_ASSET, 8)], ..d },
                0,
                0,
                &[&["supply cap", "borrow cap"]],
            )],
        ),
        17 => (
            "non-trivial history: a flash loan was accepted or refused for its terms",
            vec![h(
                &[(K_FLASH, 50), (K_BORROW, 10), (K_PAUSE, 1)],
                d,
                0,
                0,
                &[&["flashLoan", "loan not repaid", "flash loan ongoing", "endpoint not allowed", "other shard", "flash loans not enabled"]],
            )],
        ),
        18 => (
            "non-trivial history: prices compared after a source was moved, aged, skewed or reconfigured",
            vec![h(
                &[(K_MOVE, 5), (K_AIM, 8), (K_PRICE, 12), (K_FEED, 30), (K_ORACLE, 5), (K_ADDR, 1), (K_LIQ, 10), (K_CRASH, 8), (K_BORROW, 14), (K_TIME, 6)],
                Bias { oracles: 60, feeds: 60, aim: &[(AIM_WORLD, 0)], ..d },
                0,
                2,
                &[&["world"], &["view"]],
            )],
        ),
        19 => (
            "a case is a history of submissions, time and owner calls on a real aggregator; non-trivial: a round was published from two or more submissions, expired, or saw a duplicate",
            vec![Phase {
                name: "aggregator",
                run: c19,
                cases: (6_000, 100_000),
                len: (10, 60),
                prof: Prof { bit, w: (0..16).map(|k| (k, if k <= 6 { 3 } else if k <= 11 { 2 } else { 1 })).collect(), bias: d, views: 0, prices: 0 },
                need: vec![vec!["published even", "published odd", "expired round", "duplicate submission"]],
            }],
        ),
        20 => (
            "non-trivial history: a privileged call by a stranger, or a user call while paused, was refused",
            vec![
            Phase {
                name: "aggregator",
                run: c20,
                cases: (1_500, 30_000),
                len: (10, 60),
                prof: Prof { bit, w: (0..16).map(|k| (k, if k <= 11 { 1 } else { 4 })).collect(), bias: d.clone(), views: 0, prices: 0 },
                need: vec![vec!["owner only", "paused"]],
            },
            h(
                &[(K_AIM, 10), (K_PAUSE, 7), (K_STRANGER, 26), (K_ADDR, 3), (K_ORACLE, 3), (K_CREATE, 2), (K_EDIT, 3), (K_PARAMS, 2), (K_EMODE, 3), (K_LIMITS, 2), (K_FLASH, 5), (K_REWARD, 3)],
                Bias { unlist: 15, aim: &[(AIM_PAUSE, ANY), (12, ANY)], ..d },
                0,
                0,
                &[&["owner only", "paused", "privileged operation by a stranger", "market called by a stranger"]],
            )],
        ),
        21 => (
            "non-trivial history: an account was opened and a call was refused over the account token, or an account was closed",
            vec![h(
                &[(K_AIM, 10), (K_NFT, 8), (K_WITHDRAW, 18), (K_SUPPLY, 18), (K_RCOLL, 6), (K_CLEAN, 4), (K_BAD, 3)],
                Bias { aim: &[(AIM_NFT, ANY)], ..d },
                0,
                0,
                &[
                    &["supply"],
                    &[
                        "account closed",
                        "caller does not hold the account token",
                        "not the account token",
                        "account token required",
                        "exactly the account token must be sent",
                        "account not active",
                    ],
                ],
            )],
        ),
        22 => (
            "non-trivial history: an accepted strategy",
            vec![h(
                &[(K_MOVE, 6), (K_AIM, 10), (K_MULT, 22), (K_SDEBT, 14), (K_SCOLL, 16), (K_RCOLL, 14), (K_LIQ, 3), (K_CRASH, 2)],
                Bias { flags: 3, siloed: 8, caps: 3, tight: 5, fees: 80, ..d },
                0,
                0,
                &[&["multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"]],
            )],
        ),
        23 => (
            "non-trivial history: an accepted claim or reward after a borrow or a flash loan",
            vec![h(
                &[(K_CLAIM, 16), (K_REWARD, 12), (K_FLASH, 8), (K_TIME, 14), (K_BORROW, 18), (K_MULT, 6), (K_ADDR, 1)],
                Bias { index: 40, fees: 80, ..d },
                0,
                0,
                &[&["claimRevenue", "addRewards"], &["borrow", "flashLoan", "multiply"]],
            )],
        ),
        24 => (
            "non-trivial history: a configuration call was accepted or refused for its content, or a threshold was propagated",
            vec![h(
                &[(K_AIM, 10), (K_EDIT, 14), (K_LIMITS, 5), (K_EMODE, 12), (K_ORACLE, 8), (K_PARAMS, 9), (K_CREATE, 6), (K_ADDR, 5), (K_UPTHR, 16), (K_BORROW, 14), (K_CRASH, 6)],
                Bias { unlist: 40, emode: 50, aim: &[(AIM_ASSET, 10), (AIM_CAT, 2)], ..d },
                0,
                0,
                &[&[
                    "editAssetConfig",
                    "upgradeLiquidityPoolParams",
                    "createLiquidityPool",
                    "editTokenOracleTolerance",
                    "addEModeCategory",
                    "updateAccountThreshold",
                    "updateAccountThreshold refused",
                ]],
            )],
        ),
        25 => (
            "non-trivial history: views compared while an account had debt",
            vec![h(
                &[(K_TIME, 12), (K_BORROW, 20), (K_CRASH, 12), (K_LIQ, 5), (K_FEED, 3)],
                Bias { index: 40, flags: 2, exact_views: true, ..d },
                3,
                5,
                &[&["view"], &["borrow", "multiply"]],
            )],
        ),
        _ => (
            "non-trivial history: position and market events of accepted operations were folded; for the aggregator: events of submissions were compared",
            vec![
            Phase {
                name: "aggregator",
                run: c20,
                cases: (1_000, 20_000),
                len: (10, 60),
                prof: Prof { bit, w: (0..16).map(|k| (k, if k <= 6 { 3 } else if k <= 11 { 2 } else { 1 })).collect(), bias: d.clone(), views: 0, prices: 0 },
                need: vec![vec!["submission events"]],
            },
            h(
                &[(K_AIM, 4), (K_TIME, 10), (K_EDIT, 5), (K_PARAMS, 4), (K_EMODE, 6), (K_ORACLE, 3), (K_CREATE, 2), (K_MULT, 9), (K_SDEBT, 6), (K_SCOLL, 6), (K_RCOLL, 7), (K_FLASH, 6), (K_REWARD, 4), (K_CLAIM, 4), (K_BAD, 4), (K_LIQ, 11), (K_UPTHR, 5)],
                Bias { unlist: 40, isolated: 25, index: 40, events: true, ..d },
                0,
                0,
                &[&["position events"], &["market events"], &["borrow", "multiply", "withdraw", "liquidate", "flashLoan"]],
            )],
        ),
    };
    Some(Prop { id, rule, phases })
}
