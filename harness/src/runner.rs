//! Generation, shrinking, replay and evidence.
use crate::props::*;
use crate::pure::Outcome;
use crate::sim::*;
use crate::world::World;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
/// A single generated history takes milliseconds; one that runs this long does not end.
const HANG_S: u64 = 240;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn root() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn strategy(ph: &Phase) -> impl Strategy<Value = Case> {
    let w = ph.prof.w.clone();
    let total: u32 = w.iter().map(|x| x.1).sum();
    let pick = move |mut x: u32| -> u8 {
        for (k, n) in &w {
            if x < *n {
                return *k;
            }
            x -= n;
        }
        w[0].0
    };
    let any = proptest::num::u32::ANY;
    let op = (0..total, proptest::array::uniform10(any)).prop_map(move |(x, f)| Op { k: pick(x), f });
    (proptest::collection::vec(any, GENES), proptest::collection::vec(op, ph.len.0..=ph.len.1))
        .prop_map(|(cfg, ops)| Case { cfg, ops })
}

/// Runs one case; a panic outside the contracts means the state could not even be read.
fn run(ph: &Phase, w: &mut Option<World>, case: &Case, trace: bool) -> Outcome {
    if w.is_none() {
        match catch_unwind(World::new) {
            Ok(x) => *w = Some(x),
            Err(e) => return broken(ph, format!("the protocol cannot be set up: {}", text(&e))),
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| (ph.run)(w.as_mut().unwrap(), case, &ph.prof, trace)));
    match r {
        Ok(o) => o,
        Err(e) => {
            *w = None;
            broken(ph, format!("the state left behind cannot be read: {}", text(&e)))
        }
    }
}
fn text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}
fn broken(ph: &Phase, msg: String) -> Outcome {
    let mut o = Outcome::default();
    o.viol.push(Viol { tags: ph.prof.bit, step: 0, msg });
    o
}
fn nontrivial(ph: &Phase, o: &Outcome) -> bool {
    ph.need.iter().all(|g| g.iter().any(|k| o.ev.get(k).map_or(false, |n| *n > 0)))
}
fn hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn rng(seed: u64, prop: &str, phase: usize, thread: usize) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8] = phase as u8;
    b[9] = thread as u8;
    b[16..16 + prop.len()].copy_from_slice(prop.as_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

#[derive(Default)]
struct Tally {
    cases: u64,
    steps: u64,
    other: u64,
    nontrivial: HashSet<u64>,
    ev: BTreeMap<&'static str, u64>,
    samples: Vec<Case>,
    failed: Vec<(Case, String)>,
}

fn write_replay(id: &str, seed: u64, phase: usize, case: &Case, msgs: &[String], trace: &[String]) -> std::path::PathBuf {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{:016x}.json", hash(case)));
    let v = json!({"property": id, "seed": seed, "phase": phase, "messages": msgs, "trace": trace, "case": case});
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap());
    p
}

/// Runs the search in a child process: contract code that brings the process down (recursion
/// without end) is a violation like any other, found again by replaying the cases it was in.
pub fn main(args: &[String]) -> i32 {
    if std::env::var("LENDING_CHILD").is_ok() {
        return search(args);
    }
    let me = match std::env::current_exe() {
        Ok(p) => p,
        Err(_) => return search(args),
    };
    let dir = root().join("target").join(format!("running.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let child = |a: &[String], quiet: bool| {
        let mut c = std::process::Command::new(&me);
        c.args(a).env("LENDING_CHILD", &dir);
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().ok().and_then(|s| s.code())
    };
    let code = child(&args[1..], false);
    let code = match code {
        Some(c) => c,
        None => crashed(args, &dir, &|a| child(a, true)),
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn crashed(args: &[String], dir: &std::path::Path, child: &dyn Fn(&[String]) -> Option<i32>) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let id = get("--property").unwrap_or_default();
    let msg = "an operation brings the process down (it never ends)";
    if let Some(f) = get("--replay") {
        println!("{msg}\nVIOLATION property={id} replay={f}");
        return 1;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let probe = dir.join("probe.json");
    let dies = |phase: usize, c: &Case| {
        let v = json!({"phase": phase, "case": c});
        let _ = std::fs::write(&probe, serde_json::to_vec(&v).unwrap());
        let a = ["--property", id.as_str(), "--replay", probe.to_str().unwrap()].map(String::from);
        child(&a).is_none()
    };
    for t in 0..THREADS {
        let v: Value = match std::fs::read(dir.join(format!("{t}.json"))).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => continue,
        };
        let phase = v["phase"].as_u64().unwrap_or(0) as usize;
        let mut case: Case = match serde_json::from_value(v["case"].clone()) {
            Ok(c) => c,
            Err(_) => continue,
        };
        if !dies(phase, &case) {
            continue;
        }
        // shrink: the shortest prefix that still dies, then single operations
        let t0 = Instant::now();
        let (mut lo, mut hi) = (0, case.ops.len());
        while lo < hi && t0.elapsed().as_secs() < 30 {
            let mid = (lo + hi) / 2;
            let c = Case { cfg: case.cfg.clone(), ops: case.ops[..mid].to_vec() };
            if dies(phase, &c) {
                hi = mid
            } else {
                lo = mid + 1
            }
        }
        case.ops.truncate(hi);
        let mut i = 0;
        while i < case.ops.len() && t0.elapsed().as_secs() < 60 {
            let mut c = case.clone();
            c.ops.remove(i);
            if dies(phase, &c) {
                case = c
            } else {
                i += 1
            }
        }
        let p = write_replay(&id, seed, phase, &case, &[msg.to_string()], &[]);
        println!("{msg}\nVIOLATION property={id} replay={}", p.display());
        return 1;
    }
    eprintln!("the search ended abnormally, and no case reproduces it");
    2
}

fn search(args: &[String]) -> i32 {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let id = get("--property").unwrap_or_default();
    let tier = get("--tier").unwrap_or("quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = match property(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    if prop.id == "C01" && !cfg!(feature = "direct") {
        eprintln!("built without the arithmetic library: C01 cannot be decided");
        return 2;
    }
    // the VM writes to standard output; keep the real one for our own lines
    let out_fd = unsafe { dup(1) };
    {
        use std::os::fd::AsRawFd;
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            unsafe { dup2(f.as_raw_fd(), 1) };
        }
    }
    let say = |s: String| {
        use std::os::fd::FromRawFd;
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(out_fd) });
        let _ = writeln!(f, "{s}");
    };
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(f) = get("--replay") {
        let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => {
                eprintln!("cannot read {f}");
                return 2;
            }
        };
        let case: Case = serde_json::from_value(v["case"].clone()).unwrap();
        let ph = &prop.phases[v["phase"].as_u64().unwrap_or(0) as usize];
        let o = std::thread::scope(|s| {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(s, || run(ph, &mut None, &case, true)).unwrap().join().unwrap()
        });
        for l in &o.trace {
            say(l.clone());
        }
        for x in &o.viol {
            say(format!("step {}: {}", x.step, x.msg));
        }
        if !o.viol.is_empty() {
            say(format!("VIOLATION property={} replay={f}", prop.id));
            return 1;
        }
        say("no violation".into());
        return 0;
    }

    let t0 = Instant::now();
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // traces of the first cases, for tuning the generators
    let dump: u64 = get("--dump").and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut total = Tally::default();
    let mut phases_info = vec![];
    let mut fails: Vec<(usize, Case, String)> = vec![];
    let mut samples: Vec<Value> = vec![];
    for (pi, ph) in prop.phases.iter().enumerate() {
        let n = if tier == "thorough" { ph.cases.1 } else { ph.cases.0 };
        let n = (n as f64 * scale) as u32;
        let per = (n + THREADS as u32 - 1) / THREADS as u32;
        let stop = AtomicBool::new(false);
        let started: Vec<Arc<(AtomicU64, Mutex<Option<Case>>)>> =
            (0..THREADS).map(|_| Arc::new((AtomicU64::new(0), Mutex::new(None)))).collect();
        let done = AtomicBool::new(false);
        let tallies: Vec<Tally> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..THREADS)
                .map(|ti| {
                    let beat = started[ti].clone();
                    let stop = &stop;
                    let (id, t0) = (prop.id, &t0);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let tally = RefCell::new(Tally::default());
                            let world: RefCell<Option<World>> = RefCell::new(None);
                            let cfg = Config {
                                cases: per,
                                failure_persistence: None,
                                max_shrink_iters: 600,
                                max_shrink_time: 25_000,
                                source_file: None,
                                verbose: 0,
                                ..Config::default()
                            };
                            let failing = RefCell::new(false);
                            let at = std::env::var("LENDING_CHILD").ok().map(|d| std::path::Path::new(&d).join(format!("{ti}.json")));
                            let mut tr = TestRunner::new_with_rng(cfg, rng(seed, id, pi, ti));
                            let r = tr.run(&strategy(ph), |case| {
                                if stop.load(Ordering::Relaxed) && !*failing.borrow() {
                                    return Ok(());
                                }
                                *beat.1.lock().unwrap() = Some(case.clone());
                                if let Some(f) = &at {
                                    let _ = std::fs::write(f, serde_json::to_vec(&json!({"phase": pi, "case": case})).unwrap());
                                }
                                beat.0.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                                let o = run(ph, &mut world.borrow_mut(), &case, false);
                                beat.0.store(0, Ordering::Relaxed);
                                if ti == 0 && tally.borrow().cases < dump {
                                    let o = run(ph, &mut world.borrow_mut(), &case, true);
                                    eprintln!("{}\n", o.trace.join("\n"));
                                }
                                let mut t = tally.borrow_mut();
                                if !*failing.borrow() {
                                    t.cases += 1;
                                    t.steps += o.steps;
                                    t.other += o.other;
                                    if nontrivial(ph, &o) {
                                        t.nontrivial.insert(hash(&case));
                                        if t.samples.is_empty() && t.cases > 3 && ti < 3 {
                                            t.samples.push(case.clone());
                                        }
                                    }
                                    for (k, n) in &o.ev {
                                        *t.ev.entry(k).or_insert(0) += n;
                                    }
                                }
                                match o.viol.first() {
                                    Some(v) => {
                                        *failing.borrow_mut() = true;
                                        stop.store(true, Ordering::Relaxed);
                                        Err(TestCaseError::fail(v.msg.clone()))
                                    }
                                    None => Ok(()),
                                }
                            });
                            let mut t = tally.into_inner();
                            if let Err(TestError::Fail(m, case)) = r {
                                t.failed.push((case, m.message().to_string()));
                            }
                            t
                        })
                        .unwrap()
                })
                .collect();
            let (dn, st, t0r) = (&done, &started, &t0);
            let id = prop.id;
            let sayr = &say;
            s.spawn(move || {
                while !dn.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0r.elapsed().as_secs();
                    for b in st.iter() {
                        let t = b.0.load(Ordering::Relaxed);
                        if t > 0 && now > t + HANG_S {
                            let c = b.1.lock().unwrap().clone().unwrap();
                            let p = write_replay(id, seed, pi, &c, &["an operation does not terminate".into()], &[]);
                            sayr(format!("VIOLATION property={id} replay={}", p.display()));
                            std::process::exit(1);
                        }
                    }
                }
            });
            let v = hs.into_iter().map(|h| h.join().unwrap()).collect();
            done.store(true, Ordering::Relaxed);
            v
        });
        let mut cases = 0;
        for t in tallies {
            cases += t.cases;
            total.cases += t.cases;
            total.steps += t.steps;
            total.other += t.other;
            total.nontrivial.extend(t.nontrivial);
            for (k, n) in t.ev {
                *total.ev.entry(k).or_insert(0) += n;
            }
            for c in &t.samples {
                let o = run(ph, &mut None, c, true);
                let tr: Vec<String> = o.trace.iter().take(40).map(|l| l.chars().take(400).collect()).collect();
                samples.push(json!({"phase": ph.name, "operations": c.ops.len(), "trace": tr}));
            }
            for (c, m) in t.failed {
                fails.push((pi, c, m));
            }
        }
        phases_info.push(json!({"phase": ph.name, "cases": cases, "length": [ph.len.0, ph.len.1]}));
        if !fails.is_empty() {
            break;
        }
    }
    let mut viols = vec![];
    let mut seen = HashSet::new();
    for (pi, c, m) in &fails {
        let o = run(&prop.phases[*pi], &mut None, c, true);
        let msgs: Vec<String> =
            if o.viol.is_empty() { vec![m.clone()] } else { o.viol.iter().map(|v| format!("step {}: {}", v.step, v.msg)).collect() };
        let key: String = msgs[0].chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
        if !seen.insert(key) {
            continue;
        }
        let p = write_replay(prop.id, seed, *pi, c, &msgs, &o.trace);
        say(format!("{}", msgs[0]));
        say(format!("VIOLATION property={} replay={}", prop.id, p.display()));
        viols.push(json!({"replay": p.display().to_string(), "message": msgs[0]}));
    }
    let ev = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "operations": total.steps,
            "phases": phases_info,
            "outcomes": total.ev,
            "divergences_of_other_properties": total.other,
        },
        "assumptions": [
            "contracts run in the MultiversX Rust VM, with programmable stand-ins for the exchanges, staking providers, swap router and flash-loan receivers",
            "gas and cross-shard delivery are not modelled: a transaction runs to its end or is refused as a whole"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("evidence: {e}");
        return 2;
    }
    say(format!(
        "{}: {} cases, {} non-trivial, {} operations, {:.1}s",
        prop.id,
        total.cases,
        total.nontrivial.len(),
        total.steps,
        t0.elapsed().as_secs_f64()
    ));
    let _ = |s: &dyn ValueTree<Value = u8>| s.current();
    if viols.is_empty() {
        0
    } else {
        1
    }
}
