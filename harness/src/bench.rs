use crate::sim::*;
use crate::world::*;
pub struct R(u64);
impl R { pub fn next_u32(&mut self)->u32 { self.0=self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z=self.0; z=(z^(z>>30)).wrapping_mul(0xBF58476D1CE4E5B9); z=(z^(z>>27)).wrapping_mul(0x94D049BB133111EB); ((z^(z>>31))>>16) as u32 } }
pub fn main() {
    if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let seed: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let cases: u64 = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(100);
    let show: Option<u64> = std::env::args().nth(4).and_then(|x| x.parse().ok());
    let mut w = World::new();
    let t0 = std::time::Instant::now();
    let mut ev: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut seen: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    let mut steps = 0;
    for i in 0..cases {
        let mut r = R(seed.wrapping_mul(1000003).wrapping_add(i).wrapping_mul(0x9E3779B97F4A7C15));
        if show.map_or(false, |x| x != i) { continue; }
        let cfg: Vec<u32> = (0..GENES).map(|_| r.next_u32()).collect();
        let n = 24;
        let ops: Vec<Op> = (0..n).map(|_| { let mut f=[0u32;10]; for x in f.iter_mut() { *x = r.next_u32(); } Op { k: (r.next_u32() % NK as u32) as u8, f } }).collect();
        let mut sim = Sim::new(&mut w, &cfg, Bias{unlist:20, ..Default::default()}, u32::MAX);
        if show.is_some() { sim.trace = Some(vec![]); }
        for op in &ops {
            sim.step(op);
            if steps % 8 == 7 { sim.check_prices(); sim.check_views(op.f[9]); }
            steps += 1;
            if !sim.viol.is_empty() { break; }
        }
        if let Some(t) = &sim.trace { for l in t { eprintln!("{l}"); } }
        for (k, v) in &sim.ev { *ev.entry(k).or_insert(0) += v; }
        for v in &sim.viol {
            if show.is_some() { eprintln!("VIOL {:x} step {}: {}", v.tags, v.step, v.msg); }
            let key: String = v.msg.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
            let e = seen.entry(key).or_insert((0, i)); e.0 += 1;
        }
    }
    let el = t0.elapsed();
    for (k, v) in &ev { eprint!("{k}={v}; "); }
    eprintln!();
    for (k, v) in &seen { eprintln!("{:?} {k}", v); }
    eprintln!("cases {cases} steps {steps} in {:?}", el);
}
