//! Replays the contracts on concrete inputs against the real code: `replay ID SEED TIER OUT`
//! exit 0: nothing found, exit 1: OUT describes a failing input.
mod util;
mod core_props;
mod send_props;
mod index_props;
mod buf_props;
mod assume;
use std::panic::{catch_unwind, AssertUnwindSafe};
use util::Rng;

pub struct Rep { pub cases: u64, pub fail: Option<String>, pub ctx: String, pub hit: std::collections::BTreeMap<String, u64> }
impl Rep {
    /// records one evaluation; `d` describes the failing input
    pub fn check(&mut self, ok: bool, d: impl FnOnce() -> String) {
        self.cases += 1;
        if !ok && self.fail.is_none() { self.fail = Some(d()) }
    }
    pub fn hit(&mut self, k: impl Into<String>) { *self.hit.entry(k.into()).or_default() += 1 }
    pub fn set(&mut self, s: impl FnOnce() -> String) { self.ctx = s() }
}
type F = fn(&mut Rng, usize, &mut Rep);
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, tier, out) = (&a[1], a[2].parse::<u64>().unwrap_or(1), &a[3], &a[4]);
    let all: Vec<(&str, F, usize)> = [core_props::table(), send_props::table(), index_props::table(), buf_props::table(), assume::table()].concat();
    let Some((_, f, n)) = all.iter().find(|x| x.0 == id) else { eprintln!("unknown property"); std::process::exit(2) };
    let n = match &tier[..] { "thorough" => n * 20, "deep" => n * 8, _ => *n };
    let mut rep = Rep { cases: 0, fail: None, ctx: String::new(), hit: Default::default() };
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| { *m2.lock().unwrap() = i.to_string() }));
    let t = std::time::Instant::now();
    let mut i = 0;
    let (mut seen, mut samples) = (std::collections::HashSet::new(), vec![]);
    // one iteration per seed so that a failure is reproduced by its own seed
    while i < n && rep.fail.is_none() && t.elapsed().as_secs() < match &tier[..] { "thorough" => 600, "deep" => 90, _ => 60 } {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let before = rep.cases;
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut Rng(s), i, &mut rep)));
        if r.is_err() && rep.fail.is_none() { rep.fail = Some(format!("panic: {} on {}", msg.lock().unwrap(), rep.ctx)) }
        if let Some(d) = &mut rep.fail { *d = format!("iteration {i} of seed {seed}: {d}") }
        if rep.cases > before && seen.insert(rep.ctx.clone()) && samples.len() < 3 { samples.push(rep.ctx.chars().take(600).collect::<String>()) }
        i += 1;
    }
    let j = serde_json::json!({"property": id, "seed": seed, "tier": tier, "iterations": i, "evaluations": rep.cases, "reached": rep.hit, "distinct": seen.len(), "samples": samples, "failing_input": rep.fail});
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    
    std::process::exit(if rep.fail.is_some() { 1 } else { 0 });
}
