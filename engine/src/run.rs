//! Command line: `list`, `one` (explore a harness symbolically, JSON on stdout),
//! `replay` (run a harness on concrete f64 inputs against the real code).
use crate::h::{self, Harness};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;
use symcore::eng::{Cfg, Stop};
use symcore::explore::{explore, hook, last_panic, Outcome};

pub fn cfg_for(h: &Harness, tier: u8, seed: u64) -> Cfg {
    let mut c = Cfg::default();
    c.concrete_eps = h.flags & h::CONCRETE_EPS != 0;
    c.seed = seed;
    if tier == 1 { c.obl_ms = 60_000; c.path_ms = 180_000; }
    if h.flags & h::BRISK != 0 { c.witnessed = true; c.feas_ms = 300; c.raw_ms = 300; c.raw_total_s = 6.0; }
    c
}
pub fn run_one(h: &Harness, tier: u8, seed: u64, budget: f64, trace: bool) -> Outcome {
    let f = h.sym;
    let p = h.p.clone();
    explore(&move || f(&p), cfg_for(h, tier, seed), Duration::from_secs_f64(budget), 50_000, trace)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff)); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hexv(v: &[f64]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{:016x}\"", x.to_bits())).collect::<Vec<_>>().join(",")) }
fn strs(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")) }

fn outcome_json(h: &Harness, o: &Outcome) -> String {
    let s = &o.stats;
    let c: Vec<String> = o.cands.iter().map(|c| format!("{{\"label\":{},\"path\":{},\"inputs\":[{}]}}", js(&c.label), js(&c.path), c.inputs.iter().map(|v| hexv(v)).collect::<Vec<_>>().join(","))).collect();
    format!("{{\"id\":{},\"paths\":{},\"strata\":{},\"infeasible\":{},\"assume\":{},\"decisions\":{},\"obl\":{},\"obl_norm\":{},\"obl_smt\":{},\"obl_bool\":{},\"raw_unsat\":{},\"raw_unknown\":{},\"raw_obl\":{},\"max_terms\":{},\"dirty\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"smt_s\":{:.3},\"smt_max\":{:.3},\"wall\":{:.3},\"sample_path\":{},\"names\":{},\"undecided\":{},\"dirty_events\":{},\"probes\":[{}],\"stuck\":[{}],\"cands\":[{}]}}",
        js(&h.id()), s.paths, s.strata, s.infeasible, s.assume, s.decisions, s.obl, s.obl_norm, s.obl_smt, s.obl_bool, s.raw_unsat, s.raw_unknown, s.raw_obl, s.max_terms, s.dirty,
        o.smt.queries, o.smt.sat, o.smt.unsat, o.smt.unknown, o.smt.time, o.smt.max, o.wall, js(&o.sample_path), strs(&o.names), strs(&o.undecided), strs(&o.dirty),
        o.probes.iter().map(|v| hexv(v)).collect::<Vec<_>>().join(","), o.stuck.iter().map(|v| hexv(v)).collect::<Vec<_>>().join(","), c.join(","))
}

pub struct Rep { pub skip: bool, pub fails: Vec<String>, pub checks: u64 }
/// Run the harness on concrete inputs against the real code in f64. Harnesses that only emit results are run once
/// per pattern of fresh memory, and the results compared.
pub fn replay(h: &Harness, inputs: &[f64], tol: f64) -> Rep {
    use std::sync::atomic::Ordering;
    if h.flags & h::FILLS == 0 { return replay1(h, inputs, tol).0; }
    let (mut r, mut o0): (Rep, Vec<(String, u64)>) = (Rep { skip: false, fails: vec![], checks: 0 }, vec![]);
    for (k, b) in [0u8, 0x3f, 0xff, 0xc0].iter().enumerate() {
        symcore::alloc::POISON.store(*b, Ordering::Relaxed);
        let (x, o) = replay1(h, inputs, tol);
        if k == 0 { r = x; o0 = o; continue; }
        r.skip = r.skip || x.skip;
        r.fails.extend(x.fails);
        for (p, q) in o0.iter().zip(o.iter()) { if p != q { r.fails.push(format!("{}: {:016x} or {:016x} depending on what memory held before", p.0, p.1, q.1)); } }
        if o0.len() != o.len() { r.fails.push("the number of results depends on what memory held before".to_string()); }
    }
    symcore::alloc::POISON.store(0xa5, Ordering::Relaxed);
    r
}
fn replay1(h: &Harness, inputs: &[f64], tol: f64) -> (Rep, Vec<(String, u64)>) {
    symcore::fl::flw(|f| { *f = Default::default(); f.inputs = inputs.to_vec(); f.tol = tol; });
    let (f, p) = (h.flt, h.p.clone());
    let r = catch_unwind(AssertUnwindSafe(|| f(&p)));
    let (mut fails, checks) = symcore::fl::flw(|f| (std::mem::take(&mut f.fails), f.checks));
    let mut skip = false;
    if let Err(p) = r {
        match p.downcast::<Stop>() {
            Ok(_) => skip = true,
            Err(_) => fails.push(format!("panicked: {}", last_panic())),
        }
    }
    (Rep { skip, fails, checks }, symcore::fl::flw(|f| std::mem::take(&mut f.outs)))
}
fn big<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}
fn find(id: &str) -> Option<Harness> { h::all().into_iter().find(|h| h.id() == id) }

fn parse_in(a: &[String]) -> Vec<Vec<f64>> {
    a.iter().filter(|x| x.starts_with("in:")).map(|x| x[3..].split(',').filter(|y| !y.is_empty()).map(|y| f64::from_bits(u64::from_str_radix(y, 16).unwrap_or(0))).collect()).collect()
}

pub fn main() -> i32 {
    hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let trace = a.iter().any(|x| x == "--trace");
    let tier: u8 = if opt("--tier").as_deref() == Some("thorough") { 1 } else { 0 };
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(300.0);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => { for h in h::all() { println!("{}\t{}\t{}\t{}", h.prop, h.id(), h.tier, h.flags); } 0 }
        Some("one") => {
            let h = match find(&a[2]) { Some(h) => h, None => return 2 };
            let s = big(move || { hook(); let o = run_one(&h, tier, seed, budget, trace); outcome_json(&h, &o) });
            println!("{}", s);
            let _ = std::io::stdout().flush();
            0
        }
        Some("exact") => {
            let h = match find(&a[2]) { Some(h) => h, None => return 2 };
            let v: Vec<f64> = parse_in(&a).into_iter().next().unwrap_or_default();
            let s = big(move || {
                hook();
                let (f, p) = (h.sym, h.p.clone());
                let mut c = cfg_for(&h, tier, seed);
                c.concrete_eps = true;
                c.raw_ms = 0;
                let body = move || { crate::elem::EXACT.with(|x| *x.borrow_mut() = Some(v.iter().cloned().collect())); f(&p) };
                let o = explore(&body, c, Duration::from_secs(20), 10, false);
                outcome_json(&h, &o)
            });
            println!("{}", s);
            0
        }
        Some("replay") => {
            // replay ID --tol T --fill B  <hex inputs, comma separated>...
            let h = match find(&a[2]) { Some(h) => h, None => return 2 };
            let tol: f64 = opt("--tol").and_then(|s| s.parse().ok()).unwrap_or(1e-6);
            if let Some(b) = opt("--fill").and_then(|s| s.parse::<u8>().ok()) { symcore::alloc::POISON.store(b, std::sync::atomic::Ordering::Relaxed); }
            let ins = parse_in(&a);
            big(move || {
                hook();
                for v in ins {
                    println!("BEGIN");
                    let _ = std::io::stdout().flush();
                    let r = replay(&h, &v, tol);
                    println!("{{\"skip\":{},\"checks\":{},\"fails\":{}}}", r.skip, r.checks, strs(&r.fails));
                    let _ = std::io::stdout().flush();
                }
            });
            0
        }
        Some("explore") => {
            let mut hs: Vec<Harness> = h::all().into_iter().filter(|h| h.id().starts_with(&a[2]) || h.prop == a[2]).filter(|h| h.tier <= tier).collect();
            // --p: other parameters for the first harness that matches (for trying bounds out)
            if let Some(p) = opt("--p") { hs.truncate(1); for h in hs.iter_mut() { h.p = p.split(',').filter_map(|x| x.parse().ok()).collect(); } }
            for h in hs {
                big(move || {
                    hook();
                    let o = run_one(&h, tier, seed, budget, trace);
                    println!("{:<34} {:>7.2}s paths={} strata={} infeas={} assume={} dec={} obl={}/{}/{} raw={}/{}/{} maxterms={} q={} ({}s/{}u/{}?) smt={:.2}s max={:.2} cands={} undec={} dirty={}",
                        h.id(), o.wall, o.stats.paths, o.stats.strata, o.stats.infeasible, o.stats.assume, o.stats.decisions, o.stats.obl_norm, o.stats.obl_smt, o.stats.obl_bool,
                        o.stats.raw_unsat, o.stats.raw_unknown, o.stats.raw_obl, o.stats.max_terms, o.smt.queries, o.smt.sat, o.smt.unsat, o.smt.unknown, o.smt.time, o.smt.max, o.cands.len(), o.undecided.len(), o.stats.dirty);
                    for c in o.cands.iter().take(4) {
                        println!("   CAND {} inputs={:?} path={}", c.label, c.inputs.first(), c.path);
                        for i in c.inputs.iter().take(6) { let r = replay(&h, i, 1e-6); println!("      replay {:?} skip={} fails={:?}", i, r.skip, r.fails.first()); }
                    }
                    let mut bad = 0;
                    for p in o.probes.iter() { let r = replay(&h, p, 1e-4); if !r.fails.is_empty() { bad += 1; if bad < 4 { println!("   XVAL {:?} {:?}", p, r.fails.first()); } } }
                    if bad > 0 { println!("   XVAL mismatches {}/{}", bad, o.probes.len()); }
                    for u in o.undecided.iter().take(4) { println!("   UNDEC {}", u); }
                });
            }
            0
        }
        _ => 2,
    }
}
