//! Path exploration by re-execution.
use crate::eng::{self, install, uninstall, with, Cand, Cfg, Eng, Stats, Stop, Task};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

#[derive(Default)]
pub struct Outcome {
    pub stats: Stats,
    pub smt: crate::solver::Stats,
    pub cands: Vec<Cand>,
    pub undecided: Vec<String>,
    pub dirty: Vec<String>,
    /// one concrete input per path for validation against the real code in f64
    pub probes: Vec<Vec<f64>>,
    /// inputs of paths on which the engine gave up
    pub stuck: Vec<Vec<f64>>,
    pub names: Vec<String>,
    pub sample_path: String,
    pub wall: f64,
}

pub fn explore(body: &dyn Fn(), cfg: Cfg, budget: Duration, max_paths: u64, trace: bool) -> Outcome {
    let t0 = Instant::now();
    let mut e = Eng::new(cfg.clone());
    e.trace = trace;
    if let Ok(p) = std::env::var("SYMLA_SMTLOG") { e.solver.log = std::fs::File::create(p).ok(); }
    install(e);
    let mut work = vec![Task::default()];
    let mut seen: HashSet<Task> = HashSet::new();
    let mut out = Outcome::default();
    while let Some(t) = work.pop() {
        if t0.elapsed() > budget || with(|e| e.stats.paths) >= max_paths {
            out.undecided.push(format!("exploration budget exhausted with {} tasks left", work.len() + 1));
            break;
        }
        if with(|e| e.cands.len()) >= 12 { out.undecided.push("stopped after 12 candidate violations".into()); break; }
        if trace { eprintln!("TASK depth={} subst={:?} side={} eqs={} prog={} full={}", t.depth, t.subst, t.side.len(), t.eqs.len(), t.prog.len(), t.full.len()); }
        let r = catch_unwind(AssertUnwindSafe(|| {
            with(|e| e.reset(t));
            with(|e| e.begin());
            body();
        }));
        let mut done = false;
        match r {
            Ok(()) => { done = true; with(|e| e.stats.paths += 1); }
            Err(p) => match p.downcast::<Stop>() {
                Ok(s) => match *s {
                    Stop::Abort(m) => {
                        if trace { eprintln!("ABORT {}", m); }
                        with(|e| {
                            e.stats.paths += 1;
                            let mut pt = e.path_text();
                            pt.truncate(300);
                            e.undecided.push(format!("engine: {} [{}]", m, pt));
                            let v: Vec<Vec<f64>> = e.samples.iter().take(3).map(|s| e.inputs_at(s)).collect();
                            if e.task.subst.is_empty() && e.task.eqs.is_empty() { out.stuck.extend(v); }
                        });
                    }
                    Stop::Strata => with(|e| e.stats.strata += 1),
                    Stop::Infeasible => with(|e| e.stats.infeasible += 1),
                    Stop::Assume => with(|e| e.stats.assume += 1),
                    Stop::Cut => with(|e| { e.stats.paths += 1; e.stats.obl += 1; e.stats.obl_bool += 1; }),
                },
                Err(_) => {
                    let m = last_panic();
                    if trace { eprintln!("PANIC {}", m); }
                    if m.contains(" at core/src/") || m.contains(" at src/sym.rs") || m.contains(" at src/elem.rs") {
                        with(|e| { e.stats.paths += 1; e.undecided.push(format!("engine panic: {}", m)); });
                    } else {
                        let r = catch_unwind(AssertUnwindSafe(|| with(|e| { e.stats.paths += 1; e.report(&format!("panicked: {}", m)) })));
                        if r.is_err() { with(|e| e.undecided.push("panic path could not be confirmed".into())); }
                    }
                }
            },
        }
        with(|e| {
            if done {
                e.raw_check();
                if let Some(i) = e.witness() { out.probes.push(i); }
                if out.sample_path.is_empty() || e.pc.len() > 0 && out.sample_path.len() < 40 { out.sample_path = e.path_text(); }
            }
            if e.names.len() > out.names.len() { out.names = e.names.clone(); }
            let sp = std::mem::take(&mut e.spawned);
            for t in sp {
                if !t.full.is_empty() || seen.insert(t.clone()) { work.push(t); }
            }
        });
        if trace { eprintln!("-- path end done={} work={} {:.2}s terms={}", done, work.len(), with(|e| e.t0.elapsed().as_secs_f64()), with(|e| e.stats.max_terms)); }
    }
    let e = uninstall().unwrap();
    out.stats = e.stats.clone();
    out.smt = e.solver.stats.clone();
    out.cands = e.cands.clone();
    out.undecided.extend(e.undecided.iter().cloned());
    out.dirty = e.dirty_events.clone();
    out.wall = t0.elapsed().as_secs_f64();
    let _ = eng::ALL;
    out
}
