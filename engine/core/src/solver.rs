//! SMT solver processes (z3 in two versions), one set per worker thread.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

struct Proc { child: Child, stdin: ChildStdin, rx: Receiver<String> }

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(cmd: &str, args: &[&str]) -> Option<Proc> {
    let mut child = Command::new(cmd).args(args)
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let stdin = child.stdin.take()?;
    let out = child.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break }
        }
    });
    Some(Proc { child, stdin, rx })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max: f64,
}

pub struct Solver {
    procs: Vec<Option<Proc>>,
    pub stats: Stats,
    pub log: Option<std::fs::File>,
    seq: u64,
}

const CMDS: [(&str, &[&str]); 3] = [
    ("z3-new", &["-in", "-memory:3000"]),
    ("z3", &["-in", "-memory:3000"]),
    ("cvc5", &["--incremental", "--lang=smt2", "--nl-cov"]),
];

impl Solver {
    pub fn new() -> Solver { Solver { procs: vec![None, None, None], stats: Stats::default(), log: None, seq: 0 } }

    fn ask(&mut self, which: usize, decls: &str, asserts: &str, want: &[String], ms: u64) -> (Res, Vec<String>) {
        if self.procs[which].is_none() {
            self.procs[which] = spawn(CMDS[which].0, CMDS[which].1);
        }
        self.seq += 1;
        let mark = format!("done-{}", self.seq);
        let opts = if which == 2 {
            format!("(reset)\n(set-option :tlimit-per {})\n(set-option :produce-models true)\n(set-logic QF_NRA)\n", ms)
        } else {
            format!("(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-logic QF_NRA)\n", ms)
        };
        let q = format!("{}{}{}(check-sat)\n(echo \"{}\")\n", opts, decls, asserts, mark);
        if let Some(l) = self.log.as_mut() { let _ = l.write_all(q.as_bytes()); }
        let t0 = Instant::now();
        let hard = Duration::from_millis(ms + ms / 2 + 700);
        let mut res = Res::Unknown;
        let mut vals = vec![];
        let mut dead = false;
        match self.procs[which].as_mut() {
            None => return (Res::Unknown, vals),
            Some(p) => {
                if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() { dead = true; }
                while !dead {
                    let left = hard.checked_sub(t0.elapsed()).unwrap_or(Duration::from_millis(1));
                    match p.rx.recv_timeout(left) {
                        Ok(l) => {
                            let l = l.trim().trim_matches('"').to_string();
                            if l == "sat" { res = Res::Sat; }
                            else if l == "unsat" { res = Res::Unsat; }
                            else if l == mark { break; }
                        }
                        Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => { dead = true; }
                    }
                }
                if !dead && res == Res::Sat && !want.is_empty() {
                    let mark2 = format!("{}v", mark);
                    let mut g = String::new();
                    for w in want { g.push_str(&format!("(get-value ({}))\n", w)); }
                    g.push_str(&format!("(echo \"{}\")\n", mark2));
                    if p.stdin.write_all(g.as_bytes()).is_err() { dead = true; }
                    let t1 = Instant::now();
                    let mut acc = String::new();
                    while !dead {
                        let left = Duration::from_secs(5).checked_sub(t1.elapsed()).unwrap_or(Duration::from_millis(1));
                        match p.rx.recv_timeout(left) {
                            Ok(l) => {
                                if l.trim().trim_matches('"') == mark2 { break; }
                                acc.push_str(&l);
                                acc.push(' ');
                            }
                            Err(_) => { dead = true; }
                        }
                    }
                    vals = split_values(&acc);
                }
            }
        }
        if dead { self.procs[which] = None; }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max { self.stats.max = dt; }
        match res { Res::Sat => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        (res, vals)
    }

    /// Decide satisfiability; `want` are the variables whose model values are returned.
    pub fn check(&mut self, decls: &str, asserts: &str, want: &[String], plan: &[(usize, u64)]) -> (Res, Vec<f64>) {
        for &(w, ms) in plan {
            let (r, v) = self.ask(w, decls, asserts, want, ms);
            if r != Res::Unknown {
                let mut vals: Vec<f64> = v.iter().map(|s| parse_value(s)).collect();
                while vals.len() < want.len() { vals.push(0.0); }
                return (r, vals);
            }
        }
        (Res::Unknown, vec![])
    }
}

/// "((v1 (/ 1 2))) ((v2 3))" -> ["(/ 1 2)", "3"]
fn split_values(s: &str) -> Vec<String> {
    let mut out = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '(' {
            let mut d = 0;
            let st = i;
            while i < b.len() {
                if b[i] == '(' { d += 1; }
                if b[i] == ')' { d -= 1; if d == 0 { break; } }
                i += 1;
            }
            let inner: String = b[st..=i.min(b.len() - 1)].iter().collect();
            let inner = inner.trim_start_matches("((");
            let inner = inner.strip_suffix("))").unwrap_or(inner);
            let v = inner.splitn(2, char::is_whitespace).nth(1).unwrap_or("0").trim().to_string();
            out.push(v);
        }
        i += 1;
    }
    out
}

fn parse_value(s: &str) -> f64 {
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut p = 0;
    fn go(t: &[String], p: &mut usize) -> f64 {
        if *p >= t.len() { return 0.0; }
        if t[*p] == "(" {
            *p += 1;
            let op = t.get(*p).cloned().unwrap_or_default();
            *p += 1;
            let mut a = vec![];
            while *p < t.len() && t[*p] != ")" { a.push(go(t, p)); }
            *p += 1;
            match (op.as_str(), a.len()) {
                ("-", 1) => -a[0],
                ("-", _) => a.iter().skip(1).fold(a[0], |x, y| x - y),
                ("/", 2) => a[0] / a[1],
                ("+", _) => a.iter().sum(),
                ("*", _) => a.iter().product(),
                _ => f64::NAN,
            }
        } else {
            let v = t[*p].trim_end_matches('?').parse::<f64>().unwrap_or(f64::NAN);
            *p += 1;
            v
        }
    }
    go(&toks, &mut p)
}
