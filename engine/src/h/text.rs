//! C27 CSV reading, C30 debug text. The text itself is built from symbolic choices: every choice is a symbolic number
//! compared inside the code under test (or while the file is written), so each way of choosing is a path.
use super::*;
use crate::elem::{panics, Elem};
use crate::reg;
use la::Matrix;
use std::cell::RefCell;
use std::fmt;

/// an element whose debug text has a symbolic number of letters (at most `max`)
#[derive(Clone, Copy)]
struct Tx<T> { len: T, k: usize, max: usize }
/// texts of different elements share no letter for a while; one letter in four takes more than one byte
fn letter(k: usize, i: usize) -> char { ['a', 'b', 'c', '\u{e9}', 'e', 'f', 'g', '\u{3b8}', 'i', 'j', 'k', '\u{20ac}', 'm', 'n', 'o', 'p', 'q', 'r', '\u{fc}', 't', 'u', 'v', 'w', 'x', '\u{107}', 'z'][(3 * k + i) % 26] }
impl<T: Elem> fmt::Debug for Tx<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut i = 0;
        while i < self.max && self.len > T::int(i as i64) { write!(f, "{}", letter(self.k, i))?; i += 1; }
        Ok(())
    }
}
pub fn debug_text<T: Elem>(p: &[i64]) {
    let (m, n, max) = (p[0] as usize, p[1] as usize, p[2] as usize);
    check_text((0..m * n).map(|k| Tx { len: T::var(&format!("len{}", k)), k, max }).collect(), m, n);
}
/// one text of symbolic length, the others constant and non-empty: p = [m, n, longest, seed]
pub fn debug_wide<T: Elem>(p: &[i64]) {
    let (m, n, max) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let mut g = super::large::Gen::new(p[3]);
    let s = g.int(0, (m * n) as i64 - 1) as usize;
    check_text((0..m * n).map(|k| { let c = g.int(1, p[2]); Tx { len: if k == s { T::var("len") } else { T::int(c) }, k, max } }).collect(), m, n);
}
fn check_text<T: Elem>(d: Vec<Tx<T>>, m: usize, n: usize) {
    let a = Matrix::new(m, n, d.clone());
    let s = format!("{:?}", a);
    // the texts themselves
    let texts: Vec<String> = d.iter().map(|e| format!("{:?}", e)).collect();
    let lines: Vec<Vec<char>> = s.split('\n').filter(|l| !l.is_empty()).map(|l| l.chars().collect()).collect();
    T::ok(lines.len() == m, "debug: one line per row");
    let p = written(|| a.print());
    let p: Vec<Vec<char>> = p.split('\n').filter(|l| !l.is_empty()).map(|l| l.chars().collect()).collect();
    T::ok(p == lines, "print: writes the debug text to the standard output");
    if lines.len() != m { return; }
    let mut ends: Vec<Option<usize>> = vec![None; n];
    for i in 0..m {
        let l = &lines[i];
        let bars = l.len() >= 2 && l[0] == '|' && l[l.len() - 1] == '|' && l.iter().filter(|c| **c == '|').count() == 2;
        T::ok(bars, "debug: rows are delimited by bars");
        if !bars { return; }
        T::ok(l.len() == lines[0].len(), "debug: rows have equal length");
        let mut pos = 1;
        let mut ok = true;
        for j in 0..n {
            let w: Vec<char> = texts[i * n + j].chars().collect();
            if w.is_empty() { continue; }
            let start = pos;
            while pos < l.len() && l[pos] == ' ' { pos += 1; }
            ok = ok && pos > start && pos + w.len() < l.len() && l[pos..pos + w.len()] == w[..];
            if !ok { break; }
            pos += w.len();
            match ends[j] {
                None => ends[j] = Some(pos),
                Some(e) => T::ok(e == pos, "debug: columns are right-aligned"),
            }
        }
        T::ok(ok && l[pos..l.len() - 1].iter().all(|c| *c == ' '), "debug: the elements of the row in order");
    }
    for j in 1..n {
        for k in 0..j { if let (Some(x), Some(y)) = (ends[k], ends[j]) { T::ok(x < y, "debug: columns in order"); } }
    }
}
/// everything `f` writes to the standard output
fn written(f: impl FnOnce()) -> String {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::AsRawFd;
    extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; }
    struct Back(i32);
    impl Drop for Back { fn drop(&mut self) { let _ = std::io::stdout().flush(); unsafe { dup2(self.0, 1); close(self.0); } } }
    let path = std::env::temp_dir().join(format!("symla-out-{}", std::process::id()));
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch file");
    let _ = std::fs::remove_file(&path);
    {
        let _ = std::io::stdout().flush();
        let back = unsafe { let b = Back(dup(1)); dup2(file.as_raw_fd(), 1); b };
        f();
        drop(back);
    }
    let mut s = String::new();
    let _ = file.seek(SeekFrom::Start(0));
    let _ = file.read_to_string(&mut s);
    s
}
/// the bars, with real element types
pub fn debug_numbers<T: Elem>(p: &[i64]) {
    let sets: [&[f64]; 3] = [&[1.0, -2.5, 1e300, 0.0, 12345.678, -1.0], &[0.0, 0.0, 0.0, 0.0, 0.0, 0.0], &[f64::INFINITY, f64::NAN, -0.0, 1e-300, 7.0, -7.125]];
    let d = sets[p[0] as usize];
    for (m, n) in [(1, 6), (2, 3), (3, 2), (6, 1)] {
        let s = format!("{:?}", Matrix::new(m, n, d.to_vec()));
        let lines: Vec<&str> = s.split('\n').filter(|l| !l.is_empty()).collect();
        T::ok(lines.len() == m, "debug: one line per row");
        let a = Matrix::new(m, n, d.to_vec());
        let p = written(|| a.print());
        T::ok(p.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>() == lines, "print: writes the debug text to the standard output");
        for (i, l) in lines.iter().enumerate() {
            T::ok(l.len() == lines[0].len() && l.starts_with('|') && l.ends_with('|'), "debug: rows delimited by bars and of equal length");
            let w: Vec<String> = l.trim_matches('|').split_whitespace().map(|x| x.to_string()).collect();
            let want: Vec<String> = (0..n).map(|j| format!("{:?}", d[(i * n + j).min(5)])).collect();
            T::ok(w == want, "debug: the elements of the row in order");
        }
    }
}

// ------------------------------------------------------------------ C27
struct Scratch(String);
impl Scratch {
    fn new(text: &str) -> Scratch {
        let p = format!("{}/symla-{}-{:?}.csv", std::env::temp_dir().display(), std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
        std::fs::write(&p, text).expect("scratch file");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

/// what the file means: lines of trimmed fields
fn meaning(text: &str) -> Vec<Vec<String>> {
    let mut lines: Vec<String> = vec![];
    let mut cur = String::new();
    let mut open = false;
    for c in text.chars() {
        if c == '\n' { if cur.ends_with('\r') { cur.pop(); } lines.push(std::mem::take(&mut cur)); open = false; } else { cur.push(c); open = true; }
    }
    if open { lines.push(cur); }
    lines.iter().map(|l| {
        let mut f: Vec<Vec<char>> = vec![vec![]];
        for c in l.chars() { if c == ',' { f.push(vec![]) } else { f.last_mut().unwrap().push(c) } }
        f.iter().map(|x| {
            let ws = |c: &char| c.is_whitespace();
            let a = x.iter().position(|c| !ws(c)).unwrap_or(x.len());
            let b = x.iter().rposition(|c| !ws(c)).map_or(a, |k| k + 1);
            x[a..b].iter().collect()
        }).collect()
    }).collect()
}
fn check_csv<T: Elem>(text: &str) {
    let want = meaning(text);
    let f = Scratch::new(text);
    // the parser's value for each distinct field text is an unconstrained symbol (as many as there are symbols for)
    let seen: RefCell<Vec<(String, T)>> = RefCell::new(vec![]);
    let parser = |s: &str| -> T {
        if let Some(x) = seen.borrow().iter().find(|x| x.0 == s) { return x.1; }
        let k = seen.borrow().len();
        let v = T::var(&format!("v{}", k));
        seen.borrow_mut().push((s.to_string(), v));
        v
    };
    let bad = want.is_empty() || want.iter().any(|l| l.len() != want[0].len());
    if bad {
        panics::<T, _>("read_csv: ragged lines and empty files are rejected", || la::util::read_csv(&f.0, &parser));
        return;
    }
    let a = la::util::read_csv(&f.0, &parser);
    let (m, n) = (want.len(), want[0].len());
    if !shape(&a, m, n, "read_csv: one row per line, one column per field") { return; }
    for i in 0..m { for j in 0..n { T::eq_(at(&a, i, j), parser(&want[i][j]), "read_csv: the parser's value for the trimmed field"); } }
}
fn pick<T: Elem>(nm: &str, n: usize) -> usize {
    let c = T::var(nm);
    let mut k = 0;
    while k + 1 < n && c > T::int(k as i64 + 1) { k += 1; }
    k
}
/// every text of exactly p[0] characters that starts with character p[1] of the alphabet
pub fn csv_chars<T: Elem>(p: &[i64]) {
    const ALPHA: [&str; 6] = [",", "\n", "a", " ", "b", "\r\n"];
    let mut s = String::new();
    for k in 0..p[0] as usize {
        let c = if k == 0 && p[1] >= 0 { p[1] as usize } else { pick::<T>(&format!("c{}", k), ALPHA.len()) };
        s.push_str(ALPHA[c]);
    }
    check_csv::<T>(&s);
}
/// p[0] lines of p[1] fields, each field with a symbolic choice of text and padding, symbolic line ends, and (p[2] = 1)
/// one line with a field more or less
pub fn csv_table<T: Elem>(p: &[i64]) {
    const FIELD: [&str; 4] = ["x", "", " 1.5\t", "y z "];
    const PLAIN: [&str; 3] = ["\t-7 ", "q", "  "];
    let (m, n) = (p[0] as usize, p[1] as usize);
    let (line, by) = if p[2] == 1 { (pick::<T>("line", m), pick::<T>("by", 2)) } else { (m, 0) };
    let hot = pick::<T>("hot", m * n);
    let end = pick::<T>("end", 3);
    let mut s = String::new();
    for i in 0..m {
        let w = if i == line { if by == 0 { n + 1 } else { n - 1 } } else { n };
        for j in 0..w {
            if j > 0 { s.push(','); }
            let k = i * n + j;
            // two neighbouring fields are chosen freely, the others cycle through distinct texts
            if k == hot || k == hot + 1 { s.push_str(FIELD[pick::<T>(&format!("f{}", k - hot), 4)]); } else { s.push_str(PLAIN[k % 3]); s.push_str(&"k".repeat(k / 3)); }
        }
        if i + 1 < m || end > 0 { s.push_str(if end == 2 { "\r\n" } else { "\n" }); }
    }
    check_csv::<T>(&s);
}
pub fn csv_long<T: Elem>(p: &[i64]) {
    // more lines and fields than any buffer the reader might start with
    let (m, n) = (p[0] as usize, p[1] as usize);
    let mut s = String::new();
    for i in 0..m { for j in 0..n { s.push_str(&format!("{} {}", if j > 0 { "," } else { "" }, i * n + j)); } s.push('\n'); }
    let f = Scratch::new(&s);
    let (u, v) = (T::var("u"), T::var("v"));
    let a = la::util::read_csv(&f.0, &|x: &str| u + T::int(x.parse::<i64>().unwrap_or(-1)) * v);
    if !shape(&a, m, n, "read_csv: one row per line, one column per field") { return; }
    for k in 0..m * n { if k % 97 == 0 || k + 3 > m * n { T::eq_(a.get_data()[k], u + T::int(k as i64) * v, "read_csv: fields in order"); } }
}
pub fn csv_missing<T: Elem>(_: &[i64]) {
    let p = { Scratch::new("").0.clone() };
    panics::<T, _>("read_csv: a file that does not exist is rejected", || la::util::read_csv::<T>(&p, &|_: &str| T::one()));
    let f = Scratch::new("");
    panics::<T, _>("read_csv: ragged lines and empty files are rejected", || la::util::read_csv::<T>(&f.0, &|_: &str| T::one()));
}

pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "C30", debug_text, 0, 0, [1, 1, 4], [1, 2, 4], [2, 1, 4], [1, 3, 3], [3, 1, 3], [2, 2, 3], [2, 3, 2], [3, 2, 2], [1, 4, 3], [4, 1, 3]);
    reg!(v, "C30", debug_text, 1, 0, [2, 2, 6], [2, 3, 3], [3, 2, 3], [3, 3, 2], [2, 4, 2], [4, 2, 2]);
    reg!(v, "C30", debug_wide, 0, 0, [5, 5, 6, 1], [1, 9, 8, 2], [9, 2, 12, 3], [2, 9, 5, 4], [4, 4, 20, 5], [17, 1, 9, 6], [1, 17, 3, 7], [3, 3, 24, 8], [6, 5, 7, 9], [12, 12, 10, 10]);
    reg!(v, "C30", debug_numbers, 0, 0, [0], [1], [2]);
    reg!(v, "C27", csv_chars, 0, 0, [1, -1], [2, -1], [3, -1], [4, 0], [4, 1], [4, 2], [4, 3], [4, 4], [4, 5], [5, 0], [5, 1], [5, 2], [5, 3], [5, 4], [5, 5]);
    reg!(v, "C27", csv_chars, 1, 0, [6, 0], [6, 1], [6, 2], [6, 3], [6, 4], [6, 5]);
    reg!(v, "C27", csv_table, 0, 0, [1, 1, 0], [1, 3, 0], [2, 2, 0], [3, 1, 0], [3, 3, 0], [2, 5, 0], [2, 2, 1], [3, 2, 1], [3, 3, 1], [2, 4, 1]);
    reg!(v, "C27", csv_table, 1, 0, [4, 4, 1], [5, 3, 1], [5, 5, 0], [3, 8, 0]);
    reg!(v, "C27", csv_long, 0, 0, [40, 3], [3, 40], [200, 90], [1, 2000], [2000, 1]);
    reg!(v, "C27", csv_missing, 0, 0, [0]);
}
