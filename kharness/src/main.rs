//! list | replay NAME hex,hex,...  : runs a harness natively on the values of a counterexample
#[cfg(not(kani))]
fn main() {
    use kharness::rt::{Skip, FAILS, IN};
    let a: Vec<String> = std::env::args().collect();
    let t = kharness::table();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for h in t { println!("{}\t{}\t{}\t{}\t{}", h.prop, h.name, h.tier, h.nopanic as u8, h.module.trim_start_matches("kharness::")); }
        return;
    }
    let h = t.iter().find(|h| h.name == a[2]).expect("no such harness");
    for l in a[3].split(',').filter(|s| !s.is_empty()) {
        let v = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        IN.with(|i| i.borrow_mut().push_back(v));
    }
    let r = std::panic::catch_unwind(h.f);
    for f in FAILS.with(|f| f.borrow().clone()) { println!("FAIL {}", f); }
    if let Err(p) = r {
        if p.downcast_ref::<Skip>().is_some() { println!("SKIP"); } else { println!("PANIC"); }
    }
    println!("END");
}
#[cfg(kani)]
fn main() {}
