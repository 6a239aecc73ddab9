//! Executable contracts on the real metrix crate: counterexample search and replay.
//!   vn PROP --seed S --cases N --secs T --out FILE
//!   vn PROP --replay CONTRACT:SEED:INDEX
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

mod clock;
mod rng;
mod routes;
mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c11;
mod c12;
mod c13;
mod c14;
mod c18;
mod proc;
mod c26;
mod c27;
mod c28;
mod act;
mod drv;
mod met;

pub use rng::Rng;

/// One generated case.
pub struct Case { pub rng: Rng, pub size: usize, pub log: Vec<String>, pub sig: u64, pub trivial: bool }
impl Case {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        for b in s.bytes() { self.sig = (self.sig ^ b as u64).wrapping_mul(0x100000001b3); }
        if self.log.len() < 400 { self.log.push(s); }
    }
}
pub type Contract = (&'static str, fn(&mut Case));

static LAST: Mutex<String> = Mutex::new(String::new());

#[macro_export]
macro_rules! must { ($c:expr, $($a:tt)*) => { if !$c { panic!($($a)*) } } }
#[macro_export]
macro_rules! must_eq { ($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if !(a == b) { panic!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) } }} }

fn contracts(p: &str) -> Option<&'static [Contract]> {
    Some(match p {
        "C01" => c01::CONTRACTS,
        "C02" => c02::CONTRACTS,
        "C03" => c03::CONTRACTS,
        "C04" => c04::CONTRACTS,
        "C05" => c05::CONTRACTS,
        "C06" => c06::CONTRACTS,
        "C07" => c06::CONTRACTS07,
        "C08" => proc::CONTRACTS08,
        "C09" => proc::CONTRACTS09,
        "C10" => proc::CONTRACTS10,
        "C11" => c11::CONTRACTS,
        "C12" => c12::CONTRACTS,
        "C13" => c13::CONTRACTS,
        "C14" => c14::CONTRACTS,
        "C15" => proc::CONTRACTS15,
        "C16" => proc::CONTRACTS16,
        "C17" => act::CONTRACTS17,
        "C18" => c18::CONTRACTS,
        "C19" => c18::CONTRACTS19,
        "C20" => c18::CONTRACTS20,
        "C21" => c18::CONTRACTS21,
        "C22" => met::CONTRACTS,
        "C23" => act::CONTRACTS23,
        "C24" => act::CONTRACTS24,
        "C25" => drv::CONTRACTS,
        "C26" => c26::CONTRACTS,
        "C27" => c27::CONTRACTS,
        "C28" => c28::CONTRACTS,
        _ => return None,
    })
}

fn run_case(f: fn(&mut Case), name: &str, seed: u64, index: u64) -> (Case, Option<String>) {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD1342543DE82EF95);
    for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    let mut rng = Rng(h); rng.next();
    let size = (2 + index as usize / 4).min(2 + rng.usize(40));
    let mut c = Case { rng, size, log: vec![], sig: 0xcbf29ce484222325, trivial: false };
    clock::start();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    clock::real();
    match r { Ok(()) => (c, None), Err(e) if e.is::<clock::Inconclusive>() => { c.trivial = true; (c, None) } Err(_) => { let m = LAST.lock().unwrap().clone(); (c, Some(m)) } }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map(|l| format!(" [{}:{}]", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST.lock() { *g = format!("{}{}", m, l); }
    }));
    let cs: Vec<Contract> = match contracts(&prop) { Some(c) => c.iter().chain(routes::of(&prop)).copied().collect(), None => { println!("no contracts for {}", prop); std::process::exit(3) } };
    if let Some(r) = get("--replay") {
        let p: Vec<&str> = r.split(':').collect();
        let (name, f) = cs.iter().find(|c| c.0 == p[0]).expect("contract");
        let (c, e) = run_case(*f, name, p[1].parse().unwrap(), p[2].parse().unwrap());
        for l in &c.log { println!("  {}", l); }
        match e { Some(m) => { println!("FAILS: {}", m); std::process::exit(1) } None => println!("holds") }
        return;
    }
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(2000);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    let out = get("--out");
    let t0 = SystemTime::now();
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let mut fails: Vec<(String, u64, String, Vec<String>)> = vec![];
    let mut failed: HashSet<&str> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    'o: for i in 0..cases {
        for (name, f) in &cs {
            let name = *name; if failed.contains(name) { continue; }
            let (c, e) = run_case(*f, name, seed, i);
            evals += 1; *per.entry(name).or_insert(0) += 1;
            if !c.trivial { distinct.insert(c.sig ^ name.len() as u64); }
            if i == 3 { samples.push(format!("{}: {}", name, c.log.join("; ").chars().take(400).collect::<String>())); }
            if let Some(m) = e { failed.insert(name); fails.push((name.to_string(), i, m, c.log)); }
        }
        if i % 16 == 0 && t0.elapsed().unwrap_or(Duration::ZERO).as_secs() >= secs { break 'o; }
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"contracts\":{{", evals, distinct.len()));
    o.push_str(&per.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":["); o.push_str(&samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"failures\":[");
    o.push_str(&fails.iter().map(|(n, i, m, l)| format!("{{\"contract\":{},\"seed\":{},\"index\":{},\"message\":{},\"case\":[{}]}}", js(n), seed, i, js(m), l.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    if let Some(p) = out { std::fs::write(p, &o).unwrap(); } else { println!("{}", o); }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
