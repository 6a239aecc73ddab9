//! C06: gauge tracking covers exactly the configured last seconds. C07: the statistics summarise the tracked window.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::time::Instant;

/// the values recorded per second, newest second first
pub fn window(hist: &[(i64, i64)], n: usize, now_sec: i64) -> Vec<Vec<i64>> {
    (0..n as i64).map(|k| hist.iter().filter(|h| h.0 == now_sec - k).map(|h| h.1).collect()).collect()
}
fn f(s: &Snapshot, pre: &str, n: &str) -> f64 { match get(s, &format!("{}{}", pre, n)) { Some(ItemKind::Float(f)) => *f, x => panic!("{}{} is {:?}", pre, n, x) } }
fn i(s: &Snapshot, pre: &str, n: &str) -> i64 { match get(s, &format!("{}{}", pre, n)) { Some(ItemKind::Int(f)) => *f, x => panic!("{}{} is {:?}", pre, n, x) } }

pub fn check(s: &Snapshot, pre: &str, w: &[Vec<i64>], cur: i64, log: &str) {
    let used: Vec<&Vec<i64>> = w.iter().filter(|v| !v.is_empty()).collect();
    if used.is_empty() {
        for n in ["peak", "peak_min", "bottom", "bottom_max"] { must_eq!(i(s, pre, n), cur, "{} of an empty window ({})", n, log); }
        for n in ["peak_avg", "bottom_avg", "avg"] { must_eq!(f(s, pre, n), cur as f64, "{} of an empty window ({})", n, log); }
        return;
    }
    let peaks: Vec<i64> = used.iter().map(|v| *v.iter().max().unwrap()).collect();
    let bots: Vec<i64> = used.iter().map(|v| *v.iter().min().unwrap()).collect();
    must_eq!(i(s, pre, "peak"), *peaks.iter().max().unwrap(), "peak ({})", log);
    must_eq!(i(s, pre, "peak_min"), *peaks.iter().min().unwrap(), "peak_min ({})", log);
    must_eq!(i(s, pre, "bottom"), *bots.iter().min().unwrap(), "bottom ({})", log);
    must_eq!(i(s, pre, "bottom_max"), *bots.iter().max().unwrap(), "bottom_max ({})", log);
    let (sum, cnt) = (used.iter().map(|v| v.iter().sum::<i64>()).sum::<i64>(), used.iter().map(|v| v.len()).sum::<usize>());
    must_eq!(f(s, pre, "avg"), sum as f64 / cnt as f64, "avg ({})", log);
    must_eq!(f(s, pre, "peak_avg"), peaks.iter().sum::<i64>() as f64 / w.len() as f64, "peak_avg ({})", log);
    must_eq!(f(s, pre, "bottom_avg"), bots.iter().sum::<i64>() as f64 / w.len() as f64, "bottom_avg ({})", log);
}
fn step(r: &mut Rng, n: usize) -> u64 {
    match r.below(12) {
        0 => 1_000_000_000,
        1 => 999_999_999,
        2 => 1_000_000_001,
        3 => n as u64 * 1_000_000_000,
        4 => (n as u64 - 1) * 1_000_000_000,
        5 => (n as u64 + 1) * 1_000_000_000,
        6 => r.below(2 * n as u64 + 3) * 1_000_000_000 + r.below(1_000_000_000),
        7 => 2_000_000_000 + r.below(3_000_000_000),
        8 => if r.chance(10) { r.below(1_000_000) * 1_000_000_000 } else { 0 },
        _ => r.below(700_000_000),
    }
}
fn run(c: &mut Case, distinct: bool) {
    let n = if c.rng.chance(60) { 1 + c.rng.usize(4) } else { 1 + c.rng.usize(40) };
    let mut g = Gauge::new("g").tracking(n);
    let t0 = clock::now_ns();
    let mut hist: Vec<(i64, i64)> = vec![];
    let mut cur: Option<i64> = None;
    let group = c.rng.bool();
    g = g.group_values(group);
    c.log(format!("tracking {} group {}", n, group));
    let mut k = 0i64;
    for _ in 0..2 + c.rng.usize(c.size * 2 + 2) {
        if c.rng.chance(70) { let d = step(&mut c.rng, n); clock::adv(d); c.log(format!("+{}ns", d)); }
        let sec = (clock::now_ns() - t0) / 1_000_000_000;
        if c.rng.chance(70) {
            k += 1;
            // distinct powers make every lost or misplaced update visible in the sums
            let v = if distinct { ObservedValue::SignedInteger(if c.rng.bool() { k * 1000 } else { -k * 1000 }) } else { match c.rng.below(6) { 0 => ObservedValue::ChangedBy(c.rng.range(-9, 9)), 1 => ObservedValue::Bool(true), 2 => ObservedValue::SignedInteger(c.rng.range(-9, 0)), _ => ObservedValue::SignedInteger(c.rng.range(-1000, 1000)) } };
            let nx = crate::c04::next(cur, &v, TimeUnit::Milliseconds).unwrap();
            c.log(format!("{:?}", v));
            g.update(&Update::ObservationWithValue(v, Instant::now()));
            if let Some(x) = nx { hist.push((sec, x)); }
            cur = nx;
        }
        if c.rng.chance(if distinct { 50 } else { 80 }) {
            let s = snap(&g, false);
            if let Some(cur) = cur {
                let w = window(&hist, n, sec);
                let log = format!("values per second, newest first: {:?}", w);
                if group { match get(&s, "g") { Some(ItemKind::Snapshot(s)) => check(s, "", &w, cur, &log), x => panic!("{:?}", x) } } else { check(&s, "g_", &w, cur, &log) }
            }
        }
    }
}
fn covers(c: &mut Case) { run(c, true) }
fn summarises(c: &mut Case) { run(c, false) }
/// only the membership of the window, judged by the extreme values and the mean
pub const CONTRACTS: &[Contract] = &[("covers", covers)];
pub const CONTRACTS07: &[Contract] = &[("summarises", summarises)];
