//! C28: the driver's own metrics; the driver thread is stepped by gating its sleeps, and the clock is virtual.
use crate::{util::*, *};
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// what the components saw: finished runs and finished snapshots
#[derive(Default)]
struct Seen { plan: VecDeque<(u64, u64, u64, u64)>, runs: Vec<Run>, snaps: Vec<(i64, i64, usize)>, put_busy: u64 }
#[derive(Clone, Copy, Debug)]
struct Run { from: i64, to: i64, p: u64, d: u64, u: u64, q: u64 }
struct P(Arc<Mutex<Seen>>);
impl ProcessesTelemetryMessages for P {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let mut s = self.0.lock().unwrap();
        let k = s.runs.len() as u64;
        let (kind, a, b, busy) = s.plan.pop_front().unwrap_or((0, 0, 0, 0));
        let from = clock::now_ns();
        clock::adv(busy);
        // kinds: nothing, processed, dropped, both
        let (p, d) = match kind { 1 => (a, 0), 2 => (0, b), 3 => (a, b), _ => (0, 0) };
        let (u, q) = (if kind == 0 { 0 } else { (a * 3 + k) % 5 }, (a + k) % 7);
        s.runs.push(Run { from, to: clock::now_ns(), p, d, u, q });
        ProcessingOutcome { processed: p as usize, dropped: d as usize, instruments_updated: u as usize, observations_enqueued: q as usize }
    }
}
impl PutsSnapshot for P {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {
        let mut s = self.0.lock().unwrap();
        let from = clock::now_ns();
        clock::adv(s.put_busy);
        let n = s.runs.len();
        s.snaps.push((from, clock::now_ns(), n));
    }
}
type Fut = Pin<Box<dyn Future<Output = Result<Snapshot, GetSnapshotError>> + Send>>;
fn poll(f: &mut Fut) -> Option<Result<Snapshot, GetSnapshotError>> { match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(x) => Some(x), Poll::Pending => None } }
fn sub<'a>(s: &'a Snapshot, n: &str) -> &'a Snapshot { match get(s, n) { Some(ItemKind::Snapshot(x)) => x, x => panic!("{} is {:?}", n, x) } }
fn num(s: &Snapshot, n: &str, of: &str) -> Option<i64> { match get(s, n) { Some(ItemKind::UInt(x)) => Some(*x as i64), Some(ItemKind::Int(x)) => Some(*x), None => None, x => panic!("{} of {} is {:?}", n, of, x) } }
/// the samples of a histogram, which keeps all of them (at most 1028)
fn histo(s: &Snapshot, n: &str, want: &[i64]) {
    let h = sub(s, n);
    must_eq!(num(h, "count", n), Some(want.len() as i64), "samples of {}", n);
    if !want.is_empty() { must_eq!((num(h, "min", n), num(h, "max", n)), (want.iter().min().cloned(), want.iter().max().cloned()), "range of {}", n); }
}
fn check(s: &Snapshot, name: Option<&str>, metrics: bool, before: u64, born: (i64, i64), runs: &[Run], snaps: &[(i64, i64)], at: (i64, i64), desc: bool) {
    let s = match name { Some(n) => { must!(s.items.len() == 1, "named driver: {:?}", s.items); sub(s, n) } None => s };
    if !metrics { must!(s.items.is_empty(), "metrics are disabled, but {:?} is shown", s.items); return; }
    let _ = desc;
    let m = sub(s, "_metrix");
    let count = |n: &str| num(sub(m, n), "count", n).unwrap_or_else(|| panic!("{} has no count", n));
    let sum = |f: fn(&Run) -> u64| runs.iter().map(f).sum::<u64>() as i64;
    must_eq!(count("collections_per_second"), before as i64 + runs.len() as i64, "runs counted");
    must_eq!(count("observations_processed_per_second"), sum(|r| r.p), "processed");
    must_eq!(count("observations_dropped_per_second"), sum(|r| r.d), "dropped");
    must_eq!(count("instruments_updated_per_second"), sum(|r| r.u), "updated");
    must_eq!(count("snapshots_per_second"), snaps.len() as i64, "snapshots counted");
    let mut times: Vec<i64> = runs.iter().map(|r| (r.to - r.from) / 1000).collect();
    times.extend((0..before).map(|_| 0));
    histo(m, "collection_times_us", &times);
    histo(m, "observations_processed_per_collection", &runs.iter().filter(|r| r.p > 0).map(|r| r.p as i64).collect::<Vec<_>>());
    histo(m, "observations_dropped_per_collection", &runs.iter().filter(|r| r.d > 0).map(|r| r.d as i64).collect::<Vec<_>>());
    histo(m, "snapshots_times_us", &snaps.iter().map(|x| (x.1 - x.0) / 1000).collect::<Vec<_>>());
    if let Some(r) = runs.last() { must_eq!(num(sub(m, "observations_enqueued"), "current", "enqueued"), Some(r.q as i64), "enqueued observations in {:?}", sub(m, "observations_enqueued")); }
    const MIN: i64 = 60_000_000_000;
    let alarm = |n: &str| match get(m, n) { Some(ItemKind::Boolean(b)) => *b, x => panic!("{} is {:?}", n, x) };
    // the moment the alarm is looked at lies between the ends of `at`
    let last_drop = runs.iter().filter(|r| r.d > 0).map(|r| r.to).last();
    let want = match last_drop { None => Some(false), Some(t) => if at.0 > t + MIN { Some(false) } else if at.1 < t + MIN { Some(true) } else { None } };
    if let Some(w) = want { must_eq!(alarm("dropped_observations_alarm"), w, "dropped alarm at {:?}, latest drop {:?}", at, last_drop); }
    let (a, b) = runs.iter().filter(|r| r.d > 0 || r.p > 0).map(|r| (r.to, r.to)).last().unwrap_or(born);
    let want = if at.0 > b + MIN { Some(true) } else if at.1 < a + MIN { Some(false) } else { None };
    if let Some(w) = want { must_eq!(alarm("inactivity_alarm"), w, "inactivity alarm at {:?}, last message taken at {:?}", at, (a, b)); }
}
fn metrics(c: &mut Case) {
    let seen: Arc<Mutex<Seen>> = Default::default();
    let (named, on) = (c.rng.bool(), !c.rng.chance(15));
    clock::gate(true);
    let t0 = clock::now_ns();
    let mut b = DriverBuilder::default().set_driver_metrics(on);
    if named { b = b.set_name("drv") }
    let mut d = b.build();
    c.log(format!("driver named {} metrics {}", named, on));
    let name = if named { Some("drv") } else { None };
    clock::parked(2000);
    let born = (t0, clock::now_ns());
    d.add_processor(P(seen.clone()));
    // the runs before the processor was there had nothing to do
    let t = clock::real_ms();
    while seen.lock().unwrap().runs.is_empty() && clock::real_ms() - t < 3000 { clock::step_thread(); }
    let mut before: Option<u64> = None;
    let ask = |d: &TelemetryDriver, desc: bool| {
        let mut f: Fut = Box::pin(d.snapshot_async(desc));
        for _ in 0..20 { if let Some(r) = poll(&mut f) { return match r { Ok(s) => s, Err(_) => panic!("no snapshot") }; } clock::step_thread(); }
        panic!("snapshot request unanswered")
    };
    for _ in 0..2 + c.rng.usize(c.size) {
        match c.rng.below(9) {
            0 | 1 | 2 => {
                let mut plan = VecDeque::new();
                for _ in 0..1 + c.rng.usize(4) { plan.push_back((c.rng.below(4), 1 + if c.rng.chance(20) { c.rng.below(300) } else { c.rng.below(5) }, 1 + c.rng.below(4), if c.rng.bool() { 0 } else { c.rng.below(20_000_000) })); }
                c.log(format!("runs to come (kind, processed, dropped, ns) {:?}", plan));
                seen.lock().unwrap().plan.append(&mut plan);
            }
            3 => { let ms = *c.rng.pick(&[1u64, 1_000, 20_000, 29_900, 45_000, 59_980, 60_001, 90_000]); c.log(format!("{} ms pass", ms)); clock::adv_ms(ms); }
            5 => { let n = 1 + c.rng.below(5); c.log(format!("{} control messages", n)); for _ in 0..n { match c.rng.below(3) { 0 => d.change_processing_stragtegy(crate::proc::strategy(&mut c.rng)), _ => d.resume() } } }
            4 => { let n = c.rng.below(3_000_000); c.log(format!("snapshots take {} ns", n)); seen.lock().unwrap().put_busy = n; }
            _ => {
                let desc = c.rng.bool();
                c.log(format!("snapshot descriptive {}", desc));
                let s = ask(&d, desc);
                let z = seen.lock().unwrap();
                let (from, to, n) = *z.snaps.last().unwrap();
                let snaps: Vec<(i64, i64)> = z.snaps.iter().map(|x| (x.0, x.1)).collect();
                if on && before.is_none() {
                    let top = if named { sub(&s, "drv") } else { &s };
                    let k = num(sub(sub(top, "_metrix"), "collections_per_second"), "count", "").unwrap_or(0);
                    must!(k >= n as i64, "{} runs counted, but there were at least {}", k, n);
                    before = Some((k - n as i64) as u64);
                    must!(before.unwrap() <= 3, "{} runs counted, but there were only {}", k, n);
                }
                check(&s, name, on, before.unwrap_or(0), born, &z.runs[..n], &snaps, (from, to), desc);
            }
        }
        for _ in 0..c.rng.usize(4) { clock::step_thread(); }
    }
}
pub const CONTRACTS: &[Contract] = &[("metrics", metrics)];
