//! C25 (and the driver's part of C16, C24): the driver thread is stepped by gating its sleeps.
use crate::{proc::strategy, util::*, *};
use std::future::Future;
use std::task::{Context, Poll, Waker};
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Run(usize, usize, ProcessingStrategy), Put(usize) }
type Trace = Arc<Mutex<Vec<Ev>>>;
/// a processor that records what it is asked to do; its outcome depends on the number of the call
struct P { id: usize, n: usize, busy: u64, tr: Trace, _alive: Arc<()> }
impl ProcessesTelemetryMessages for P {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.tr.lock().unwrap().push(Ev::Run(self.id, max, strategy));
        let k = self.n; self.n += 1;
        if self.busy > 0 && k % 7 == 3 { clock::adv(self.busy * 1_000_000); }
        let b = self.busy as usize;
        ProcessingOutcome { processed: if b > 0 && k % 5 == 2 { 150 } else { k % 3 }, dropped: if b > 0 && k % 4 == 1 { 2 } else { 0 }, instruments_updated: k % 2, observations_enqueued: k % 6 }
    }
}
impl PutsSnapshot for P {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) { self.tr.lock().unwrap().push(Ev::Put(self.id)); into.push(format!("p{}", self.id), (self.n as u64) * 2 + d as u64) }
}
struct S { id: usize, tr: Trace, _alive: Arc<()> }
impl PutsSnapshot for S {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) { self.tr.lock().unwrap().push(Ev::Put(self.id)); into.push(format!("s{}", self.id), d) }
}
#[derive(Clone, Debug)]
enum M { Proc(usize), Snp(usize), Get(usize, bool), Strat(ProcessingStrategy), Pause, Resume }
#[derive(Clone)]
struct St { procs: Vec<usize>, snps: Vec<usize>, strat: ProcessingStrategy, paused: bool }
impl St {
    fn step(&self, m: &M) -> St {
        let mut s = self.clone();
        match m { M::Proc(i) => s.procs.push(*i), M::Snp(i) => s.snps.push(*i), M::Get(..) => {} M::Strat(x) => s.strat = *x, M::Pause => s.paused = true, M::Resume => s.paused = false }
        s
    }
}
type Fut = Pin<Box<dyn Future<Output = Result<Snapshot, GetSnapshotError>> + Send>>;
struct Model { msgs: Vec<M>, states: Vec<St>, at: Vec<usize>, seen: usize, runs: std::collections::HashMap<usize, u64>, answers: Vec<Vec<(usize, u64)>>, nruns: usize }
impl Model {
    fn send(&mut self, m: M) { let s = self.states.last().unwrap().step(&m); self.states.push(s); self.msgs.push(m); }
    /// consumes the trace: every run and every snapshot must be possible after some prefix of the messages,
    /// the prefixes only growing and no snapshot request being passed over
    fn check(&mut self, tr: &Trace) {
        let t = tr.lock().unwrap();
        let mut i = self.seen;
        while i < t.len() {
            match &t[i] {
                Ev::Run(_, max, s) => {
                    // a run covers all processors of some state
                    let mut ids = vec![];
                    let mut j = i;
                    while j < t.len() { match &t[j] { Ev::Run(k, m, x) if !ids.contains(k) => { must!(m == max && x == s, "one run, but different limits or strategies: {:?}", &t[i..=j]); ids.push(*k); } _ => break } j += 1; }
                    must!(*max > 0, "run with a limit of 0");
                    let reach = self.reach();
                    let ok: Vec<usize> = reach.into_iter().filter(|&k| { let x = &self.states[k]; !x.paused && x.procs.len() == ids.len() && x.procs.iter().all(|p| ids.contains(p)) && x.strat == *s }).collect();
                    must!(!ok.is_empty(), "run of {:?} with {:?} (max {}) does not fit the messages: executed {:?} of {:?}", ids, s, max, self.at, self.msgs);
                    self.at = ok;
                    for k in ids { *self.runs.entry(k).or_insert(0) += 1; }
                    self.nruns += 1;
                    i = j;
                }
                Ev::Put(_) => {
                    let n = self.answers.len();
                    let pos = self.msgs.iter().position(|m| matches!(m, M::Get(k, _) if *k == n)).map(|p| p + 1);
                    let pos = match pos { Some(p) => p, None => panic!("a snapshot was taken that nobody asked for") };
                    must!(self.reach().contains(&pos), "snapshot request {} answered out of order: executed {:?} of {:?}", n, self.at, self.msgs);
                    self.at = vec![pos];
                    let st = &self.states[pos];
                    let want: Vec<usize> = st.procs.iter().chain(&st.snps).cloned().collect();
                    let mut got = vec![];
                    let mut j = i;
                    while j < t.len() && got.len() < want.len() { match &t[j] { Ev::Put(k) => got.push(*k), _ => break } j += 1; }
                    must_eq!(got, want, "components in the answer to snapshot request {}", n);
                    self.answers.push(st.procs.iter().map(|p| (*p, *self.runs.get(p).unwrap_or(&0))).collect());
                    i = j;
                }
            }
        }
        self.seen = i;
    }
    /// prefixes that may have been executed by now without answering a snapshot request that has components
    fn reach(&self) -> Vec<usize> {
        let mut v = vec![];
        for &a in &self.at {
            let mut k = a;
            loop {
                if !v.contains(&k) { v.push(k); }
                if k >= self.msgs.len() { break; }
                k += 1;
                // a request is passed only by answering it
                if let M::Get(n, _) = self.msgs[k - 1] { if n >= self.answers.len() { if n == self.answers.len() && !v.contains(&k) { v.push(k); } break; } }
            }
        }
        v.sort(); v
    }
    fn quiet(&self) -> bool { self.states.last().unwrap().paused }
}
fn poll(f: &mut Fut) -> Option<Result<Snapshot, GetSnapshotError>> { match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(x) => Some(x), Poll::Pending => None } }

fn run(c: &mut Case, with_gets: bool) {
    let tr: Trace = Default::default();
    let alive = Arc::new(());
    let (name, title, descr, metrics) = (c.rng.bool(), c.rng.chance(30), c.rng.chance(30), c.rng.bool());
    let s0 = strategy(&mut c.rng);
    c.log(format!("driver named {} title {} description {} metrics {} strategy {:?}", name, title, descr, metrics, s0));
    clock::gate(true);
    let o = |b: bool, s: &str| if b { Some(s.to_string()) } else { None };
    let mut d = if c.rng.bool() { TelemetryDriver::new(o(name, "drv"), o(title, "ti"), o(descr, "de"), s0, metrics) } else {
        let mut b = DriverBuilder::default();
        if name { b = b.set_name("drv") } if title { b = b.set_title("ti") } if descr { b = b.set_description("de") }
        b.set_processing_strategy(s0).set_driver_metrics(metrics).build()
    };
    must_eq!(d.name(), if name { Some("drv") } else { None }, "driver name");
    let init = St { procs: vec![], snps: vec![], strat: s0, paused: false };
    let mut m = Model { msgs: vec![], states: vec![init], at: vec![0], seen: 0, runs: Default::default(), answers: vec![], nruns: 0 };
    let (mut id, mut gets): (usize, usize) = (0, 0);
    let mut futs: Vec<(usize, bool, Option<Fut>)> = vec![];
    let mut check_answer = |m: &Model, n: usize, desc: bool, r: Result<Snapshot, GetSnapshotError>| {
        let s = match r { Ok(s) => s, Err(_) => panic!("snapshot request {} failed", n) };
        let pos = m.msgs.iter().position(|x| matches!(x, M::Get(k, _) if *k == n)).unwrap() + 1;
        let st = &m.states[pos];
        let mut w: Vec<(String, ItemKind)> = vec![];
        if desc && title { w.push(("_title".into(), "ti".into())); }
        if desc && descr { w.push(("_description".into(), "de".into())); }
        // a request without components leaves no trace; its answer has no counts to compare
        let counts = m.answers.get(n);
        if let Some(cs) = counts { for (p, k) in cs { w.push((format!("p{}", p), ItemKind::UInt(k * 2 + desc as u64))); } }
        for p in &st.snps { w.push((format!("s{}", p), ItemKind::Boolean(desc))); }
        let mut items = s.items.clone();
        if name { must!(items.len() == 1 && items[0].0 == "drv", "a named driver puts its values under its name: {:?}", items); items = match items.remove(0).1 { ItemKind::Snapshot(x) => x.items, x => panic!("not a snapshot: {:?}", x) }; }
        if metrics { let l = items.pop(); must!(matches!(&l, Some((n, ItemKind::Snapshot(_))) if n == "_metrix"), "driver metrics missing: {:?}", l); }
        must_eq!(items, w, "answer to snapshot request {} (descriptive {})", n, desc);
    };
    let mut some_busy = false;
    clock::parked(2000);
    for _ in 0..3 + c.rng.usize(c.size) {
        for _ in 0..c.rng.usize(4) {
            match c.rng.below(if with_gets { 12 } else { 10 }) {
                0 | 1 => { id += 1; let busy = if some_busy || c.rng.bool() { 0 } else { some_busy = true; c.rng.below(30) }; c.log(format!("add processor {} busy {}", id, busy)); d.add_processor(P { id, n: 0, busy, tr: tr.clone(), _alive: alive.clone() }); m.send(M::Proc(id)); }
                2 => { id += 1; c.log(format!("add snapshooter {}", id)); d.add_snapshooter(S { id, tr: tr.clone(), _alive: alive.clone() }); m.send(M::Snp(id)); }
                3 | 4 => { let s = strategy(&mut c.rng); c.log(format!("strategy {:?}", s)); d.change_processing_stragtegy(s); m.send(M::Strat(s)); }
                5 | 6 => { c.log("pause"); d.pause(); m.send(M::Pause); }
                7 | 8 => { c.log("resume"); d.resume(); m.send(M::Resume); }
                9 => { c.log("clone, drop the original"); let e = d.clone(); d = e; }
                _ => { let desc = c.rng.bool(); c.log(format!("request snapshot {} descriptive {}", gets, desc)); futs.push((gets, desc, Some(Box::pin(d.snapshot_async(desc))))); m.send(M::Get(gets, desc)); gets += 1; 
                    // requests without components are answered invisibly: keep at least one component
                    let s = m.states.last().unwrap(); if s.procs.is_empty() && s.snps.is_empty() { settle(&mut m, &tr, &mut futs, true); let (n, ds, f) = futs.pop().unwrap(); let mut f = f.unwrap(); let r = poll(&mut f).unwrap_or_else(|| panic!("snapshot request {} unanswered", n)); m.answers.push(vec![]); m.at = vec![m.msgs.len()]; check_answer(&m, n, ds, r); } }
            }
        }
        if with_gets && c.rng.chance(15) && gets > 0 {
            // the blocking request, with the driver running freely
            settle(&mut m, &tr, &mut futs, false);
            let desc = c.rng.bool();
            if !m.states.last().unwrap().procs.is_empty() {
                c.log(format!("blocking snapshot {} descriptive {}", gets, desc));
                m.send(M::Get(gets, desc));
                clock::gate(false);
                let r = if c.rng.bool() { d.snapshot(desc) } else if c.rng.bool() { let mut s = Snapshot::default(); d.put_snapshot(&mut s, desc); Ok(s) } else { let mut f: Fut = Box::pin(d.snapshot_async(desc)); let t = clock::real_ms(); loop { if let Some(r) = poll(&mut f) { break r; } if clock::real_ms() - t > 3000 { break Err(GetSnapshotError); } std::thread::yield_now(); } };
                clock::gate(true); clock::parked(2000);
                m.check(&tr);
                check_answer(&m, gets, desc, r);
                gets += 1;
            }
        }
        for _ in 0..c.rng.usize(4) { clock::step_thread(); m.check(&tr); for (n, desc, f) in futs.iter_mut() { if let Some(x) = f { if let Some(r) = poll(x) { m.check(&tr); check_answer(&m, *n, *desc, r); *f = None; } } } }
    }
    settle(&mut m, &tr, &mut futs, false);
    for (n, desc, f) in futs.iter_mut() { if let Some(x) = f { let r = poll(x).unwrap_or_else(|| panic!("snapshot request {} unanswered", n)); check_answer(&m, *n, *desc, r); } }
    // over and over while not paused, never while paused
    let before = m.nruns;
    for _ in 0..4 { clock::step_thread(); m.check(&tr); }
    let st = m.states.last().unwrap();
    if st.paused { must_eq!(m.nruns, before, "runs while paused"); } else if !st.procs.is_empty() { must!(m.nruns >= before + 4, "the driver does not keep processing: {} runs in 4 iterations", m.nruns - before); }
    // a dropped clone does not stop it
    drop(d.clone());
    let before = m.nruns;
    for _ in 0..2 { clock::step_thread(); m.check(&tr); }
    if !m.quiet() && !m.states.last().unwrap().procs.is_empty() { must!(m.nruns >= before + 2, "the driver stopped although it has a handle"); }
    drop(d);
    let before = m.nruns;
    clock::gate(false);
    let t0 = clock::real_ms();
    while Arc::strong_count(&alive) > 1 && clock::real_ms() - t0 < 3000 { std::thread::yield_now(); }
    must_eq!(Arc::strong_count(&alive), 1, "processors still owned by the driver after its last handle was dropped");
    m.check(&tr);
    must!(m.nruns <= before + 1, "the driver kept running after its last handle was dropped");
}
/// let the driver run until every message is executed
fn settle(m: &mut Model, tr: &Trace, futs: &mut Vec<(usize, bool, Option<Fut>)>, partial: bool) {
    for _ in 0..m.msgs.len() - m.at[0] + 3 { clock::step_thread(); m.check(tr); }
    if !partial {
        // every message is executed by now: nothing but the last state is possible
        let n = m.msgs.len();
        must!(m.reach().contains(&n), "messages not executed: {:?} of {:?}", m.at, m.msgs);
        m.at = vec![n];
    }
    let _ = futs;
}
fn driver(c: &mut Case) { run(c, true) }
pub fn driver_runs(c: &mut Case) { run(c, false) }
pub const CONTRACTS: &[Contract] = &[("driver", driver)];
