//! C08 strategies, C09 processing runs, C10 names, C15 transmitter, C16 mounts.
use crate::{c02::{Got, Probe}, c26::{any_obs, same}, util::*, *};
use metrix::attached_mount::AttachedMount;
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn strategy(r: &mut Rng) -> ProcessingStrategy {
    match r.below(6) { 5 => ProcessingStrategy::DropOlderThan { max_age: match r.below(3) { 0 => Duration::new(u64::MAX, 999_999_999), 1 => Duration::from_secs(i64::MAX as u64 + r.below(3)), _ => Duration::from_secs(r.below(1 << 33)) }, drop_deltas: r.bool() }, 0 => ProcessingStrategy::ProcessAll, 1 => ProcessingStrategy::DropAll, 2 => ProcessingStrategy::default(), _ => ProcessingStrategy::DropOlderThan { max_age: Duration::from_nanos(match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(100), _ => r.below(100_000_000_000) }), drop_deltas: r.bool() } }
}
/// independent oracle for C08; the age may be negative
fn keeps(s: &ProcessingStrategy, age_ns: i64, delta: bool) -> bool {
    match *s { ProcessingStrategy::ProcessAll => true, ProcessingStrategy::DropAll => false, ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => age_ns as i128 <= max_age.as_nanos() as i128 || (delta && !drop_deltas) }
}
/// an observation of a certain age (negative: in the future), and that age
fn aged(r: &mut Rng, s: &ProcessingStrategy, label: u8) -> (Observation<u8>, i64) {
    let m = match s { ProcessingStrategy::DropOlderThan { max_age, .. } => max_age.as_nanos().min(100_000_000_000_000_000) as i64, _ => 1000 };
    let age = match r.below(8) { 0 => m, 1 => m + 1, 2 => m - 1, 3 => 0, 4 => -1, 5 => m + r.below(100_000_000_000) as i64, 6 => m / 2, _ => r.below(2 * m.max(1) as u64) as i64 };
    let n = Instant::now();
    let t = if age >= 0 { n - Duration::from_nanos(age as u64) } else { n + Duration::from_nanos((-age) as u64) };
    (match r.below(3) { 0 => Observation::Observed { label, count: r.below(5), timestamp: t }, 1 => Observation::ObservedOne { label, timestamp: t }, _ => Observation::ObservedOneValue { label, value: if r.chance(40) { ObservedValue::ChangedBy(r.i64b()) } else { value(r) }, timestamp: t } }, age)
}
fn delta(o: &Observation<u8>) -> bool { matches!(o, Observation::ObservedOneValue { value: ObservedValue::ChangedBy(_), .. }) }

fn strategies(c: &mut Case) {
    let s = strategy(&mut c.rng);
    c.log(format!("{:?}", s));
    must_eq!(ProcessingStrategy::default(), ProcessingStrategy::DropOlderThan { max_age: Duration::from_secs(30), drop_deltas: false }, "default strategy");
    clock::adv(c.rng.below(1 << 40));
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    let got: Got = Default::default();
    p.add_handler(Probe { id: 1, ret: 1, got: got.clone() });
    let (mut want, mut dropped) = (vec![], 0);
    for _ in 0..1 + c.rng.usize(c.size) {
        let (o, age) = aged(&mut c.rng, &s, 1);
        c.log(format!("age {}: {:?}", age, o));
        if keeps(&s, age, delta(&o)) { want.push(format!("{:?}", o)) } else { dropped += 1 }
        tx.transmit(o);
    }
    let n = want.len() + dropped;
    let out = p.process(n, s);
    let g: Vec<String> = got.lock().unwrap().drain(..).map(|x| x.1).collect();
    must_eq!(g, want, "observations processed");
    must_eq!((out.processed, out.dropped), (want.len(), dropped), "processed and dropped");
    // the decision itself
    let (o, age) = aged(&mut c.rng, &s, 1);
    if let ProcessingStrategy::DropOlderThan { max_age, drop_deltas } = s {
        if let Some(drop_if_older_than) = Instant::now().checked_sub(max_age) {
        let d = ProcessingDecider::DropBeforeDeadline { drop_if_older_than, drop_deltas };
        must_eq!(d.should_be_processed(&o), keeps(&s, age, delta(&o)), "decision for an observation of age {}: {:?}", age, o);
        }
    }
    must!(ProcessingDecider::ProcessAll.should_be_processed(&o) && !ProcessingDecider::DropAll.should_be_processed(&o), "process-all / drop-all");
}
pub const CONTRACTS08: &[Contract] = &[("strategies", strategies)];

// ---- C09 / C10: a model of a processor ----
#[derive(Clone, Debug)]
struct MPanel { name: Option<String>, id: usize, ret: usize, labels: Vec<u8> }
#[derive(Clone, Debug)]
struct MCockpit { name: Option<String>, id: usize, ret: usize, panels: Vec<MPanel> }
#[derive(Clone, Debug)]
enum Msg { Obs(String, u8, i64, bool), AddCockpit(MCockpit), RemoveCockpit(String), AddHandler(usize, usize), AddPanel(String, MPanel), RemovePanel(String, String) }
#[derive(Default)]
struct MProc { cockpits: Vec<MCockpit>, handlers: Vec<(usize, usize)> }
fn add_panel(v: &mut Vec<MPanel>, p: MPanel) { if p.name.is_none() || !v.iter().any(|x| x.name == p.name) { v.push(p) } }
impl MProc {
    fn add_cockpit(&mut self, k: MCockpit) { if k.name.is_none() || !self.cockpits.iter().any(|x| x.name == k.name) { self.cockpits.push(k) } }
    fn control(&mut self, m: Msg) {
        match m {
            Msg::Obs(..) => unreachable!(),
            Msg::AddCockpit(k) => self.add_cockpit(k),
            Msg::RemoveCockpit(n) => self.cockpits.retain(|k| k.name.as_ref() != Some(&n)),
            Msg::AddHandler(id, ret) => self.handlers.push((id, ret)),
            Msg::AddPanel(n, p) => { if let Some(k) = self.cockpits.iter_mut().find(|k| k.name.as_ref() == Some(&n)) { add_panel(&mut k.panels, p) } }
            Msg::RemovePanel(n, p) => { if let Some(k) = self.cockpits.iter_mut().find(|k| k.name.as_ref() == Some(&n)) { k.panels.retain(|x| x.name.as_ref() != Some(&p)) } }
        }
    }
    fn deliver(&self, text: &str, label: u8, who: &mut Vec<(usize, String)>) -> usize {
        let mut n = 0;
        for (id, r) in &self.handlers { who.push((*id, text.into())); n += r; }
        for k in &self.cockpits { who.push((k.id, text.into())); n += k.ret; for p in &k.panels { if p.labels.contains(&label) { who.push((p.id, text.into())); n += p.ret; } } }
        n
    }
    /// titles identify the components
    fn shape(&self) -> Vec<(String, Vec<String>)> { self.cockpits.iter().map(|k| (format!("t{}", k.id), k.panels.iter().map(|p| format!("t{}", p.id)).collect())).collect() }
}
fn shape(p: &TelemetryProcessor<u8>) -> Vec<(String, Vec<String>)> {
    p.get_cockpits().iter().map(|k| (k.title().unwrap_or("?").to_string(), k.get_panels().iter().map(|p| p.title().unwrap_or("?").to_string()).collect())).collect()
}
struct Gen { id: usize, got: Got }
fn name(r: &mut Rng) -> Option<String> { if r.chance(20) { None } else { Some(r.pick(&["a", "b", "c", ""]).to_string()) } }
impl Gen {
    fn panel(&mut self, r: &mut Rng) -> (Panel<u8>, MPanel) {
        self.id += 1;
        let m = MPanel { name: name(r), id: self.id, ret: r.usize(3), labels: (0..r.usize(4)).map(|_| r.below(4) as u8).collect() };
        let mut p = match &m.name { Some(n) => match r.below(3) { 0 => Panel::named(m.labels.clone(), n.clone()), 1 => Panel::accept_named(m.labels.clone(), n.clone()), _ => { let mut p = Panel::accept(m.labels.clone()); p.set_name(n.clone()); p } }, None => Panel::accept(m.labels.clone()) };
        p.set_title(format!("t{}", m.id));
        p.add_handler(Probe { id: m.id, ret: m.ret, got: self.got.clone() });
        (p, m)
    }
    fn cockpit(&mut self, r: &mut Rng) -> (Cockpit<u8>, MCockpit) {
        self.id += 1;
        let mut m = MCockpit { name: name(r), id: self.id, ret: r.usize(3), panels: vec![] };
        let mut k = match &m.name { Some(n) => if r.bool() { Cockpit::new(n.clone()) } else { let mut k = Cockpit::without_name(); k.set_name(n.clone()); k }, None => Cockpit::without_name() };
        k.set_title(format!("t{}", m.id));
        k.add_handler(Probe { id: m.id, ret: m.ret, got: self.got.clone() });
        for _ in 0..r.usize(4) { let (p, mp) = self.panel(r); if r.bool() { k.add_panel(p) } else { k = k.panel(p) }; add_panel(&mut m.panels, mp); }
        (k, m)
    }
}
fn some_name(r: &mut Rng) -> String { r.pick(&["a", "b", "c", "", "x"]).to_string() }
/// send one control message and describe it
fn control(r: &mut Rng, g: &mut Gen, tx: &TelemetryTransmitter<u8>) -> Msg {
    match r.below(7) {
        0 | 1 => { let (k, m) = g.cockpit(r); tx.add_cockpit(k); Msg::AddCockpit(m) }
        2 => { let n = some_name(r); tx.remove_cockpit(n.clone()); Msg::RemoveCockpit(n) }
        3 => { g.id += 1; let ret = r.usize(3); tx.add_handler(Probe { id: g.id, ret, got: g.got.clone() }); Msg::AddHandler(g.id, ret) }
        4 | 5 => { let (p, m) = g.panel(r); let n = some_name(r); tx.add_panel_to_cockpit(n.clone(), p); Msg::AddPanel(n, m) }
        _ => { let (a, b) = (some_name(r), some_name(r)); tx.remove_panel_from_cockpit(a.clone(), b.clone()); Msg::RemovePanel(a, b) }
    }
}
fn by_probe(v: Vec<(usize, String)>) -> BTreeMap<usize, Vec<String>> { let mut m: BTreeMap<usize, Vec<String>> = BTreeMap::new(); for (i, s) in v { m.entry(i).or_default().push(s); } m }
fn runs(c: &mut Case) {
    let (tx, mut p) = if c.rng.bool() { TelemetryProcessor::<u8>::new_pair_without_name() } else { TelemetryProcessor::<u8>::new_pair("p") };
    let mut tx = Some(tx);
    let mut g = Gen { id: 0, got: Default::default() };
    let mut m = MProc::default();
    let mut q: VecDeque<Msg> = VecDeque::new();
    for _ in 0..c.rng.usize(3) { let (k, mk) = g.cockpit(&mut c.rng); c.log(format!("direct {:?}", mk)); p.add_cockpit(k); m.add_cockpit(mk); }
    let mut gone = false; // the run that found the channel disconnected happened
    let base = clock::now_ns();
    for _ in 0..3 + c.rng.usize(c.size) {
        if let Some(t) = &tx {
            for _ in 0..c.rng.usize(5) {
                if c.rng.chance(65) {
                    let l = c.rng.below(5) as u8;
                    let s = strategy(&mut c.rng);
                    let (o, age) = aged(&mut c.rng, &s, l);
                    q.push_back(Msg::Obs(format!("{:?}", o), l, clock::now_ns() - base - age, delta(&o)));
                    t.transmit(o);
                } else { let x = control(&mut c.rng, &mut g, t); q.push_back(x); }
                c.log(format!("sent {:?}", q.back()));
            }
        }
        if c.rng.chance(8) { tx = None; c.log("transmitter dropped"); }
        if c.rng.bool() { clock::adv(c.rng.below(60_000_000_000)); }
        let s = strategy(&mut c.rng);
        let max = match c.rng.below(4) { 0 => 0, 1 => q.len(), 2 => q.len() + c.rng.usize(3), _ => c.rng.usize(5) };
        c.log(format!("process(max {}, {:?}) with {} queued", max, s, q.len()));
        let out = p.process(max, s);
        let mut want = vec![];
        let (mut processed, mut dropped, mut upd) = (0, 0, 0);
        if !gone {
            for _ in 0..max {
                match q.pop_front() {
                    None => { if tx.is_none() { gone = true; } break; }
                    Some(Msg::Obs(text, l, at, d)) => if keeps(&s, clock::now_ns() - base - at, d) { processed += 1; upd += m.deliver(&text, l, &mut want); } else { dropped += 1 },
                    Some(x) => { processed += 1; m.control(x); }
                }
            }
        }
        must_eq!(out.processed, processed, "processed");
        must_eq!(out.dropped, dropped, "dropped");
        must_eq!(out.instruments_updated, upd, "updated instruments");
        must_eq!(out.observations_enqueued, q.len(), "messages left in the queue");
        must_eq!(out.something_happened(), processed + dropped > 0, "something_happened");
        let got: Vec<(usize, String)> = g.got.lock().unwrap().drain(..).collect();
        must_eq!(by_probe(got), by_probe(want), "observations per handler, in order");
        must_eq!(shape(&p), m.shape(), "cockpits and panels");
        must_eq!(p.get_handlers().len(), m.handlers.len(), "handlers");
        if let Some(t) = &tx { must_eq!(t.queue_size(), q.len(), "queue size"); must_eq!(t.is_queue_empty(), q.is_empty(), "is_queue_empty"); }
    }
}
pub const CONTRACTS09: &[Contract] = &[("runs", runs)];

fn names(c: &mut Case) {
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    let mut g = Gen { id: 0, got: Default::default() };
    let mut m = MProc::default();
    for _ in 0..2 + c.rng.usize(c.size * 2) {
        match c.rng.below(4) {
            0 => { let (k, mk) = g.cockpit(&mut c.rng); c.log(format!("add_cockpit {:?}", mk)); if c.rng.bool() { p.add_cockpit(k) } else { p = p.cockpit(k) }; m.add_cockpit(mk); }
            _ => { let x = control(&mut c.rng, &mut g, &tx); c.log(format!("{:?}", x)); p.process(1 + c.rng.usize(2), ProcessingStrategy::DropAll); m.control(x); }
        }
        must_eq!(shape(&p), m.shape(), "cockpits and panels");
    }
}
fn panel_names(c: &mut Case) {
    let mut g = Gen { id: 0, got: Default::default() };
    let (mut k, mut m) = g.cockpit(&mut c.rng);
    for _ in 0..2 + c.rng.usize(c.size * 2) {
        if c.rng.chance(60) { let (p, mp) = g.panel(&mut c.rng); c.log(format!("add {:?}", mp)); if c.rng.bool() { k.add_panel(p) } else { k = k.panel(p) }; add_panel(&mut m.panels, mp); }
        else { let n = some_name(&mut c.rng); c.log(format!("remove {:?}", n)); k.remove_panel(&n); m.panels.retain(|x| x.name.as_ref() != Some(&n)); }
        let got: Vec<String> = k.get_panels().iter().map(|p| p.title().unwrap().to_string()).collect();
        must_eq!(got, m.panels.iter().map(|p| format!("t{}", p.id)).collect::<Vec<_>>(), "panels");
        let got: Vec<String> = k.get_panels_mut().iter().map(|p| p.title().unwrap().to_string()).collect();
        must_eq!(got, m.panels.iter().map(|p| format!("t{}", p.id)).collect::<Vec<_>>(), "panels (mutable)");
        must_eq!(k.get_name(), m.name.as_deref(), "name of the cockpit");
        must_eq!(k.get_panels().iter().map(|p| p.name().map(|n| n.to_string())).collect::<Vec<_>>(), m.panels.iter().map(|p| p.name.clone()).collect::<Vec<_>>(), "names of the panels");
    }
}
pub const CONTRACTS10: &[Contract] = &[("names", names), ("panel_names", panel_names)];

// ---- C15 ----
pub struct Rec(pub Arc<Mutex<Vec<(u8, Update)>>>);
impl HandlesObservations for Rec { type Label = u8; fn handle_observation(&mut self, o: &Observation<u8>) -> usize { self.0.lock().unwrap().push((*o.label(), crate::c26::of(o))); 1 } }
impl PutsSnapshot for Rec { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
fn transmits(c: &mut Case) {
    let bounded = c.rng.bool();
    let cap = 1 + c.rng.usize(5);
    let block = !bounded && c.rng.bool();
    let named = c.rng.bool();
    let (tx, mut p) = match (bounded || block, named) { (true, true) => TelemetryProcessor::<u8>::new_pair_bounded("p", if bounded { cap } else { 1 << 12 }, block), (true, false) => TelemetryProcessor::<u8>::new_pair_bounded_without_name(if bounded { cap } else { 1 << 12 }, block), (false, true) => TelemetryProcessor::<u8>::new_pair("p"), _ => TelemetryProcessor::<u8>::new_pair_without_name() };
    must_eq!(p.get_name(), if named { Some("p") } else { None }, "name of the processor");
    must_eq!(tx.queue_capacity(), if bounded { Some(cap) } else if block { Some(1 << 12) } else { None }, "capacity");
    let got: Arc<Mutex<Vec<(u8, Update)>>> = Default::default();
    p.add_handler(Rec(got.clone()));
    c.log(format!("capacity {:?}, blocking {}", tx.queue_capacity(), !bounded));
    let mut q: Vec<(u8, Update)> = vec![];
    let mut all = vec![];
    let tx2 = tx.clone();
    for _ in 0..2 + c.rng.usize(c.size) {
        let t = if c.rng.bool() { &tx } else { &tx2 };
        clock::adv(c.rng.below(1_000_000));
        let now = Instant::now();
        let l = c.rng.below(250) as u8;
        let ts = match c.rng.below(3) { 0 => now, 1 => now - Duration::from_nanos(c.rng.below(1 << 40)), _ => now + Duration::from_nanos(c.rng.below(1 << 40)) };
        let n = c.rng.u64b();
        let v = value(&mut c.rng);
        let d = match c.rng.below(3) { 0 => Duration::from_nanos(c.rng.u64b()), 1 => Duration::from_nanos(c.rng.below(5)), _ => Duration::from_millis(c.rng.below(1000)) };
        let dn = ObservedValue::Duration(d.as_nanos() as u64, TimeUnit::Nanoseconds);
        let val = |v, t| Update::ObservationWithValue(v, t);
        let k = c.rng.below(17);
        let e: Option<Update> = match k {
            0 => { t.observed(l, n, ts); Some(Update::Observations(n, ts)) }
            1 => { t.observed_one(l, ts); Some(Update::Observation(ts)) }
            2 => { t.observed_one_value(l, v, ts); Some(val(v, ts)) }
            3 => { t.observed_duration(l, d, ts); Some(val(dn, ts)) }
            4 => { t.observed_now(l, n); Some(Update::Observations(n, now)) }
            5 => { t.observed_one_now(l); Some(Update::Observation(now)) }
            6 => { t.observed_one_value_now(l, v); Some(val(v, now)) }
            7 => { t.observed_one_duration_now(l, d); Some(val(dn, now)) }
            8 => { t.measure_time(l, ts); if ts <= now { Some(val(ObservedValue::Duration((now - ts).as_nanos() as u64, TimeUnit::Nanoseconds), now)) } else { None } }
            9 => { let o = any_obs(&mut c.rng, l); let u = crate::c26::of(&o); t.transmit(o); Some(u) }
            10 => { t.observed_one_value(l, Increment, ts); Some(val(ObservedValue::ChangedBy(1), ts)) }
            11 => { let k = c.rng.next() as u32; t.observed_one_value_now(l, DecrementBy(k)); Some(val(ObservedValue::ChangedBy(-(k as i64)), now)) }
            12 => { let s = c.rng.below(1 << 30); t.observed_one_value(l, (Duration::from_secs(s), TimeUnit::Milliseconds), ts); Some(val(ObservedValue::Duration(s * 1000, TimeUnit::Milliseconds), ts)) }
            13 => { t.observed_one(l, ts).observed_one(l, ts); if !bounded || q.len() < cap { q.push((l, Update::Observation(ts))); } Some(Update::Observation(ts)) }
            14 => { t.transmit(Observation::observed(l, n, ts)); Some(Update::Observations(n, ts)) }
            15 => { t.transmit(Observation::observed_one_value(l, v, ts)); Some(val(v, ts)) }
            _ => { t.transmit(Observation::observed_one_now(l)); Some(Update::Observation(now)) }
        };
        c.log(format!("call {} label {} count {} value {:?} duration {:?}: expected {:?}", k, l, n, v, d, e));
        if let Some(u) = e { if !bounded || q.len() < cap { q.push((l, u)); } else { c.log("queue is full"); } }
        must_eq!(tx.queue_size(), q.len(), "queue size");
        must_eq!(tx.is_queue_full(), bounded && q.len() == cap, "is_queue_full");
        must_eq!(tx.is_queue_empty(), q.is_empty(), "is_queue_empty");
        if c.rng.chance(20) { let k = c.rng.usize(4); p.process(k, ProcessingStrategy::ProcessAll); let k = k.min(q.len()); all.extend(q.drain(..k)); check(&got, &all); }
    }
    let k = q.len(); p.process(k + 1, ProcessingStrategy::ProcessAll); all.extend(q.drain(..)); check(&got, &all);
}
fn check(got: &Arc<Mutex<Vec<(u8, Update)>>>, want: &[(u8, Update)]) {
    let g = got.lock().unwrap();
    for (i, (x, y)) in g.iter().zip(want).enumerate() { must!(x.0 == y.0 && same(&x.1, &y.1), "message {}: got {:?}, expected {:?}", i, x, y); }
    must_eq!(g.len(), want.len(), "number of messages");
}
pub const CONTRACTS15: &[Contract] = &[("transmits", transmits)];

// ---- C16 ----
type Calls = Arc<Mutex<Vec<(usize, usize, ProcessingStrategy)>>>;
struct Fake { id: usize, calls: Calls, out: Arc<Mutex<Vec<[usize; 4]>>> }
impl PutsSnapshot for Fake { fn put_snapshot(&self, into: &mut Snapshot, _: bool) { into.push(format!("f{}", self.id), self.id as u64) } }
impl ProcessesTelemetryMessages for Fake {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        let mut calls = self.calls.lock().unwrap();
        let n = calls.len();
        let o = [n * 7 % 5 + self.id % 2, n * 3 % 4, n + self.id, self.id * 3 % 7];
        calls.push((self.id, max, strategy));
        self.out.lock().unwrap().push(o);
        ProcessingOutcome { processed: o[0], dropped: o[1], instruments_updated: o[2], observations_enqueued: o[3] }
    }
}
struct Snp(usize);
impl PutsSnapshot for Snp { fn put_snapshot(&self, into: &mut Snapshot, _: bool) { into.push(format!("s{}", self.0), self.0 as u64) } }
enum T { P(usize), M(Mt) }
#[derive(Default)]
struct Mt { procs: Vec<T>, snaps: Vec<usize>, pending: Vec<Pend>, handles: Vec<AttachedMount>, named: bool }
enum Pend { P(T), S(usize) }
impl Mt {
    /// one run: adopt what was attached, then the order of the processors reached
    fn run(&mut self, order: &mut Vec<usize>) {
        for x in self.pending.drain(..) { match x { Pend::P(t) => self.procs.push(t), Pend::S(s) => self.snaps.push(s) } }
        for p in &mut self.procs { match p { T::P(i) => order.push(*i), T::M(m) => m.run(order) } }
    }
    fn names(&self, v: &mut Vec<String>) {
        for p in &self.procs { match p { T::P(i) => v.push(format!("f{}", i)), T::M(m) => m.names(v) } }
        for s in &self.snaps { v.push(format!("s{}", s)); }
    }
    /// some attached mount of the tree, also not yet adopted ones
    fn pick<'a>(&'a mut self, r: &mut Rng) -> &'a mut Mt {
        let kids = self.procs.iter().filter(|p| matches!(p, T::M(_))).count() + self.pending.iter().filter(|p| matches!(p, Pend::P(T::M(_)))).count();
        let own = !self.handles.is_empty();
        let k = r.usize(kids + own as usize + (kids == 0) as usize);
        if k >= kids { return self; }
        let all = self.procs.iter_mut().filter_map(|p| match p { T::M(m) => Some(m), _ => None }).chain(self.pending.iter_mut().filter_map(|p| match p { Pend::P(T::M(m)) => Some(m), _ => None }));
        all.into_iter().nth(k).unwrap().pick(r)
    }
}
fn flat(s: &Snapshot, v: &mut Vec<String>) { for (n, i) in &s.items { match i { ItemKind::Snapshot(s) => flat(s, v), _ => v.push(n.clone()) } } }
struct Ctx { id: usize, calls: Calls, out: Arc<Mutex<Vec<[usize; 4]>>> }
impl Ctx { fn fake(&mut self) -> Fake { self.id += 1; Fake { id: self.id, calls: self.calls.clone(), out: self.out.clone() } } }
fn mount(c: &mut Case, x: &mut Ctx, depth: usize) -> (ProcessorMount, Mt) {
    let named = c.rng.bool();
    let mut p = if named { ProcessorMount::new("m") } else { ProcessorMount::default() };
    let mut m = Mt { named, ..Mt::default() };
    for _ in 0..c.rng.usize(4) {
        match c.rng.below(6) {
            0 => { x.id += 1; if c.rng.bool() { p.add_snapshooter(Snp(x.id)) } else { p.add_snapshooter_dyn(Box::new(Snp(x.id))) }; m.snaps.push(x.id); }
            1 if depth > 0 => { let (k, km) = mount(c, x, depth - 1); p.add_processor(k); m.procs.push(T::M(km)); }
            2 if depth > 0 => { let (k, mut km) = mount(c, x, depth - 1); let h = p.attached_mount(k); km.handles.push(h); m.procs.push(T::M(km)); }
            3 => { let f = x.fake(); m.procs.push(T::P(f.id)); p.add_processor_dyn(Box::new(f)); }
            _ => { let f = x.fake(); m.procs.push(T::P(f.id)); p.add_processor(f); }
        }
    }
    (p, m)
}
fn mounts(c: &mut Case) {
    let mut x = Ctx { id: 0, calls: Default::default(), out: Default::default() };
    let (mut p, mut m) = mount(c, &mut x, 3);
    for _ in 0..2 + c.rng.usize(c.size.min(12)) {
        // attach something somewhere
        for _ in 0..c.rng.usize(4) {
            let r = &mut c.rng;
            let t = m.pick(r);
            if t.handles.is_empty() { continue; }
            let h = t.handles.len() - 1;
            let (what, kind) = (x.id + 1, r.below(6));
            match kind {
                0 => { x.id += 1; t.handles[h].put_snapshooter(Snp(x.id)); t.pending.push(Pend::S(x.id)); }
                1 => { x.id += 1; t.handles[h].add_snapshooter(Snp(x.id)); t.pending.push(Pend::S(x.id)); }
                2 => { let f = x.fake(); t.handles[h].put_processor(f); t.pending.push(Pend::P(T::P(x.id))); }
                3 => { let f = x.fake(); t.handles[h].add_processor(f); t.pending.push(Pend::P(T::P(x.id))); }
                4 => { let f = x.fake(); let mut pm = ProcessorMount::default(); pm.add_processor(f); let a = if r.bool() { t.handles[h].attach_mount::<ProcessorMount>(pm) } else { t.handles[h].attached_mount(pm) }; t.pending.push(Pend::P(T::M(Mt { procs: vec![T::P(x.id)], handles: vec![a], ..Mt::default() }))); }
                _ => { if r.bool() { let k = t.handles[h].clone(); t.handles.push(k); } else { t.handles.pop(); } }
            }
            c.log(format!("attach kind {} id {}", kind, what));
        }
        let s = strategy(&mut c.rng);
        let max = c.rng.usize(2000);
        x.calls.lock().unwrap().clear(); x.out.lock().unwrap().clear();
        let o = p.process(max, s);
        let mut order = vec![];
        m.run(&mut order);
        c.log(format!("process(max {}, {:?}): processors {:?}", max, s, order));
        let calls: Vec<_> = x.calls.lock().unwrap().drain(..).collect();
        let ids: Vec<usize> = calls.iter().map(|k| k.0).collect();
        let (mut a, mut b) = (ids.clone(), order.clone()); a.sort(); b.sort();
        must_eq!(a, b, "processors that were run");
        must!(calls.iter().all(|k| k.1 == max && k.2 == s), "limit or strategy not handed on: {:?}, expected {} {:?}", calls, max, s);
        let sum = x.out.lock().unwrap().drain(..).fold([0; 4], |mut a, o| { for i in 0..4 { a[i] += o[i]; } a });
        must_eq!([o.processed, o.dropped, o.instruments_updated, o.observations_enqueued], sum, "summed outcome");
        // nothing is lost, everything in its order
        let sn = snap(&p, false);
        let (mut v, mut w) = (vec![], vec![]);
        flat(&sn, &mut v); m.names(&mut w);
        must_eq!(v, w, "processors and snapshooters in the snapshot");
        if m.named { must!(sn.items.len() == 1 && sn.items[0].0 == "m", "named mount"); }
    }
}
/// every snapshooter of a panel, cockpit or processor is kept and shown once, in order
fn snapshooters(c: &mut Case) {
    let what = c.rng.below(3);
    let (n, forms) = (c.rng.usize(6), c.rng.next());
    c.log(format!("{} snapshooters on a {}, builder forms {:b}", n, ["panel", "cockpit", "processor"][what as usize], forms % 64));
    let want: Vec<String> = (0..n).map(|i| format!("s{}", i)).collect();
    let by = |i: usize| forms >> i & 1 == 1;
    let s = match what {
        0 => { let mut p = Panel::<u8>::accept_all(); for i in 0..n { if by(i) { p = p.snapshooter(Snp(i)) } else { p.add_snapshooter(Snp(i)) } } snap(&p, false) }
        1 => { let mut p = Cockpit::<u8>::without_name(); for i in 0..n { if by(i) { p = p.snapshooter(Snp(i)) } else { p.add_snapshooter(Snp(i)) } } must_eq!(p.get_snapshooters().len(), n, "snapshooters"); snap(&p, false) }
        _ => { let (_t, mut p) = TelemetryProcessor::<u8>::new_pair_without_name(); for i in 0..n { if by(i) { p = p.snapshooter(Snp(i)) } else { p.add_snapshooter(Snp(i)) } } must_eq!(p.get_snapshooters().len(), n, "snapshooters"); snap(&p, false) }
    };
    let mut got = vec![];
    flat(&s, &mut got);
    must_eq!(got, want, "snapshooters shown");
}
fn combine(c: &mut Case) {
    let mut g = || [0; 4].map(|_| c.rng.usize(1 << 40));
    let (a, b) = (g(), g());
    c.log(format!("{:?} {:?}", a, b));
    let mk = |a: [usize; 4]| ProcessingOutcome { processed: a[0], dropped: a[1], instruments_updated: a[2], observations_enqueued: a[3] };
    let mut x = mk(a);
    x.combine_with(&mk(b));
    must_eq!([x.processed, x.dropped, x.instruments_updated, x.observations_enqueued], [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]], "sum");
    for (p, d) in [(0, 0), (1, 0), (0, 1), (a[0], b[0])] { must_eq!(mk([p, d, a[2], a[3]]).something_happened(), p + d > 0, "something_happened({}, {})", p, d); }
}
pub const CONTRACTS16: &[Contract] = &[("mounts", mounts), ("snapshooters", snapshooters), ("combine", combine), ("driver_runs", crate::drv::driver_runs)];
