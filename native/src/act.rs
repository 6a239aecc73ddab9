//! C17 activity, C24 structure of snapshots, over random compositions of all components.
use crate::{c02::histo, c03::update, c18::{around, dur}, util::*, *};
use metrix::cockpit::Cockpit;
use metrix::instruments::polled::{ConstantValue, PollingInstrument};
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::time::Duration;

type Items = Vec<(String, ItemKind)>;
/// a leaf: pushes its number of observations
struct Leaf { id: usize, n: u64 }
impl HandlesObservations for Leaf { type Label = u8; fn handle_observation(&mut self, _: &Observation<u8>) -> usize { self.n += 1; 1 } }
impl PutsSnapshot for Leaf { fn put_snapshot(&self, into: &mut Snapshot, d: bool) { into.push(format!("l{}", self.id), self.n * 2 + d as u64) } }
#[derive(Debug, Clone)]
enum Kid { Leaf(usize, u64), Counter(usize, u64, Vec<u8>, Tx), Poll(usize, bool, Tx), Const(usize, Tx), Node(Node) }
/// title and description
#[derive(Debug, Clone, Default)]
struct Tx { t: Option<String>, d: Option<String> }
#[derive(Debug, Clone, Copy, PartialEq)]
enum Ty { Panel, Cockpit, Proc, Mount }
#[derive(Debug, Clone)]
struct Node { ty: Ty, name: Option<String>, tx: Tx, limit: Option<u64>, show: bool, last: i64, labels: Option<Vec<u8>>, first: Vec<Kid>, kids: Vec<Kid>, handlers: Vec<Kid>, snaps: Vec<Kid>, chan: Option<usize> }
fn put_desc(into: &mut Items, post: &str, x: &Tx, desc: bool) {
    if !desc { return; }
    for (n, v) in [("_title", &x.t), ("_description", &x.d)] { if let Some(v) = v { let n = format!("{}{}", n, post); if !into.iter().any(|i| i.0 == n) { into.push((n, ItemKind::Text(v.clone()))); } } }
}
impl Kid {
    fn render(&self, into: &mut Items, desc: bool, now: i64) {
        match self {
            Kid::Leaf(i, n) => into.push((format!("l{}", i), ItemKind::UInt(n * 2 + desc as u64))),
            Kid::Counter(i, n, _, x) => { put_desc(into, &format!("_c{}", i), x, desc); into.push((format!("c{}", i), ItemKind::UInt(*n))) }
            Kid::Poll(i, g, x) => { put_desc(into, &format!("_q{}", i), x, desc); let v = (format!("l{}", i), ItemKind::UInt(desc as u64)); if *g { into.push((format!("q{}", i), ItemKind::Snapshot(Snapshot { items: vec![v] }))) } else { into.push(v) } }
            Kid::Const(i, x) => { put_desc(into, &format!("_k{}", i), x, desc); into.push((format!("k{}", i), ItemKind::UInt(*i as u64))) }
            Kid::Node(n) => n.render(into, desc, now),
        }
    }
    fn observe(&mut self, l: u8, now: i64) { match self { Kid::Leaf(_, n) => *n += 1, Kid::Counter(_, n, v, _) => if v.contains(&l) { *n += 1 }, Kid::Node(n) => n.observe(l, now), _ => {} } }
}
impl Node {
    fn active(&self, now: i64) -> bool { self.limit.map_or(true, |d| now - self.last <= d as i64) }
    fn render(&self, into: &mut Items, desc: bool, now: i64) {
        if let Some(n) = &self.name { let mut v = vec![]; self.values(&mut v, desc, now); into.push((n.clone(), ItemKind::Snapshot(Snapshot { items: v }))); } else { self.values(into, desc, now) }
    }
    fn values(&self, into: &mut Items, desc: bool, now: i64) {
        put_desc(into, "", &self.tx, desc);
        let a = self.active(now);
        if self.limit.is_some() && self.show { into.push(("_inactive".into(), ItemKind::Boolean(!a))); into.push(("_active".into(), ItemKind::Boolean(a))); }
        if !a { return; }
        let (h, s) = (&self.handlers, &self.snaps);
        let (x, y) = if self.ty == Ty::Panel { (s, h) } else { (h, s) };
        for k in self.first.iter().chain(&self.kids).chain(x).chain(y) { k.render(into, desc, now) }
    }
    fn observe(&mut self, l: u8, now: i64) {
        if let Some(v) = &self.labels { if !v.contains(&l) { return; } }
        if self.ty != Ty::Proc { self.last = now; }
        for k in self.first.iter_mut().chain(&mut self.kids).chain(&mut self.handlers) { k.observe(l, now) }
    }
    /// one processing run; did anything happen?
    fn process(&mut self, queues: &mut Vec<Vec<u8>>, drop_all: bool, now: i64) -> bool {
        let mut any = false;
        match self.ty {
            Ty::Mount => for k in &mut self.kids { if let Kid::Node(n) = k { any |= n.process(queues, drop_all, now) } },
            _ => { let q: Vec<u8> = queues[self.chan.unwrap()].drain(..).collect(); for l in q { any = true; if !drop_all { self.observe(l, now) } } }
        }
        if any { self.last = now; }
        any
    }
    fn limits(&self, v: &mut Vec<u64>) { v.extend(self.limit); for k in &self.kids { if let Kid::Node(n) = k { n.limits(v) } } }
}
struct G { id: usize, txs: Vec<TelemetryTransmitter<u8>>, handles: Vec<metrix::attached_mount::AttachedMount>, limits: Vec<u64>, limited: bool }
impl G {
    fn id(&mut self) -> usize { self.id += 1; self.id }
    fn tx(&mut self, r: &mut Rng) -> Tx { let i = self.id; Tx { t: if r.chance(40) { Some(format!("t{}", i)) } else { None }, d: if r.chance(40) { Some(format!("d{}", i)) } else { None } } }
    fn node(&mut self, r: &mut Rng, ty: Ty) -> Node {
        let i = self.id();
        // mounts and processors may share names, also with their siblings
        let name = if r.chance(60) { Some(format!("n{}", if matches!(ty, Ty::Mount | Ty::Proc) && r.bool() { 1 + r.usize(3) } else { i })) } else { None };
        let tx = if ty == Ty::Mount { Tx::default() } else { self.tx(r) };
        let limit = if self.limited && r.chance(60) { Some(if self.limits.is_empty() || r.bool() { let d = dur(r); self.limits.push(d); d } else { *r.pick(&self.limits) }) } else { None };
        let show = ty == Ty::Mount || r.bool();
        Node { ty, name, tx, limit, show, last: clock::now_ns(), labels: None, first: vec![], kids: vec![], handlers: vec![], snaps: vec![], chan: None }
    }
    fn leaf(&mut self) -> (Leaf, Kid) { let i = self.id(); (Leaf { id: i, n: 0 }, Kid::Leaf(i, 0)) }
    /// a snapshooter
    fn snp(&mut self, r: &mut Rng) -> (Box<dyn PutsSnapshot>, Kid) {
        let i = self.id();
        match r.below(3) {
            0 => { let x = self.tx(r); let g = r.bool(); let mut p = PollingInstrument::new_with_defaults(format!("q{}", i), Leaf { id: i, n: 0 }); p.set_create_group_with_name(g); if let Some(t) = &x.t { p.set_title(t.clone()) } if let Some(t) = &x.d { p.set_description(t.clone()) } (Box::new(p), Kid::Poll(i, g, x)) }
            1 => { let x = self.tx(r); let mut p = ConstantValue::new(format!("k{}", i), i as u64); if let Some(t) = &x.t { p.set_title(t.clone()) } if let Some(t) = &x.d { p.set_description(t.clone()) } (Box::new(p), Kid::Const(i, x)) }
            _ => (Box::new(Leaf { id: i, n: 0 }), Kid::Leaf(i, 0)),
        }
    }
    fn panel(&mut self, r: &mut Rng, depth: usize) -> (Panel<u8>, Node) {
        let mut n = self.node(r, Ty::Panel);
        n.labels = if r.chance(30) { None } else { Some((0..r.usize(4)).map(|_| r.below(4) as u8).collect()) };
        let mut p = match &n.labels { None => Panel::accept_all(), Some(v) => Panel::accept(v.clone()) };
        if let Some(x) = &n.name { if r.bool() { p.set_name(x.clone()) } else { p = Panel::named(match &n.labels { None => LabelFilter::accept_all(), Some(v) => v.clone().into() }, x.clone()) } }
        if let Some(x) = &n.tx.t { p.set_title(x.clone()) } if let Some(x) = &n.tx.d { p.set_description(x.clone()) }
        if let Some(d) = n.limit { if r.bool() { p.set_inactivity_limit(Duration::from_nanos(d)) } else { p = p.inactivity_limit(Duration::from_nanos(d)) } }
        if !n.show { if r.bool() { p.set_show_activity_state(false) } else { p = p.show_activity_state(false) } }
        n.last = clock::now_ns();
        for _ in 0..r.usize(4) {
            match r.below(5) {
                0 if n.first.is_empty() => { let i = self.id(); let x = self.tx(r); let v: Vec<u8> = (0..r.usize(4)).map(|_| r.below(4) as u8).collect(); let mut k = Counter::new(format!("c{}", i)); if let Some(t) = &x.t { if r.bool() { k.set_title(t.clone()) } else { k = k.title(t.clone()) } } if let Some(t) = &x.d { if r.bool() { k.set_description(t.clone()) } else { k = k.description(t.clone()) } } if r.bool() { p = p.counter(k.for_labels(v.clone())) } else { p.add_counter(k.for_labels(v.clone())) } n.first.push(Kid::Counter(i, 0, v, x)); }
                1 => { let (l, k) = self.leaf(); if r.bool() { p.add_handler(l) } else { p = p.handler(l) } n.handlers.push(k); }
                2 => { let (l, k) = self.snp(r); if r.bool() { p.add_snapshooter(Dyn(l)) } else { p = p.snapshooter(Dyn(l)) } n.snaps.push(k); }
                _ if depth > 0 => { let (k, m) = self.panel(r, depth - 1); if r.bool() { p.add_panel(k) } else { p = p.panel(k) } n.kids.push(Kid::Node(m)); }
                _ => {}
            }
        }
        (p, n)
    }
    fn cockpit(&mut self, r: &mut Rng) -> (Cockpit<u8>, Node) {
        let mut n = self.node(r, Ty::Cockpit);
        let mut p = match &n.name { Some(x) if r.bool() => Cockpit::new(x.clone()), _ => Cockpit::without_name() };
        if let Some(x) = &n.name { if r.bool() || p.get_name().is_none() { p.set_name(x.clone()) } }
        if let Some(x) = &n.tx.t { p.set_title(x.clone()) } if let Some(x) = &n.tx.d { p.set_description(x.clone()) }
        if let Some(d) = n.limit { p.set_inactivity_limit(Duration::from_nanos(d)) }
        if !n.show { if r.bool() { p.set_show_activity_state(false) } else { p = p.show_activity_state(false) } }
        for _ in 0..r.usize(4) {
            match r.below(4) {
                0 => { let (l, k) = self.leaf(); if r.bool() { p.add_handler(l) } else { p = p.handler(l) } n.handlers.push(k); }
                1 => { let (l, k) = self.snp(r); if r.bool() { p.add_snapshooter(Dyn(l)) } else { p = p.snapshooter(Dyn(l)) } n.snaps.push(k); }
                _ => { let (k, m) = self.panel(r, 2); if r.bool() { p.add_panel(k) } else { p = p.panel(k) } n.kids.push(Kid::Node(m)); }
            }
        }
        (p, n)
    }
    fn processor(&mut self, r: &mut Rng) -> (TelemetryProcessor<u8>, Node) {
        let mut n = self.node(r, Ty::Proc);
        n.tx = Tx::default();
        let (tx, mut p) = match &n.name { Some(x) => TelemetryProcessor::new_pair(x.clone()), None => TelemetryProcessor::new_pair_without_name() };
        if let Some(d) = n.limit { if r.bool() { p.set_inactivity_limit(Duration::from_nanos(d)) } else { p = p.inactivity_limit(Duration::from_nanos(d)) } }
        if !n.show { if r.bool() { p.set_show_activity_state(false) } else { p = p.show_activity_state(false) } }
        for _ in 0..r.usize(4) {
            match r.below(4) {
                0 => { let (l, k) = self.leaf(); if r.bool() { p.add_handler(l) } else { p = p.handler(l) } n.handlers.push(k); }
                1 => { let (l, k) = self.snp(r); if r.bool() { p.add_snapshooter(Dyn(l)) } else { p = p.snapshooter(Dyn(l)) } n.snaps.push(k); }
                _ => { let (k, m) = self.cockpit(r); if r.bool() { p.add_cockpit(k) } else { p = p.cockpit(k) } n.kids.push(Kid::Node(m)); }
            }
        }
        n.chan = Some(self.txs.len());
        self.txs.push(tx);
        (p, n)
    }
    fn mount(&mut self, r: &mut Rng, depth: usize) -> (ProcessorMount, Node) {
        let mut n = self.node(r, Ty::Mount);
        let mut p = match &n.name { Some(x) => ProcessorMount::new(x.clone()), None => ProcessorMount::default() };
        if let Some(d) = n.limit { p.set_inactivity_limit(Duration::from_nanos(d)) }
        for _ in 0..1 + r.usize(3) {
            match r.below(5) {
                0 => { let (l, k) = self.snp(r); p.add_snapshooter(Dyn(l)); n.snaps.push(k); }
                1 | 2 if depth > 0 => { let (k, m) = self.mount(r, depth - 1); if r.bool() { p.add_processor(k) } else { let h = p.attached_mount(k); if r.bool() { self.handles.push(h) } } n.kids.push(Kid::Node(m)); }
                _ => { let (k, m) = self.processor(r); p.add_processor(k); n.kids.push(Kid::Node(m)); }
            }
        }
        (p, n)
    }
}
struct Dyn(Box<dyn PutsSnapshot>);
impl PutsSnapshot for Dyn { fn put_snapshot(&self, into: &mut Snapshot, d: bool) { self.0.put_snapshot(into, d) } }

fn prefill(r: &mut Rng) -> Items {
    let mut v: Items = vec![];
    for _ in 0..r.usize(4) { let n = *r.pick(&["_title", "_description", "x", "n1", "n2", "n3", "n4", "l2", "q2", "k2", "c2", "_active", "_title_c3"]); v.push((n.into(), match r.below(3) { 0 => ItemKind::UInt(7), 1 => ItemKind::Text("old".into()), _ => { let mut s = Snapshot::default(); s.push("old", 1u64); ItemKind::Snapshot(s) } })); }
    v
}
fn tree(c: &mut Case, limited: bool) {
    clock::adv(c.rng.below(1 << 40));
    let mut g = G { id: 0, txs: vec![], handles: vec![], limits: vec![], limited };
    // construction takes no time
    let depth = c.rng.usize(3);
    let (mut p, mut m) = g.mount(&mut c.rng, depth);
    let mut queues: Vec<Vec<u8>> = vec![vec![]; g.txs.len()];
    c.log(format!("{:?}", m));
    for _ in 0..2 + c.rng.usize(c.size.min(15)) {
        if limited || c.rng.chance(10) { let d = if g.limits.is_empty() { 5 } else { *c.rng.pick(&g.limits) }; let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s)); }
        if !queues.is_empty() { for _ in 0..c.rng.usize(3) { let (q, l) = (c.rng.usize(queues.len()), c.rng.below(5) as u8); c.log(format!("observe {} on {}", l, q)); g.txs[q].observed_one_now(l); queues[q].push(l); } }
        if c.rng.chance(60) {
            let da = c.rng.chance(25);
            c.log(format!("process, drop all: {}", da));
            p.process(1000, if da { ProcessingStrategy::DropAll } else { ProcessingStrategy::ProcessAll });
            m.process(&mut queues, da, clock::now_ns());
        }
        if c.rng.chance(70) {
            let desc = c.rng.bool();
            let pre = prefill(&mut c.rng);
            let mut want = pre.clone();
            m.render(&mut want, desc, clock::now_ns());
            let mut s = Snapshot { items: pre.clone() };
            p.put_snapshot(&mut s, desc);
            must_eq!(s.items, want, "snapshot (descriptive {}) into {:?}", desc, pre);
        }
    }
}
fn activity(c: &mut Case) { tree(c, true) }
fn structure(c: &mut Case) { tree(c, false) }

/// one panel or cockpit alone, driven directly
fn alone(c: &mut Case) {
    clock::adv(c.rng.below(1 << 40));
    let mut g = G { id: 0, txs: vec![], handles: vec![], limits: vec![], limited: true };
    let pan = c.rng.bool();
    let (mut a, mut b, mut m) = if pan { let (a, m) = g.panel(&mut c.rng, 2); (Some(a), None, m) } else { let (b, m) = g.cockpit(&mut c.rng); (None, Some(b), m) };
    c.log(format!("{:?}", m));
    for _ in 0..2 + c.rng.usize(c.size) {
        let d = if g.limits.is_empty() { 5 } else { *c.rng.pick(&g.limits) }; let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s));
        if c.rng.bool() {
            let l = c.rng.below(5) as u8; let v = small_value(&mut c.rng); let o = obs(&mut c.rng, l, v);
            let o = match o { Observation::Observed { label, timestamp, .. } => Observation::ObservedOne { label, timestamp }, o => o };
            c.log(format!("{:?}", o));
            if let Some(a) = &mut a { a.handle_observation(&o); } else { b.as_mut().unwrap().handle_observation(&o); }
            m.observe(l, clock::now_ns());
        }
        let desc = c.rng.chance(20);
        let pre = prefill(&mut c.rng);
        let mut want = pre.clone();
        m.render(&mut want, desc, clock::now_ns());
        let mut s = Snapshot { items: pre.clone() };
        if let Some(a) = &a { a.put_snapshot(&mut s, desc) } else { b.as_ref().unwrap().put_snapshot(&mut s, desc) }
        must_eq!(s.items, want, "snapshot (descriptive {}) into {:?}", desc, pre);
    }
}
macro_rules! part { ($c:expr, $kind:expr, $i:expr) => {{
    let c: &mut Case = $c;
    let kind: &str = $kind;
    let mut i = $i;
    let mut name = "first".to_string();
    let mut x = Tx::default();
    c.log(kind.to_string());
    for k in 0..2 + c.rng.usize(5) {
        let v = format!("v{}", k);
        let by = c.rng.bool();
        match c.rng.below(3) {
            0 => { c.log(format!("name {} builder {}", v, by)); if by { i = i.name(v.clone()) } else { i.set_name(v.clone()) } name = v; }
            1 => { c.log(format!("title {} builder {}", v, by)); if by { i = i.title(v.clone()) } else { i.set_title(v.clone()) } x.t = Some(v); }
            _ => { c.log(format!("description {} builder {}", v, by)); if by { i = i.description(v.clone()) } else { i.set_description(v.clone()) } x.d = Some(v); }
        }
        must_eq!(i.get_name(), name, "name of the {}", kind);
        let desc = c.rng.bool();
        let mut want = prefill(&mut c.rng);
        let mut s = Snapshot { items: want.clone() };
        i.put_snapshot(&mut s, desc);
        must!(s.items.len() >= want.len() && s.items[..want.len()] == want[..], "items that were there: {:?} in {:?}", want, s);
        let n = want.len();
        let told = s.items[n..].iter().filter(|i| i.0.starts_with("_title") || i.0.starts_with("_description")).cloned().collect::<Items>();
        put_desc(&mut want, &format!("_{}", name), &x, desc);
        must_eq!(told, want[n..].to_vec(), "title and description of the {} in a snapshot (descriptive {})", kind, desc);
        // the values do not depend on the descriptive output
        let t = snap(&i, false);
        must_eq!(s.items[want.len()..].iter().map(|i| &i.0).collect::<Vec<_>>(), t.items.iter().map(|i| &i.0).collect::<Vec<_>>(), "names of the {}'s values", kind);
        must!(t.items.iter().all(|i| i.0.starts_with(&name)), "names of the {}'s values: {:?}", kind, t);
    }
}} }
/// names, titles and descriptions of the instruments
fn parts(c: &mut Case) {
    let f = "first";
    match c.rng.below(11) {
        0 => part!(c, "counter", Counter::new(f)),
        1 => { let mut g = Gauge::new(f).value(3); if c.rng.bool() { g = g.tracking(3).group_values(c.rng.bool()); } part!(c, "gauge", g) }
        2 => part!(c, "meter", Meter::new(f)),
        3 => part!(c, "value meter", ValueMeter::new(f)),
        4 => part!(c, "histogram", Histogram::new(f)),
        5 => part!(c, "flag", Flag::new(f).state(true)),
        6 => part!(c, "occurrence indicator", OccurrenceIndicator::new(f)),
        7 => part!(c, "non-occurrence indicator", NonOccurrenceIndicator::new(f)),
        8 => part!(c, "staircase timer", StaircaseTimer::new(f)),
        9 => part!(c, "display", DataDisplay::new(f)),
        _ => part!(c, "last occurrence tracker", LastOccurrenceTracker::new(f)),
    }
}
/// C17 and C23: a histogram
fn histogram(c: &mut Case) {
    let unit = if c.rng.bool() { None } else { Some(unit(&mut c.rng)) };
    let limit = if c.rng.bool() { None } else { Some(dur(&mut c.rng)) };
    let (reset, show) = (c.rng.bool(), c.rng.bool());
    let x = Tx { t: if c.rng.chance(30) { Some("t".into()) } else { None }, d: if c.rng.chance(30) { Some("d".into()) } else { None } };
    c.log(format!("unit {:?} limit {:?} reset {} show {}", unit, limit, reset, show));
    let mut h = Histogram::new("h");
    if let Some(u) = unit { if c.rng.bool() { h.set_display_time_unit(u) } else { h = h.display_time_unit(u) } }
    if let Some(d) = limit { if c.rng.bool() { h.set_inactivity_limit(Duration::from_nanos(d)) } else { h = h.inactivity_limit(Duration::from_nanos(d)) } }
    if !reset { if c.rng.bool() { h.set_reset_after_inactivity(false) } else { h = h.reset_after_inactivity(false) } }
    if !show { if c.rng.bool() { h.set_show_activity_state(false) } else { h = h.show_activity_state(false) } }
    if let Some(t) = &x.t { h.set_title(t.clone()) } if let Some(t) = &x.d { h.set_description(t.clone()) }
    let mut last = clock::now_ns();
    let start = last;
    let mut vals: Vec<i64> = vec![];
    for _ in 0..2 + c.rng.usize(c.size * 2) {
        if c.rng.chance(60) { let d = limit.unwrap_or(5); let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s)); }
        for _ in 0..c.rng.usize(3) {
            let mut u = if c.rng.bool() { update(&mut c.rng) } else { let t = std::time::Instant::now(); Update::ObservationWithValue(small_value(&mut c.rng), t) };
            // durations that fit
            if let Update::ObservationWithValue(ObservedValue::Duration(n, a), t) = u { if conv(n, a, unit.unwrap_or_default()).map_or(true, |x| x > i64::MAX as u64) { u = Update::ObservationWithValue(ObservedValue::Duration(n % 1000, TimeUnit::Nanoseconds), t) } }
            c.log(format!("{:?}", u));
            let now = clock::now_ns();
            if let Some(d) = limit { if reset && (now - last) as u64 > d { vals.clear(); } }
            let v = match u { Update::ObservationWithValue(ObservedValue::Duration(n, a), _) => conv(n, a, unit.unwrap_or_default()).map(|x| x as i64), Update::ObservationWithValue(v, _) => as_i64(&v), _ => None };
            must!(match &u { Update::ObservationWithValue(x, _) => histo(x) == v.is_some(), _ => true }, "generator");
            must_eq!(h.update(&u), v.is_some() as usize, "updated instruments");
            if let Some(v) = v { vals.push(v); last = now; }
        }
        let now = clock::now_ns();
        let desc = c.rng.bool();
        let pre = prefill(&mut c.rng);
        let mut want = pre.clone();
        put_desc(&mut want, "_h", &x, desc);
        let mut s = Snapshot { items: pre };
        h.put_snapshot(&mut s, desc);
        let (n, k) = s.items.pop().expect("nothing in the snapshot");
        must_eq!(s.items, want, "items before the histogram's");
        must_eq!(n, "h", "name");
        let mut k = match k { ItemKind::Snapshot(s) => s.items, k => panic!("not a nested snapshot: {:?}", k) };
        let a = limit.map_or(true, |d| ((now - last) as u64) < d);
        if limit.is_some() && show { must!(k.len() >= 2, "activity state missing: {:?}", k); let f: Items = k.drain(..2).collect(); must_eq!(f, vec![("_inactive".to_string(), ItemKind::Boolean(!a)), ("_active".to_string(), ItemKind::Boolean(a))], "activity state, {} ns after the last value", now - last); }
        if !a { must_eq!(k, vec![], "values of an inactive histogram"); continue; }
        let s = Snapshot { items: k };
        must_eq!(get(&s, "count"), Some(&ItemKind::UInt(vals.len() as u64)), "count");
        if vals.is_empty() { must_eq!(s.items.len(), 1, "items of an empty histogram: {:?}", s); continue; }
        if now - start < 3_600_000_000_000 && vals.len() <= 1028 {
            must_eq!(get(&s, "min"), Some(&ItemKind::Int(*vals.iter().min().unwrap())), "min");
            must_eq!(get(&s, "max"), Some(&ItemKind::Int(*vals.iter().max().unwrap())), "max");
            let q = match get(&s, "quantiles") { Some(ItemKind::Snapshot(q)) => q.items.clone(), x => panic!("quantiles: {:?}", x) };
            for (n, v) in q { must!(matches!(v, ItemKind::Int(x) if vals.contains(&x)), "quantile {} = {:?} was never recorded", n, v); }
        }
        must!(matches!(get(&s, "mean"), Some(ItemKind::Float(_))) && matches!(get(&s, "stddev"), Some(ItemKind::Float(_))), "mean and deviation: {:?}", s);
    }
}
pub const CONTRACTS17: &[Contract] = &[("activity", activity), ("alone", alone), ("histogram", histogram)];
pub const CONTRACTS23: &[Contract] = &[("histogram", histogram)];
pub const CONTRACTS24: &[Contract] = &[("structure", structure), ("activity", activity), ("alone", alone), ("parts", parts)];
