//! C02: every accepted observation reaches every component exactly once.
use crate::{util::*, *};
use metrix::cockpit::Cockpit;
use metrix::instruments::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use std::sync::{Arc, Mutex};

/// records what it is handed
pub struct Probe { pub id: usize, pub ret: usize, pub got: Arc<Mutex<Vec<(usize, String)>>> }
impl HandlesObservations for Probe { type Label = u8; fn handle_observation(&mut self, o: &Observation<u8>) -> usize { self.got.lock().unwrap().push((self.id, format!("{:?}", o))); self.ret } }
impl PutsSnapshot for Probe { fn put_snapshot(&self, into: &mut Snapshot, _: bool) { into.push(format!("probe{}", self.id), self.id as u64) } }
/// an instrument that records what it is handed
pub struct Instr { pub id: usize, pub ret: usize, pub got: Arc<Mutex<Vec<(usize, String)>>> }
impl Updates for Instr { fn update(&mut self, u: &Update) -> usize { self.got.lock().unwrap().push((self.id, format!("{:?}", u))); self.ret } }
impl PutsSnapshot for Instr { fn put_snapshot(&self, _: &mut Snapshot, _: bool) {} }
impl Instrument for Instr {}

pub type Got = Arc<Mutex<Vec<(usize, String)>>>;
/// what a panel is expected to contain
pub struct Model { pub labels: Option<Vec<u8>>, pub probes: Vec<(usize, usize)>, pub instrs: Vec<(usize, usize)>, pub counters: usize, pub gauges: usize, pub meters: usize, pub histos: usize, pub kids: Vec<Model> }
impl Model {
    pub fn acc(&self, l: u8) -> bool { match &self.labels { None => true, Some(v) => v.contains(&l) } }
    /// (reported, who gets the observation)
    pub fn expect(&self, o: &Observation<u8>, who: &mut Vec<(usize, String)>) -> usize {
        if !self.acc(*o.label()) { return 0; }
        let val = match o { Observation::ObservedOneValue { value, .. } => Some(*value), _ => None };
        let mut n = self.counters + if val.is_some() { self.gauges } else { 0 } + self.meters;
        n += match val { Some(v) => if histo(&v) { self.histos } else { 0 }, None => 0 };
        for k in &self.kids { n += k.expect(o, who); }
        for (id, ret) in &self.probes { who.push((*id, format!("{:?}", o))); n += ret; }
        for (id, ret) in &self.instrs { who.push((*id, format!("{:?}", crate::c26::of(o)))); n += ret; }
        n
    }
}
/// does a histogram report an update for the value
pub fn histo(v: &ObservedValue) -> bool { match v { ObservedValue::Duration(..) => true, v => as_i64(v).is_some() } }
pub fn panel(c: &mut Case, depth: usize, next: &mut usize, got: &Got, named: &mut usize) -> (Panel<u8>, Model) {
    let labels: Option<Vec<u8>> = if c.rng.chance(30) { None } else { Some((0..c.rng.usize(5)).map(|_| c.rng.below(4) as u8).collect()) };
    let name = format!("p{}", *named + 1);
    let how = c.rng.below(3);
    let mut p: Panel<u8> = match (&labels, how) { (None, 0) => Panel::accept_all(), (None, 1) => Panel::accept_all_named(name.clone()), (None, _) => Panel::named(LabelFilter::accept_all(), name.clone()), (Some(v), 0) => Panel::accept(v.clone()), (Some(v), 1) => Panel::accept_named(v.clone(), name.clone()), (Some(v), _) => Panel::named(v.clone(), name.clone()) };
    if how > 0 { *named += 1; }
    let mut m = Model { labels, probes: vec![], instrs: vec![], counters: 0, gauges: 0, meters: 0, histos: 0, kids: vec![] };
    if how == 0 && c.rng.chance(50) { *named += 1; p.set_name(name); }
    for _ in 0..c.rng.usize(5) {
        *next += 1;
        let ret = c.rng.usize(4);
        let b = c.rng.bool(); // the builder form
        match c.rng.below(9) {
            0 => { let x = Counter::new(format!("c{}", next)); if b { p = p.counter(x) } else { p.add_counter(x) } m.counters += 1; }
            1 => { let x = Gauge::new(format!("g{}", next)); if b { p = p.gauge(x) } else { p.add_gauge(x) } m.gauges += 1; }
            2 => { let x = Meter::new(format!("m{}", next)); if b { p = p.meter(x) } else { p.add_meter(x) } m.meters += 1; }
            3 => { let x = Histogram::new(format!("h{}", next)); if b { p = p.histogram(x) } else { p.add_histogram(x) } m.histos += 1; }
            4 => { let x = Instr { id: *next, ret, got: got.clone() }; if b { p = p.instrument(x) } else { p.add_instrument(x) } m.instrs.push((*next, ret)); }
            5 | 6 if depth > 0 => { let (k, km) = panel(c, depth - 1, next, got, named); if b { p = p.panel(k) } else { p.add_panel(k) } m.kids.push(km); }
            _ => { let x = Probe { id: *next, ret, got: got.clone() }; if b { p = p.handler(x) } else { p.add_handler(x) } m.probes.push((*next, ret)); }
        }
    }
    c.log(format!("panel depth {} labels {:?}: probes {:?} instruments {:?} counters {} gauges {} meters {} histograms {} panels {}", depth, m.labels, m.probes, m.instrs, m.counters, m.gauges, m.meters, m.histos, m.kids.len()));
    (p, m)
}
fn observe(r: &mut Rng) -> Observation<u8> { let l = r.below(5) as u8; let v = if r.chance(30) { ObservedValue::Bool(r.bool()) } else { small_value(r) }; obs(r, l, v) }
fn panels(c: &mut Case) {
    let got: Got = Default::default();
    let (mut p, m) = panel(c, 3, &mut 0, &got, &mut 0);
    for _ in 0..1 + c.rng.usize(c.size) {
        let o = observe(&mut c.rng);
        c.log(format!("{:?}", o));
        let mut want = vec![];
        let n = m.expect(&o, &mut want);
        must_eq!(p.accepts_label(o.label()), m.acc(*o.label()), "accepts_label");
        let r = p.handle_observation(&o);
        let mut g: Vec<_> = got.lock().unwrap().drain(..).collect();
        g.sort(); want.sort();
        must_eq!(g, want, "who was handed what");
        must_eq!(r, n, "reported updates");
    }
}
fn cockpits(c: &mut Case) {
    let got: Got = Default::default();
    let mut k: Cockpit<u8> = if c.rng.bool() { Cockpit::without_name() } else { Cockpit::new("k") };
    let (mut next, mut named) = (0, 0);
    let (mut ms, mut ps) = (vec![], vec![]);
    for _ in 0..c.rng.usize(5) {
        if c.rng.bool() { let (p, m) = panel(c, 1, &mut next, &got, &mut named); if c.rng.bool() { k.add_panel(p) } else { k = k.panel(p) } ms.push(m); }
        else { next += 1; let ret = c.rng.usize(4); let x = Probe { id: next, ret, got: got.clone() }; if c.rng.bool() { k.add_handler(x) } else { k = k.handler(x) } ps.push((next, ret)); }
    }
    c.log(format!("cockpit: {} panels, handlers {:?}", ms.len(), ps));
    for _ in 0..1 + c.rng.usize(c.size) {
        let o = observe(&mut c.rng);
        c.log(format!("{:?}", o));
        let mut want: Vec<(usize, String)> = ps.iter().map(|p| (p.0, format!("{:?}", o))).collect();
        let n: usize = ms.iter().map(|m| m.expect(&o, &mut want)).sum::<usize>() + ps.iter().map(|p| p.1).sum::<usize>();
        let r = k.handle_observation(&o);
        let mut g: Vec<_> = got.lock().unwrap().drain(..).collect();
        g.sort(); want.sort();
        must_eq!(g, want, "who was handed what");
        must_eq!(r, n, "reported updates");
    }
}
pub const CONTRACTS: &[Contract] = &[("panels", panels), ("cockpits", cockpits)];
