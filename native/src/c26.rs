//! C26: observations reach instruments with their content intact.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Default)]
pub struct Probe { pub got: Arc<Mutex<Vec<Update>>>, pub ret: usize }
impl Updates for Probe { fn update(&mut self, u: &Update) -> usize { self.got.lock().unwrap().push(u.clone()); self.ret } }
impl PutsSnapshot for Probe { fn put_snapshot(&self, into: &mut Snapshot, d: bool) { into.push("probe", d) } }
impl Instrument for Probe {}
pub fn same(a: &Update, b: &Update) -> bool {
    match (a, b) {
        (Update::Observations(m, s), Update::Observations(n, t)) => m == n && s == t,
        (Update::Observation(s), Update::Observation(t)) => s == t,
        (Update::ObservationWithValue(v, s), Update::ObservationWithValue(w, t)) => veq(v, w) && s == t,
        _ => false,
    }
}
pub fn any_obs<L>(r: &mut Rng, label: L) -> Observation<L> {
    let t = Instant::now() - Duration::from_nanos(r.below(5_000_000_000)) + Duration::from_nanos(r.below(3_000_000_000));
    match r.below(3) { 0 => Observation::Observed { label, count: r.u64b(), timestamp: t }, 1 => Observation::ObservedOne { label, timestamp: t }, _ => Observation::ObservedOneValue { label, value: value(r), timestamp: t } }
}
pub fn of<L>(o: &Observation<L>) -> Update {
    match *o { Observation::Observed { count, timestamp, .. } => Update::Observations(count, timestamp), Observation::ObservedOne { timestamp, .. } => Update::Observation(timestamp), Observation::ObservedOneValue { value, timestamp, .. } => Update::ObservationWithValue(value, timestamp) }
}
/// What the replacing modifier answers: the kind of update follows the label.
fn other(l: u8, turn: u8, t: Instant) -> Update {
    match (l + turn) % 3 { 0 => Update::Observations(l as u64, t), 1 => Update::Observation(t), _ => Update::ObservationWithValue(ObservedValue::SignedInteger(-(l as i64)), t) }
}
fn adapters(c: &mut Case) {
    let ret = c.rng.usize(4);
    let p = Probe { got: Default::default(), ret };
    let labels: Vec<u8> = (0..c.rng.usize(8)).map(|_| c.rng.below(8) as u8).collect();
    let one = c.rng.below(8) as u8;
    let kind = c.rng.below(8);
    c.log(format!("kind {} labels {:?} one {} returns {}", kind, labels, one, ret));
    let mut a: InstrumentAdapter<u8, Probe> = match kind {
        0 => InstrumentAdapter::new(p.clone()), 1 => InstrumentAdapter::for_label(one, p.clone()), 2 => InstrumentAdapter::for_labels(labels.clone(), p.clone()), 3 => InstrumentAdapter::by_predicate(|l| *l % 2 == 0, p.clone()),
        4 => InstrumentAdapter::deaf(p.clone()), 5 => InstrumentAdapter::for_label(one, p.clone()).accept_no_labels(), 6 => InstrumentAdapter::for_label(one, p.clone()).accept_all_labels(), _ => p.clone().into() };
    let acc = |l: u8| match kind { 0 | 6 | 7 => true, 1 => l == one, 2 => labels.contains(&l), 3 => l % 2 == 0, _ => false };
    let modi = c.rng.below(3);
    let turn = c.rng.below(3) as u8;
    let calls: Arc<Mutex<Vec<(u8, Update)>>> = Default::default();
    let fixed = Instant::now();
    if modi > 0 {
        let k = calls.clone();
        a = a.modify_with(move |l, u| { k.lock().unwrap().push((*l, u.clone())); if modi == 1 { u } else { other(*l, turn, fixed) } });
        c.log(format!("modifier {}", modi));
    }
    for _ in 0..c.rng.usize(c.size + 2) {
        clock::adv(c.rng.below(1_000_000_000));
        let l = c.rng.below(9) as u8;
        let o = any_obs(&mut c.rng, l);
        c.log(format!("{:?}", o));
        let r = a.handle_observation(&o);
        let got: Vec<Update> = p.got.lock().unwrap().drain(..).collect();
        let mods: Vec<_> = calls.lock().unwrap().drain(..).collect();
        if acc(l) {
            must_eq!(r, ret, "reported by the adapter");
            must_eq!(got.len(), 1, "number of updates");
            let want = if modi == 2 { other(l, turn, fixed) } else { of(&o) };
            must!(same(&got[0], &want), "instrument got {:?}, expected {:?}", got[0], want);
            if modi > 0 { must!(mods.len() == 1 && mods[0].0 == l && same(&mods[0].1, &of(&o)), "modifier called with {:?} for {:?}", mods, o); }
        } else {
            must_eq!(r, 0, "reported for a label that is not accepted");
            must_eq!(got.len(), 0, "updates for a label that is not accepted");
        }
        must_eq!(*o.label(), l, "label");
        let u = of(&o);
        must_eq!(o.timestamp(), match u { Update::Observations(_, t) | Update::Observation(t) | Update::ObservationWithValue(_, t) => t }, "timestamp");
        let b: BorrowedLabelAndUpdate<u8> = (&o).into();
        must!(*b.0 == l && same(&b.1, &u), "borrowed label and update");
        must!(match (u.observed_value(), &u) { (Some(a), Update::ObservationWithValue(b, _)) => veq(a, b), (None, Update::ObservationWithValue(..)) => false, (x, _) => x.is_none() }, "observed_value of {:?}", u);
        let o2: LabelAndUpdate<u8> = o.into();
        must!(o2.0 == l && same(&o2.1, &u), "label and update");
    }
}
/// the items that are not floats, at all levels
fn exact(s: &Snapshot) -> Snapshot { Snapshot { items: s.items.iter().filter(|i| !matches!(i.1, ItemKind::Float(_))).map(|(n, i)| (n.clone(), match i { ItemKind::Snapshot(s) => ItemKind::Snapshot(exact(s)), i => i.clone() })).collect() } }
/// An adapter built from an instrument against a twin that is updated directly.
macro_rules! route { ($c:expr, $I:ty, $name:expr, $mk:expr) => {{
    let c: &mut Case = $c;
    let mk: fn() -> $I = $mk;
    let labels: Vec<u8> = (0..c.rng.usize(8)).map(|_| c.rng.below(8) as u8).collect();
    let one = c.rng.below(8) as u8;
    let kind = c.rng.below(8);
    c.log(format!("{} route {} labels {:?} one {}", $name, kind, labels, one));
    let mut twin = mk();
    let i = mk();
    let mut a: InstrumentAdapter<u8, $I> = match kind { 0 => i.accept(labels.clone()), 1 => i.accept(one), 2 => i.accept(LabelFilter::accept_none()), 3 => i.for_label(one), 4 => i.for_labels(labels.clone()), 5 => i.for_all_labels(), 6 => i.for_labels_by_predicate(|l: &u8| *l % 2 == 0), _ => i.adapter() };
    let acc = |l: u8| match kind { 0 | 4 => labels.contains(&l), 1 | 3 => l == one, 2 | 7 => false, 6 => l % 2 == 0, _ => true };
    for _ in 0..1 + c.rng.usize(c.size + 2) {
        if c.rng.bool() { clock::adv(c.rng.below(7_000_000_000)); }
        let l = c.rng.below(9) as u8;
        let v = small_value(&mut c.rng);
        let o = obs(&mut c.rng, l, v);
        c.log(format!("{:?}", o));
        let r = a.handle_observation(&o);
        must_eq!(r, if acc(l) { twin.update(&of(&o)) } else { 0 }, "reported by the adapter");
        let d = c.rng.bool();
        let (x, y) = (exact(&snap(&a, d)), exact(&snap(&twin, d)));
        must_eq!(x, y, "snapshot of the adapter (against an instrument that was given the accepted observations)");
        must_eq!(exact(&snap(a.instrument(), d)), y, "snapshot of the adapter's instrument");
    }
}} }
fn routes(c: &mut Case) {
    match c.rng.below(10) {
        0 => route!(c, Counter, "counter", || Counter::new("x")),
        1 => route!(c, Meter, "meter", || Meter::new("x")),
        2 => route!(c, ValueMeter, "value meter", || ValueMeter::new("x")),
        3 => route!(c, Histogram, "histogram", || Histogram::new("x")),
        4 => route!(c, Flag, "flag", || Flag::new("x")),
        5 => route!(c, OccurrenceIndicator, "occurrence indicator", || OccurrenceIndicator::new("x")),
        6 => route!(c, NonOccurrenceIndicator, "non-occurrence indicator", || NonOccurrenceIndicator::new("x")),
        7 => route!(c, StaircaseTimer, "staircase timer", || StaircaseTimer::new("x")),
        8 => route!(c, DataDisplay, "display", || DataDisplay::new("x")),
        _ => route!(c, LastOccurrenceTracker, "last occurrence tracker", || LastOccurrenceTracker::new("x")),
    }
}
pub const CONTRACTS: &[Contract] = &[("adapters", adapters), ("routes", routes)];
