//! Every way to configure an instrument: constructors, setters, builders and adapters.
use crate::{util::*, *};
use metrix::instruments::other_instruments::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;

fn texts(s: &Snapshot, out: &mut Vec<String>) { for (_, i) in &s.items { match i { ItemKind::Text(t) => out.push(t.clone()), ItemKind::Snapshot(s) => texts(s, out), _ => {} } } }
/// what an instrument shows: its name (as a nested level or an item of its own), the texts exactly if asked for
fn shows<P: PutsSnapshot>(p: &P, n: &str, t: &Option<String>, d: &Option<String>) {
    let plain = snap(p, false);
    must_eq!(plain.items.last().map(|i| i.0.as_str()), Some(n), "the name under which the value is shown");
    let mut x = vec![]; texts(&plain, &mut x);
    must_eq!(x, Vec::<String>::new(), "texts of a snapshot that is not descriptive");
    let mut x = vec![]; texts(&snap(p, true), &mut x);
    let w: Vec<String> = t.iter().chain(d.iter()).cloned().collect();
    must_eq!(x, w, "texts of a descriptive snapshot");
}
/// the updates an adapter reports for the labels 0..5
fn hears<A: HandlesObservations<Label = u8>>(a: &mut A, acc: &[bool]) {
    for l in 0..5u8 {
        let n = a.handle_observation(&Observation::observed_one_value(l, 3u64, std::time::Instant::now()));
        must_eq!(n, acc[l as usize] as usize, "updates for label {}", l);
    }
}
macro_rules! routes { ($f:ident, $t:ident, $new:ident $(, $extra:ident)?) => {
    fn $f(c: &mut Case) {
        let (n, t, d) = (format!("n{}", c.rng.below(100)), if c.rng.bool() { Some(format!("T{}", c.rng.below(9))) } else { None }, if c.rng.bool() { Some(format!("D{}", c.rng.below(9))) } else { None });
        let how = c.rng.below(4);
        c.log(format!("name {} by route {}, title {:?}, description {:?}", n, how, t, d));
        let mut x = match how { 0 => $t::new(n.clone()), 1 => $t::$new(n.clone()), 2 => $t::new("other").name(n.clone()), _ => { let mut x = $t::new("other"); x.set_name(n.clone()); x } };
        if let Some(t) = &t { if c.rng.bool() { x.set_title(t.clone()) } else { x = x.title(t.clone()) } }
        if let Some(d) = &d { if c.rng.bool() { x.set_description(d.clone()) } else { x = x.description(d.clone()) } }
        must_eq!(x.get_name(), n, "name");
        $( $extra(&mut x); )?
        shows(&x, &n, &t, &d);
        let set: Vec<u8> = (0..c.rng.usize(4)).map(|_| c.rng.below(5) as u8).collect();
        let one = c.rng.below(5) as u8;
        let only = |v: &[u8]| -> Vec<bool> { (0..5u8).map(|l| v.contains(&l)).collect() };
        let route = c.rng.below(6);
        c.log(format!("adapter by route {} for {:?} / {}", route, set, one));
        let (mut a, acc) = match route {
            0 => (x.for_label(one), only(&[one])),
            1 => (x.for_labels(set.clone()), only(&set)),
            2 => (x.for_all_labels(), vec![true; 5]),
            3 => (x.for_labels_by_predicate(move |l: &u8| *l > one), (0..5u8).map(|l| l > one).collect()),
            4 => (x.accept(set.clone()), only(&set)),
            _ => (x.adapter(), vec![false; 5]),
        };
        hears(&mut a, &acc);
        if route == 2 || route == 5 { shows(&a, &n, &t, &d); }
    }
} }
fn up<U: Updates>(x: &mut U) { x.update(&Update::ObservationWithValue(ObservedValue::UnsignedInteger(1), std::time::Instant::now())); }
routes!(counter, Counter, new_with_defaults);
routes!(occurrence, OccurrenceIndicator, new_with_defaults);
routes!(non_occurrence, NonOccurrenceIndicator, new_with_defaults);
routes!(staircase, StaircaseTimer, new_with_defaults);
routes!(flag, Flag, new, up);
routes!(display, DataDisplay, new_with_defaults, up);
routes!(last, LastOccurrenceTracker, new_with_defaults, up);
routes!(meter, Meter, new_with_defaults);
routes!(value_meter, ValueMeter, new_with_defaults);
routes!(histogram, Histogram, new_with_defaults);

fn gauge(c: &mut Case) {
    let (n, t, d) = (format!("n{}", c.rng.below(100)), if c.rng.bool() { Some(format!("T{}", c.rng.below(9))) } else { None }, if c.rng.bool() { Some(format!("D{}", c.rng.below(9))) } else { None });
    let how = c.rng.below(4);
    c.log(format!("name {} by route {}, title {:?}, description {:?}", n, how, t, d));
    let mut x = match how { 0 => Gauge::new(n.clone()), 1 => Gauge::new_with_defaults(n.clone()), 2 => Gauge::new("other").name(n.clone()), _ => { let mut x = Gauge::new("other"); x.set_name(n.clone()); x } };
    if let Some(t) = &t { if c.rng.bool() { x.set_title(t.clone()) } else { x = x.title(t.clone()) } }
    if let Some(d) = &d { if c.rng.bool() { x.set_description(d.clone()) } else { x = x.description(d.clone()) } }
    must_eq!(x.get_name(), n, "name");
    up(&mut x);
    shows(&x, &n, &t, &d);
}
pub const CONTRACTS: &[Contract] = &[("routes_counter", counter), ("routes_occurrence", occurrence), ("routes_non_occurrence", non_occurrence), ("routes_staircase", staircase), ("routes_flag", flag), ("routes_display", display), ("routes_last", last), ("routes_meter", meter), ("routes_value_meter", value_meter), ("routes_histogram", histogram), ("routes_gauge", gauge)];
pub fn of(p: &str) -> &'static [Contract] {
    match p { "C03" => &CONTRACTS[0..1], "C18" => &CONTRACTS[1..4], "C19" => &CONTRACTS[4..5], "C20" => &CONTRACTS[5..6], "C21" => &CONTRACTS[6..7], "C22" => &CONTRACTS[7..9], "C23" => &CONTRACTS[9..10], "C04" => &CONTRACTS[10..11], "C26" | "C24" | "C01" => CONTRACTS, _ => &[] }
}
