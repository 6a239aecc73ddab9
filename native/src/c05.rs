//! C05: gauge adapters apply their configured strategy.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::*;

fn labels(r: &mut Rng) -> Vec<u8> { (0..r.usize(9)).map(|_| r.below(10) as u8).collect() }
fn strategies(c: &mut Case) {
    let g = || Gauge::new("g").display_time_unit(TimeUnit::Milliseconds);
    let (a, b) = (labels(&mut c.rng), labels(&mut c.rng));
    let one = c.rng.below(10) as u8;
    let kind = c.rng.below(16);
    let (m, n) = (1 + c.rng.below(4) as u8, c.rng.below(4) as u8);
    c.log(format!("kind {} {:?} {:?} {} mod {}=={}", kind, a, b, one, m, n));
    let p = move |l: &u8| l % m == n;
    let q = move |l: &u8| l % 3 == 1;
    type F = Box<dyn Fn(u8) -> bool>;
    let all: F = Box::new(|_| true);
    let none: F = Box::new(|_| false);
    let l1: F = Box::new(move |l| l == one);
    let (x, y) = (a.clone(), b.clone());
    let la: F = Box::new(move |l| x.contains(&l));
    let lb: F = Box::new(move |l| y.contains(&l));
    let lp: F = Box::new(move |l| p(&l));
    let lq: F = Box::new(move |l| q(&l));
    // 0 = plain, 1 = deltas only, 2 = increment/decrement
    let (mut ad, strat, inc, dec): (GaugeAdapter<u8>, u8, F, F) = match kind {
        0 => (GaugeAdapter::new(g()), 0, all, none),
        1 => (g().for_all_labels(), 0, all, none),
        2 => (g().for_label(one), 0, l1, none),
        3 => (g().for_labels(a.clone()), 0, la, none),
        4 => (g().for_labels_by_predicate(p), 0, lp, none),
        5 => (g().adapter(), 0, Box::new(|_| false), none),
        6 => (g().deltas_only(AcceptAllLabels), 1, all, none),
        7 => (g().for_label_deltas_only(one), 1, l1, none),
        8 => (g().for_labels_deltas_only(a.clone()), 1, la, none),
        9 => (g().for_labels_deltas_only_by_predicate(p), 1, lp, none),
        10 => (g().inc_dec_on(one, a.clone()), 2, l1, la),
        11 => (g().inc_dec_on_many(a.clone(), b.clone()), 2, la, lb),
        12 => (g().inc_dec_by_predicates(p, q), 2, lp, lq),
        13 => (GaugeAdapter::deaf(g()), 0, Box::new(|_| false), none),
        14 => (g().inc_dec_on(AcceptAllLabels, one), 2, all, l1),
        _ => (g().into(), 0, all, none),
    };
    let mut cur: Option<i64> = None;
    for _ in 0..c.rng.usize(c.size + 2) {
        let l = c.rng.below(12) as u8;
        let v = small_value(&mut c.rng);
        let o = obs(&mut c.rng, l, v);
        c.log(format!("{:?}", o));
        let val = match o { Observation::ObservedOneValue { value, .. } => Some(value), _ => None };
        let delta = matches!(val, Some(ObservedValue::ChangedBy(_)));
        let (r, nx) = match strat {
            2 => if inc(l) { (1, Some(cur.unwrap_or(0) + 1)) } else if dec(l) { (1, Some(cur.unwrap_or(0) - 1)) } else { (0, cur) },
            s => match val { Some(v) if inc(l) && (s == 0 || delta) => (1, crate::c04::next(cur, &v, TimeUnit::Milliseconds).unwrap()), _ => (0, cur) },
        };
        must_eq!(ad.handle_observation(&o), r, "updated instruments");
        cur = nx;
        must_eq!(ad.gauge().get(), cur, "gauge value");
    }
    must_eq!(crate::c04::shown(&snap(&ad, false), "g", false), cur.map(metrix::snapshot::ItemKind::Int), "shown value");
}
pub const CONTRACTS: &[Contract] = &[("strategies", strategies)];
