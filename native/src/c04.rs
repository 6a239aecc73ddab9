//! C04: a gauge shows the value its updates describe.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::time::Instant;

/// the next value, or Err if the result does not fit in 64 bits
pub fn next(cur: Option<i64>, v: &ObservedValue, u: TimeUnit) -> Result<Option<i64>, ()> {
    match *v {
        ObservedValue::ChangedBy(d) => match cur { None => Ok(Some(d)), Some(c) => c.checked_add(d).map(Some).ok_or(()) },
        ObservedValue::Duration(t, f) => match conv(t, f, u) { Some(x) if x <= i64::MAX as u64 => Ok(Some(x as i64)), _ => Err(()) },
        _ => Ok(as_i64(v).or(cur)),
    }
}
pub fn shown(s: &Snapshot, name: &str, group: bool) -> Option<ItemKind> {
    if group { match get(s, name) { Some(ItemKind::Snapshot(s)) => get(s, "current").cloned(), x => panic!("group {:?}", x) } } else { get(s, name).cloned() }
}
fn values(c: &mut Case) {
    let du = unit(&mut c.rng);
    let (group, tracking) = (c.rng.bool(), if c.rng.chance(30) { 1 + c.rng.usize(5) } else { 0 });
    let mut g = Gauge::new("g").display_time_unit(du).group_values(group);
    let big = tracking == 0 && c.rng.bool();
    let mut cur = None;
    let order = c.rng.bool();
    if tracking > 0 && order { g = g.tracking(tracking); }
    if c.rng.chance(20) { let v = c.rng.range(-50, 50); g = g.value(v); cur = Some(v); }
    if tracking > 0 && !order { g = g.tracking(tracking); }
    c.log(format!("unit {:?} group {} tracking {} start {:?}", du, group, tracking, cur));
    must_eq!(g.get(), cur, "start value");
    for _ in 0..c.rng.usize(c.size + 2) {
        clock::adv_ms(c.rng.below(3) * c.rng.below(1500));
        let v = if big { value(&mut c.rng) } else { small_value(&mut c.rng) };
        match c.rng.below(5) {
            0 => {
                let u = if c.rng.bool() { Update::Observation(Instant::now()) } else { Update::Observations(c.rng.below(9), Instant::now()) };
                c.log(format!("{:?}", u));
                must_eq!(g.update(&u), 0, "updated instruments without a value");
            }
            1 => if let Ok(n) = next(cur, &v, du) { c.log(format!("set {:?}", v)); cur = n; g.set(v); },
            _ => if let Ok(n) = next(cur, &v, du) { c.log(format!("{:?}", v)); cur = n; must_eq!(g.update(&Update::ObservationWithValue(v, Instant::now())), 1, "updated instruments"); },
        }
        must_eq!(g.get(), cur, "value");
        let s = snap(&g, c.rng.bool());
        must_eq!(shown(&s, "g", group), cur.map(ItemKind::Int), "shown value");
        if tracking == 0 {
            must_eq!(s.items.len(), if group || cur.is_some() { 1 } else { 0 }, "number of items");
            if let (true, Some(ItemKind::Snapshot(s))) = (group, get(&s, "g")) { must_eq!(s.items.len(), cur.iter().count(), "grouped items"); }
        }
    }
}
pub const CONTRACTS: &[Contract] = &[("values", values)];
