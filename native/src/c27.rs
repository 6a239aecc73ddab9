//! C27: found numbers convert to durations of the requested unit.
use crate::{util::*, *};
use metrix::snapshot::*;
use std::time::Duration;

fn item(r: &mut Rng) -> ItemKind { match r.below(6) { 0 => ItemKind::Text("5".into()), 1 => ItemKind::Boolean(r.bool()), 2 => ItemKind::Float(r.f64b()), 3 => ItemKind::UInt(r.u64b()), 4 => ItemKind::Int(r.i64b()), _ => ItemKind::Snapshot(Snapshot { items: vec![("a".into(), ItemKind::UInt(3))] }) } }
fn durations(c: &mut Case) {
    let it = item(&mut c.rng);
    c.log(format!("{:?}", it));
    let n = match it { ItemKind::UInt(v) => Some(v), ItemKind::Int(v) if v >= 0 => Some(v as u64), _ => None };
    let s = Snapshot { items: vec![("x".to_string(), it)] };
    let f = s.find("x");
    for (i, u) in UNITS.iter().enumerate() {
        let g = match i { 0 => f.to_duration_nanoseconds(), 1 => f.to_duration_microseconds(), 2 => f.to_duration_milliseconds(), _ => f.to_duration_seconds() };
        let w = n.map(|n| { let t = n as u128 * per(*u); Duration::new((t / 1_000_000_000) as u64, (t % 1_000_000_000) as u32) });
        must_eq!(g, w.map(FindDurationItem::Duration).unwrap_or(FindDurationItem::NotADuration), "{:?}", u);
        must_eq!(g.opt(), w, "opt of {:?}", u);
        let m = s.find("y");
        let g = match i { 0 => m.to_duration_nanoseconds(), 1 => m.to_duration_microseconds(), 2 => m.to_duration_milliseconds(), _ => m.to_duration_seconds() };
        must_eq!(g, FindDurationItem::NotFound, "missing item");
        must_eq!(g.opt(), None, "opt of a missing item");
    }
}
pub const CONTRACTS: &[Contract] = &[("durations", durations)];
