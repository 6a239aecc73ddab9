//! Shared generators and oracles.
use crate::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use std::time::Instant;

pub const UNITS: [TimeUnit; 4] = [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds];
/// nanoseconds per unit
pub fn per(u: TimeUnit) -> u128 { match u { TimeUnit::Nanoseconds => 1, TimeUnit::Microseconds => 1_000, TimeUnit::Milliseconds => 1_000_000, TimeUnit::Seconds => 1_000_000_000 } }
/// the display value; None if it does not fit
pub fn conv(t: u64, a: TimeUnit, b: TimeUnit) -> Option<u64> { let x = t as u128 * per(a) / per(b); if x <= u64::MAX as u128 { Some(x as u64) } else { None } }
pub fn unit(r: &mut Rng) -> TimeUnit { *r.pick(&UNITS) }
/// any observed value; durations may be huge
pub fn value(r: &mut Rng) -> ObservedValue {
    match r.below(6) {
        0 => ObservedValue::SignedInteger(r.i64b()),
        1 => ObservedValue::UnsignedInteger(r.u64b()),
        2 => ObservedValue::Float(r.f64b()),
        3 => ObservedValue::Bool(r.bool()),
        4 => ObservedValue::Duration(r.u64b(), unit(r)),
        _ => ObservedValue::ChangedBy(r.i64b()),
    }
}
/// values of moderate size (sums and unit conversions stay far from overflow)
pub fn small_value(r: &mut Rng) -> ObservedValue {
    match r.below(6) {
        0 => ObservedValue::SignedInteger(r.range(-1000, 1000)),
        1 => ObservedValue::UnsignedInteger(r.below(1000)),
        2 => ObservedValue::Float(r.range(-4000, 4000) as f64 / 4.0),
        3 => ObservedValue::Bool(r.bool()),
        4 => { let u = unit(r); ObservedValue::Duration(r.below(if per(u) == 1 { 5_000_000_000 } else { 5_000_000 }), u) }
        _ => ObservedValue::ChangedBy(r.range(-5, 5)),
    }
}
/// independent oracle for the conversion to a signed integer
pub fn as_i64(v: &ObservedValue) -> Option<i64> {
    match *v { ObservedValue::SignedInteger(v) => Some(v), ObservedValue::UnsignedInteger(v) => if v < 1 << 63 { Some(v as i64) } else { None },
        ObservedValue::Float(f) => nearest(f).and_then(|n| if n >= i64::MIN as i128 && n <= i64::MAX as i128 { Some(n as i64) } else { None }), _ => None }
}
pub fn as_u64(v: &ObservedValue) -> Option<u64> {
    match *v { ObservedValue::SignedInteger(v) => if v >= 0 { Some(v as u64) } else { None }, ObservedValue::UnsignedInteger(v) => Some(v),
        ObservedValue::Float(f) => nearest(f).and_then(|n| if n >= 0 && n <= u64::MAX as i128 { Some(n as u64) } else { None }), _ => None }
}
pub fn as_bool(v: &ObservedValue) -> Option<bool> { match *v { ObservedValue::SignedInteger(v) => Some(v != 0), ObservedValue::UnsignedInteger(v) => Some(v != 0), ObservedValue::Bool(b) => Some(b), _ => None } }
/// exact nearest integer, ties away from zero, for |f| < 2^100
pub fn nearest(f: f64) -> Option<i128> {
    if f.is_nan() || f.abs() > 1e30 { return None; }
    let t = f as i128; let fr = f - t as f64;
    Some(if fr >= 0.5 { t + 1 } else if fr <= -0.5 { t - 1 } else { t })
}
/// when something was observed: mostly now, sometimes long before it is handled
pub fn when(r: &mut Rng) -> Instant { let t = Instant::now(); if r.chance(70) { t } else { let ns = if r.bool() { r.below(3_000_000_000) } else { r.below(200_000_000_000) }; t - std::time::Duration::from_nanos(ns) } }
pub fn obs<L>(r: &mut Rng, label: L, v: ObservedValue) -> Observation<L> {
    let t = when(r);
    match r.below(3) { 0 => Observation::Observed { label, count: r.below(5), timestamp: t }, 1 => Observation::ObservedOne { label, timestamp: t }, _ => Observation::ObservedOneValue { label, value: v, timestamp: t } }
}
pub fn veq(a: &ObservedValue, b: &ObservedValue) -> bool { match (a, b) { (ObservedValue::Float(x), ObservedValue::Float(y)) => x.to_bits() == y.to_bits(), _ => format!("{:?}", a) == format!("{:?}", b) } }
/// a snapshot on top of an item that was there before; that one stays where it is
pub fn snap<P: PutsSnapshot + ?Sized>(p: &P, descriptive: bool) -> Snapshot {
    let mut s = Snapshot::default();
    s.items.push(("what was there".into(), ItemKind::UInt(42)));
    p.put_snapshot(&mut s, descriptive);
    must!(s.items.len() > 0 && s.items[0] == ("what was there".to_string(), ItemKind::UInt(42)), "the item that was in the snapshot before is no longer in its place: {:?}", s.items);
    s.items.remove(0);
    // levels that carry the same names are there already: same result after them
    let mut lv = Snapshot::default();
    lv.items.push(("old".into(), ItemKind::UInt(1)));
    let pre: Vec<_> = s.items.iter().filter(|i| matches!(i.1, ItemKind::Snapshot(_))).map(|i| (i.0.clone(), ItemKind::Snapshot(lv.clone()))).collect();
    if !pre.is_empty() {
        let mut t = Snapshot { items: pre.clone() };
        p.put_snapshot(&mut t, descriptive);
        let got = t.items.split_off(pre.len().min(t.items.len()));
        must!(t.items == pre && got.len() == s.items.len() && got.iter().zip(&s.items).all(|(a, b)| a.0 == b.0 && ieq(&a.1, &b.1)), "put after {:?}: that is now {:?}, followed by {:?}, but alone it puts {:?}", pre, t.items, got, s.items);
    }
    s
}
pub fn get<'a>(s: &'a Snapshot, n: &str) -> Option<&'a ItemKind> { s.items.iter().find(|x| x.0 == n).map(|x| &x.1) }
/// equality with NaN equal to itself
pub fn ieq(a: &ItemKind, b: &ItemKind) -> bool { match (a, b) { (ItemKind::Float(x), ItemKind::Float(y)) => x.to_bits() == y.to_bits(), (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => x.items.len() == y.items.len() && x.items.iter().zip(&y.items).all(|(p, q)| p.0 == q.0 && ieq(&p.1, &q.1)), _ => a == b } }
