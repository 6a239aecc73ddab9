//! C13: time-unit conversions are exact or round down.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::*;
use std::time::{Duration, Instant};
use metrix::snapshot::ItemKind;

fn display_value(c: &mut Case) {
    let r = &mut c.rng;
    let (mut t, a, b) = (r.u64b(), unit(r), unit(r));
    if conv(t, a, b).is_none() { t = (u64::MAX as u128 * per(b) / per(a)).min(u64::MAX as u128) as u64 - r.below(3).min(0); }
    let want = match conv(t, a, b) { Some(w) => w, None => { c.trivial = true; return } };
    c.log(format!("duration {} {:?} shown in {:?}", t, a, b));
    let up = Update::ObservationWithValue(ObservedValue::Duration(t, a), Instant::now());
    if want <= i64::MAX as u64 {
        let mut g = Gauge::new("g"); g.set_display_time_unit(b);
        g.update(&up);
        must_eq!(g.get(), Some(want as i64), "gauge value of {} {:?} in {:?}", t, a, b);
    }
    // values above the signed range are recorded by a histogram only
    let mut h = Histogram::new("h"); h.set_display_time_unit(b);
    if want <= i64::MAX as u64 { h.update(&up); let s = snap(&h, false); must_eq!(get(&s, "h").and_then(|x| if let ItemKind::Snapshot(s) = x { get(s, "max").cloned() } else { None }), Some(ItemKind::Int(want as i64)), "histogram maximum after {} {:?} in {:?}", t, a, b); }
}
fn durations(c: &mut Case) {
    let r = &mut c.rng;
    let secs = match r.below(3) { 0 => r.below(100), 1 => r.u64b() % 18_446_744_073, _ => 18_446_744_073 };
    let n = match r.below(3) { 0 => r.below(1_000_000_000) as u32, 1 => *r.pick(&[0, 999_999_999, 999_999, 1_000_000, 999, 1000, 1]), _ => r.below(2000) as u32 };
    let n = if secs == 18_446_744_073 { n.min(709_551_615) } else { n };
    let d = Duration::new(secs, n);
    let u = unit(r);
    c.log(format!("{:?} in {:?}", d, u));
    let total = secs as u128 * 1_000_000_000 + n as u128;
    must!(veq(&ObservedValue::from(d), &ObservedValue::Duration(total as u64, TimeUnit::Nanoseconds)), "From<Duration>: got {:?}, expected {} ns", ObservedValue::from(d), total);
    let w = ObservedValue::Duration((total / per(u)) as u64, u);
    let got: ObservedValue = (d, u).into();
    must!(veq(&got, &w), "From<(Duration, TimeUnit)>: got {:?}, expected {:?}", got, w);
    // durations too long for nanoseconds, observed in a coarser unit
    let secs = c.rng.u64b();
    let big = Duration::new(secs, n % 1_000_000_000);
    let total = secs as u128 * 1_000_000_000 + (n % 1_000_000_000) as u128;
    if total / per(u) <= u64::MAX as u128 {
        let got: ObservedValue = (big, u).into();
        must!(veq(&got, &ObservedValue::Duration((total / per(u)) as u64, u)), "From<(Duration, TimeUnit)> of {:?}: got {:?}", big, got);
    }
    let k = c.rng.u64b();
    must!(veq(&ObservedValue::from((k, u)), &ObservedValue::Duration(k, u)), "From<(u64, TimeUnit)>");
}
pub const CONTRACTS: &[Contract] = &[("display_value", display_value), ("durations", durations)];
