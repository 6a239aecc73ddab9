//! C22: meters.
use crate::{c03::update, c18::around, util::*, *};
use metrix::instruments::other_instruments::*;
use metrix::instruments::*;
use metrix::snapshot::ItemKind;
use metrix::*;

/// moving averages, one tick every five full seconds since construction
struct Rates { born: i64, ticks: i64, pending: u64, count: u64, rates: [f64; 3], init: bool }
impl Rates {
    fn new() -> Rates { Rates { born: clock::now_ns(), ticks: 0, pending: 0, count: 0, rates: [0.0; 3], init: false } }
    fn tick(&mut self) {
        let due = (clock::now_ns() - self.born) / 5_000_000_000;
        while self.ticks < due {
            let r = self.pending as f64 / 5.0;
            for (i, m) in [1.0f64, 5.0, 15.0].iter().enumerate() { let a = 1.0 - (-5.0 / 60.0 / m).exp(); if self.init { self.rates[i] += a * (r - self.rates[i]) } else { self.rates[i] = r } }
            self.init = true; self.pending = 0; self.ticks += 1;
        }
    }
    fn mark(&mut self, n: u64) { self.tick(); self.pending += n; self.count += n; }
}
fn meters(c: &mut Case) {
    let value = c.rng.bool();
    let en = [!c.rng.chance(20), c.rng.bool(), c.rng.bool()];
    let cutoff = match c.rng.below(4) { 0 => None, 1 => Some(0.0), 2 => Some(0.5), _ => Some(1e-6) };
    let unit = if c.rng.bool() { None } else { Some(unit(&mut c.rng)) };
    c.log(format!("value meter {} rates {:?} cutoff {:?} unit {:?}", value, en, cutoff, unit));
    clock::adv(c.rng.below(1 << 40));
    macro_rules! build { ($t:ident) => {{
        let mut m = $t::new("m");
        for i in 0..3 {
            if en[i] == (i == 0) && c.rng.bool() { continue; } // the default
            let b = c.rng.bool();
            match i { 0 => if b { m.set_one_minute_rate_enabled(en[0]) } else { m = m.one_minute_rate_enabled(en[0]) }, 1 => if b { m.set_five_minute_rate_enabled(en[1]) } else { m = m.five_minute_rate_enabled(en[1]) }, _ => if b { m.set_fifteen_minute_rate_enabled(en[2]) } else { m = m.fifteen_minute_rate_enabled(en[2]) } }
        }
        if let Some(x) = cutoff { if c.rng.bool() { m.set_lower_cutoff(x) } else { m = m.lower_cutoff(x) } }
        m
    }} }
    let mut m = build!(Meter);
    let mut v = build!(ValueMeter);
    if let Some(u) = unit { if c.rng.bool() { v.set_display_time_unit(u) } else { v = v.display_time_unit(u) } }
    let mut r = Rates::new();
    for _ in 0..2 + c.rng.usize(c.size * 2) {
        if c.rng.chance(60) { let d = *c.rng.pick(&[5_000_000_000, 5_000_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000]); let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s)); }
        for _ in 0..c.rng.usize(4) {
            let mut u = update(&mut c.rng);
            if c.rng.bool() { let t = std::time::Instant::now(); u = Update::ObservationWithValue(small_value(&mut c.rng), t) }
            // values of the value meter: not negative, and small enough to be added up
            if value { if let Update::ObservationWithValue(x, t) = u { let big = match x { ObservedValue::Duration(n, a) => conv(n, a, unit.unwrap_or_default()).map_or(true, |x| x > 1 << 50), x => as_i64(&x).map_or(false, |x| x < 0 || x > 1 << 50) }; if big { u = Update::ObservationWithValue(ObservedValue::UnsignedInteger(3), t) } } }
            c.log(format!("{:?}", u));
            let (n, e) = if value {
                match u { Update::ObservationWithValue(ObservedValue::Duration(n, a), _) => (conv(n, a, unit.unwrap_or_default()), 1), Update::ObservationWithValue(x, _) => { let x = as_i64(&x).map(|x| x as u64); (x, x.is_some() as usize) } _ => (None, 0) }
            } else { (Some(match u { Update::Observations(n, _) => n, _ => 1 }), 1) };
            let got = if value { v.update(&u) } else { m.update(&u) };
            must_eq!(got, e, "updated instruments for {:?}", u);
            if let Some(n) = n { r.mark(n) } else { r.tick() }
        }
        if c.rng.chance(60) {
            r.tick();
            let s = if value { snap(&v, c.rng.bool()) } else { snap(&m, c.rng.bool()) };
            must_eq!(s.items.len(), 1, "items");
            let s = match get(&s, "m") { Some(ItemKind::Snapshot(s)) => s, x => panic!("nothing nested under the name: {:?}", x) };
            must_eq!(get(s, "count"), Some(&ItemKind::UInt(r.count)), "count");
            for (i, n) in ["one_minute", "five_minutes", "fifteen_minutes"].iter().enumerate() {
                let x = get(s, n);
                if !en[i] { must_eq!(x, None, "{} is not enabled", n); continue; }
                let x = match x { Some(ItemKind::Snapshot(s)) => match get(s, "rate") { Some(ItemKind::Float(f)) => *f, x => panic!("rate: {:?}", x) }, x => panic!("{}: {:?}", n, x) };
                let cut = cutoff.unwrap_or(0.001);
                let w = r.rates[i];
                if (w - cut).abs() <= 1e-6 * cut { continue; }
                let w = if w < cut { 0.0 } else { w };
                must!((x - w).abs() <= 1e-6 * w.abs() + 1e-12, "{}: {} instead of {} after {} ticks", n, x, w, r.ticks);
            }
        }
    }
}
pub const CONTRACTS: &[Contract] = &[("meters", meters)];
