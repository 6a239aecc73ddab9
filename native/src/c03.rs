//! C03: a counter equals the number of observations it received.
use crate::{util::*, *};
use metrix::instruments::*;
use metrix::snapshot::ItemKind;
use metrix::*;
use std::time::Instant;

pub fn update(r: &mut Rng) -> Update {
    let t = when(r);
    match r.below(3) { 0 => Update::Observations(if r.chance(20) { r.u64b() >> 20 } else { r.below(6) }, t), 1 => Update::Observation(t), _ => Update::ObservationWithValue(value(r), t) }
}
fn counts(c: &mut Case) {
    let mut k = Counter::new("k");
    let (mut n, len) = (0u64, c.rng.usize(c.size * 2 + 1));
    for _ in 0..len {
        match c.rng.below(8) {
            0 => { k.inc(); n += 1; c.log("inc"); }
            1 => { let m = c.rng.below(9); k.inc_by(m); n += m; c.log(format!("inc_by {}", m)); }
            _ => {
                let u = update(&mut c.rng);
                c.log(format!("{:?}", u));
                n += match u { Update::Observations(n, _) => n, _ => 1 };
                must_eq!(k.update(&u), 1, "updated instruments for {:?}", u);
            }
        }
        must_eq!(k.get(), n, "count");
    }
    if len == 0 { c.trivial = true; }
    let s = snap(&k, false);
    must_eq!(s.items, vec![("k".to_string(), ItemKind::UInt(n))], "snapshot");
    let (t, d) = (c.rng.bool(), c.rng.bool());
    if t { k.set_title("T"); }
    if d { k.set_description("D"); }
    must_eq!(snap(&k, false).items, s.items, "snapshot after setting the texts");
    let s = snap(&k, true);
    must_eq!(get(&s, "k"), Some(&ItemKind::UInt(n)), "descriptive snapshot");
    must_eq!(s.items.len(), 1 + t as usize + d as usize, "items of the descriptive snapshot");
}
/// via an adapter and a panel
fn through_adapter(c: &mut Case) {
    let mut a = Counter::new("k").for_all_labels::<u8>();
    let mut n = 0u64;
    for _ in 0..c.rng.usize(c.size + 1) {
        let v = value(&mut c.rng);
        let o = obs(&mut c.rng, 1u8, v);
        c.log(format!("{:?}", o));
        n += match o { Observation::Observed { count, .. } => count, _ => 1 };
        must_eq!(a.handle_observation(&o), 1, "updated instruments");
    }
    must_eq!(snap(&a, false).items, vec![("k".to_string(), ItemKind::UInt(n))], "snapshot");
}
pub const CONTRACTS: &[Contract] = &[("counts", counts), ("through_adapter", through_adapter)];
