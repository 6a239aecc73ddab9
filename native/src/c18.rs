//! C18 time switches, C19 flag, C20 data display, C21 last-occurrence tracker.
use crate::{c03::update, util::*, *};
use metrix::instruments::other_instruments::*;
use metrix::instruments::switches::*;
use metrix::instruments::*;
use metrix::snapshot::ItemKind;
use metrix::*;
use std::time::{Duration, Instant};

pub fn dur(r: &mut Rng) -> u64 { match r.below(9) { 0 => 0, 1 => 1, 2 => 1_000_000_000, 3 => r.below(5), 4 => 60_000_000_000, 5 => r.below(5_000_000_000), 6 => 999_999_999, 7 => r.below(100) * 3_600_000_000_000, _ => 1_000_000 * r.below(5000) } }
/// a step of time around d
pub fn around(r: &mut Rng, d: u64) -> u64 { match r.below(9) { 0 => d, 1 => d + 1, 2 => d.saturating_sub(1), 3 => d / 2, 4 => 1, 5 => 2 * d, 6 => r.below(d + 2), 7 => r.below(2_000_000_000), _ => 0 } }
pub fn alt(r: &mut Rng) -> Option<(NameAlternation, &'static str)> { match r.below(5) { 0 => Some((NameAlternation::Prefix("pre_".into()), "pre_n")), 1 => Some((NameAlternation::Postfix("_post".into()), "n_post")), 2 => Some((NameAlternation::Rename("other".into()), "other")), _ => None } }
fn items(s: bool, a: &Option<(NameAlternation, &'static str)>) -> Vec<(String, ItemKind)> {
    let mut v = vec![("n".to_string(), ItemKind::Boolean(s))];
    if let Some((_, n)) = a { v.push((n.to_string(), ItemKind::Boolean(!s))); }
    v
}
fn pre(c: &mut Case) -> Snapshot { let mut s = Snapshot::default(); if c.rng.bool() { s.items.push(("x".into(), 1u64.into())); } s }
use metrix::snapshot::Snapshot;

macro_rules! alternate { ($x:ident, $a:expr, $c:expr) => {
    if let Some((a, _)) = &$a {
        let b = $c.rng.bool();
        match (a.clone(), $c.rng.bool()) {
            (NameAlternation::Prefix(s), true) => if b { $x.set_show_inverted_prefixed(s) } else { $x = $x.show_inverted_prefixed(s) },
            (NameAlternation::Postfix(s), true) => if b { $x.set_show_inverted_postfixed(s) } else { $x = $x.show_inverted_postfixed(s) },
            (NameAlternation::Rename(s), true) => if b { $x.set_show_inverted_renamed(s) } else { $x = $x.show_inverted_renamed(s) },
            (a, _) => if b { $x.set_show_inverted(a) } else { $x = $x.show_inverted(a) },
        }
    }
} }
enum K { O(OccurrenceIndicator), N(NonOccurrenceIndicator), S(StaircaseTimer) }
fn time_switches(c: &mut Case) {
    let d = dur(&mut c.rng); let dd = Duration::from_nanos(d);
    let (inv, a, default, kind) = (c.rng.bool(), alt(&mut c.rng), c.rng.chance(15), c.rng.below(3));
    let (d, dd) = if default { (60_000_000_000, Duration::from_secs(60)) } else { (d, dd) };
    c.log(format!("kind {} duration {}ns default {} inverted {} alternation {:?}", kind, d, default, inv, a));
    let mut k = match kind {
        0 => { let mut x = OccurrenceIndicator::new("n"); if !default { if c.rng.bool() { x = x.if_happened_within(dd) } else { x.set_if_happened_within(dd) } } match c.rng.below(3) { 0 => x.set_invert_enabled(inv), 1 => x = x.invert_enabled(inv), _ => if inv { x = x.inverted() } } alternate!(x, a, c); must_eq!(x.get_if_happened_within(), dd, "configured duration"); must_eq!(x.is_inverted(), inv, "is_inverted"); K::O(x) }
        1 => { let mut x = NonOccurrenceIndicator::new("n"); if !default { if c.rng.bool() { x = x.if_not_happened_within(dd) } else { x.set_if_not_happened_within(dd) } } match c.rng.below(3) { 0 => x.set_invert_enabled(inv), 1 => x = x.invert_enabled(inv), _ => if inv { x = x.inverted() } } alternate!(x, a, c); must_eq!(x.get_if_not_happened_within(), dd, "configured duration"); K::N(x) }
        _ => { let mut x = StaircaseTimer::new("n"); if !default { if c.rng.bool() { x = x.switch_off_after(dd) } else { x.set_switch_off_after(dd) } } if inv { if c.rng.bool() { x.enable_invert() } else { x.set_invert(true) } } alternate!(x, a, c); must_eq!(x.get_switch_off_after(), dd, "configured duration"); K::S(x) }
    };
    let born = clock::now_ns();
    let mut last: Option<i64> = None;
    for _ in 0..2 + c.rng.usize(c.size) {
        let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s));
        if c.rng.bool() {
            let u = update(&mut c.rng); c.log("update");
            let n = match &mut k { K::O(x) => x.update(&u), K::N(x) => x.update(&u), K::S(x) => x.update(&u) };
            must_eq!(n, 1, "updated instruments");
            last = Some(clock::now_ns());
        }
        if c.rng.chance(75) {
            let now = clock::now_ns();
            let want = match k { K::O(_) => last.map_or(false, |l| ((now - l) as u64) < d), K::N(_) => (now - last.unwrap_or(born)) as u64 >= d, K::S(_) => last.map_or(false, |l| (now - l) as u64 <= d) } != inv;
            let got = match &k { K::O(x) => x.state(), K::N(x) => x.state(), K::S(x) => x.state() };
            must_eq!(got, want, "state, {:?} ns after the last update", last.map(|l| now - l));
            let mut s = pre(c); let mut e = s.items.clone(); e.extend(items(want, &a));
            match &k { K::O(x) => x.put_snapshot(&mut s, false), K::N(x) => x.put_snapshot(&mut s, false), K::S(x) => x.put_snapshot(&mut s, false) };
            must_eq!(s.items, e, "snapshot");
        }
    }
}
/// time passes while the snapshot is taken: the inverted item still shows the opposite of the state
fn inverted_is_opposite(c: &mut Case) {
    let d = 1 + c.rng.below(10); let dd = Duration::from_nanos(d);
    let (a, an) = loop { if let Some(x) = alt(&mut c.rng) { break x; } };
    let kind = c.rng.below(3);
    let mut k = match kind { 0 => K::O(OccurrenceIndicator::new("n").if_happened_within(dd).show_inverted(a)), 1 => K::N(NonOccurrenceIndicator::new("n").if_not_happened_within(dd).show_inverted(a)), _ => K::S(StaircaseTimer::new("n").switch_off_after(dd).show_inverted(a)) };
    let u = update(&mut c.rng);
    match &mut k { K::O(x) => x.update(&u), K::N(x) => x.update(&u), K::S(x) => x.update(&u) };
    let s = 1 + c.rng.below(4);
    c.log(format!("kind {} duration {}ns; every clock reading takes {}ns", kind, d, s));
    clock::step(s);
    for _ in 0..6 {
        let s = match &k { K::O(x) => snap(x, false), K::N(x) => snap(x, false), K::S(x) => snap(x, false) };
        match (get(&s, "n"), get(&s, an)) { (Some(ItemKind::Boolean(x)), Some(ItemKind::Boolean(y))) => must!(x != y, "state and inverted state are both {} in one snapshot", x), x => panic!("{:?}", x) }
    }
}
pub const CONTRACTS: &[Contract] = &[("time_switches", time_switches), ("inverted_is_opposite", inverted_is_opposite)];

fn flag(c: &mut Case) {
    let mut want = match c.rng.below(3) { 0 => None, 1 => Some(true), _ => Some(false) };
    let a = alt(&mut c.rng);
    let mut x = match want { None => Flag::new("n"), Some(s) => if c.rng.bool() { Flag::new_with_state("n", s) } else { Flag::new("n").state(s) } };
    alternate!(x, a, c);
    c.log(format!("initial {:?}, {:?}", want, a));
    for _ in 0..1 + c.rng.usize(c.size) {
        must_eq!(x.get_state(), want, "state");
        let mut s = pre(c); let mut e = s.items.clone(); if let Some(w) = want { e.extend(items(w, &a)); }
        x.put_snapshot(&mut s, false);
        must_eq!(s.items, e, "snapshot");
        let u = update(&mut c.rng); c.log(format!("{:?}", u));
        let b = match &u { Update::ObservationWithValue(v, _) => as_bool(v), _ => None };
        must_eq!(x.update(&u), b.is_some() as usize, "updated instruments for {:?}", u);
        if b.is_some() { want = b; }
    }
    must_eq!(x.get_state(), want, "final state");
}
pub const CONTRACTS19: &[Contract] = &[("flag", flag)];

fn display(c: &mut Case) {
    let d = dur(&mut c.rng);
    let mut x = DataDisplay::new("n");
    let resets = c.rng.bool();
    if resets { if c.rng.bool() { x = x.reset_after(Duration::from_nanos(d)) } else { x.set_reset_after(Duration::from_nanos(d)) } }
    let rv = match c.rng.below(4) { 0 => Some(ItemKind::Boolean(c.rng.bool())), 1 => Some(ItemKind::UInt(c.rng.below(9))), _ => None };
    if let Some(v) = &rv { if c.rng.bool() { x = x.reset_value(v.clone()) } else { x.set_reset_value(v.clone()) } }
    must_eq!(x.get_reset_after(), if resets { Some(Duration::from_nanos(d)) } else { None }, "configured reset time");
    c.log(format!("reset value {:?} after {:?}", rv, if resets { Some(d) } else { None }));
    let mut last: Option<(i64, ItemKind)> = None;
    for _ in 0..1 + c.rng.usize(c.size) {
        let s = around(&mut c.rng, d); clock::adv(s); c.log(format!("+{}ns", s));
        if c.rng.bool() {
            let u = update(&mut c.rng); c.log(format!("{:?}", u));
            let v = match &u { Update::ObservationWithValue(v, _) => match *v { ObservedValue::SignedInteger(v) => Some(ItemKind::Int(v)), ObservedValue::UnsignedInteger(v) => Some(ItemKind::UInt(v)), ObservedValue::Float(v) => Some(ItemKind::Float(v)), ObservedValue::Bool(v) => Some(ItemKind::Boolean(v)), _ => None }, _ => None };
            must_eq!(x.update(&u), v.is_some() as usize, "updated instruments for {:?}", u);
            if let Some(v) = v { last = Some((clock::now_ns(), v)); }
        }
        let want = match &last { None => rv.clone(), Some((t, v)) => if !resets || (clock::now_ns() - t) as u64 <= d { Some(v.clone()) } else { rv.clone() } };
        let same = |a: &Option<ItemKind>, b: &Option<ItemKind>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => ieq(a, b), _ => false };
        let got = x.value();
        must!(same(&got, &want), "value: got {:?}, expected {:?}", got, want);
        let mut s = pre(c); let k = s.items.len(); x.put_snapshot(&mut s, false);
        must!(s.items.len() == k + want.is_some() as usize && (want.is_none() || (s.items[k].0 == "n" && ieq(&s.items[k].1, want.as_ref().unwrap()))), "snapshot: got {:?}, expected {:?}", s.items, want);
    }
}
pub const CONTRACTS20: &[Contract] = &[("display", display)];

fn last_occurrence(c: &mut Case) {
    let zero = c.rng.bool();
    let mut x = LastOccurrenceTracker::new("n");
    if c.rng.bool() { x = x.make_none_zero(zero) } else { x.set_make_none_zero(zero) }
    if c.rng.bool() { x.set_invert_enabled(c.rng.bool()) }
    c.log(format!("make_none_zero {}", zero));
    let mut last: Option<i64> = None;
    for _ in 0..1 + c.rng.usize(c.size) {
        let s = match c.rng.below(5) { 0 => 1_000_000_000, 1 => 999_999_999, 2 => c.rng.below(100_000_000_000), 3 => 1_000_000_000 * c.rng.below(1000), _ => c.rng.below(1_000_000_000) };
        clock::adv(s); c.log(format!("+{}ns", s));
        if c.rng.chance(40) { let u = update(&mut c.rng); c.log(format!("{:?}", u)); must_eq!(x.update(&u), 1, "updated instruments"); last = Some(clock::now_ns()); }
        let want = match last { Some(l) => Some((clock::now_ns() - l) as u64 / 1_000_000_000), None => if zero { Some(0) } else { None } };
        let mut s = pre(c); let k = s.items.len(); x.put_snapshot(&mut s, false);
        let got = match s.items.get(k) { None => None, Some((n, v)) => { must_eq!(n, "n", "name"); match v { ItemKind::UInt(v) => Some(*v), ItemKind::Int(v) => Some(*v as u64), x => panic!("{:?}", x) } } };
        must_eq!(got, want, "seconds since the last occurrence"); must!(s.items.len() <= k + 1, "more than one item");
        let t = Instant::now(); let _ = t;
    }
}
pub const CONTRACTS21: &[Contract] = &[("last_occurrence", last_occurrence)];
