//! C01: label filters accept exactly the configured labels.
use crate::*;
use metrix::instruments::*;

type T = u16;

struct Model { all: bool, set: Vec<T>, pred: Option<(T, T)> }
impl Model { fn acc(&self, l: T) -> bool { self.all || self.set.contains(&l) || self.pred.map(|(m, r)| l % m == r).unwrap_or(false) } }

fn check(f: &LabelFilter<T>, m: &Model, dom: u16, when: &str) {
    for l in 0..dom { must_eq!(f.accepts(&l), m.acc(l), "accepts({}) {}", l, when); }
}

fn filter(c: &mut Case) {
    // mostly a small domain, so that duplicates are likely; now and then a large filter
    let large = c.rng.chance(4);
    let dom: u16 = if large { 300 } else { 12 };
    let r = &mut c.rng;
    let mut x = || r.below(dom as u64) as T;
    let (a, b, cc, d, e) = (x(), x(), x(), x(), x());
    let (m, rm) = (1 + x() % 5, x() % 5);
    let kind = r.below(16);
    let n = r.usize(if large { 150 } else { 9 });
    let many: Vec<T> = (0..n).map(|_| r.below(dom as u64) as T).collect();
    let (f, model, what): (LabelFilter<T>, Model, String) = match kind {
        0 => (LabelFilter::new(a), Model { all: false, set: vec![a], pred: None }, format!("new({})", a)),
        1 => (LabelFilter::accept_all(), Model { all: true, set: vec![], pred: None }, "accept_all".into()),
        2 => (LabelFilter::accept_none(), Model { all: false, set: vec![], pred: None }, "accept_none".into()),
        3 => (LabelFilter::default(), Model { all: true, set: vec![], pred: None }, "default".into()),
        4 => (a.into(), Model { all: false, set: vec![a], pred: None }, format!("from({})", a)),
        5 => ((a, b).into(), Model { all: false, set: vec![a, b], pred: None }, format!("from(({},{}))", a, b)),
        6 => ((a, b, cc).into(), Model { all: false, set: vec![a, b, cc], pred: None }, format!("from(({},{},{}))", a, b, cc)),
        7 => ((a, b, cc, d).into(), Model { all: false, set: vec![a, b, cc, d], pred: None }, format!("from(({},{},{},{}))", a, b, cc, d)),
        8 => ((a, b, cc, d, e).into(), Model { all: false, set: vec![a, b, cc, d, e], pred: None }, format!("from(({},{},{},{},{}))", a, b, cc, d, e)),
        9 | 15 => (many.clone().into(), Model { all: false, set: many.clone(), pred: None }, format!("from(vec {:?})", many)),
        10 => (LabelFilter::predicate(move |l| *l % m == rm), Model { all: false, set: vec![], pred: Some((m, rm)) }, format!("predicate(l%{}=={})", m, rm)),
        11 => (LabelPredicate(move |l: &T| *l % m == rm).into(), Model { all: false, set: vec![], pred: Some((m, rm)) }, format!("LabelPredicate(l%{}=={})", m, rm)),
        12 => (AcceptAllLabels.into(), Model { all: true, set: vec![], pred: None }, "AcceptAllLabels".into()),
        13 => (AcceptNoLabel.into(), Model { all: false, set: vec![], pred: None }, "AcceptNoLabel".into()),
        _ => (AcceptOneLabel(a).into(), Model { all: false, set: vec![a], pred: None }, format!("AcceptOneLabel({})", a)),
    };
    let (mut f, mut model) = (f, model);
    c.log(what);
    check(&f, &model, dom, "initially");
    let k = c.rng.usize(if large { 130 } else { 10.min(c.size) + 1 });
    for i in 0..k {
        // duplicates are likely: the domain is small
        let l = c.rng.below(dom as u64) as T;
        c.log(format!("accept_another({})", l));
        f.accept_another(l);
        model.set.push(l);
        if !large || i + 1 == k { check(&f, &model, dom, &format!("after {} additions", i + 1)); }
    }
}

/// Labels whose equality is not structural identity.
#[derive(Debug, Clone)]
struct Mod(u16);
impl PartialEq for Mod { fn eq(&self, o: &Mod) -> bool { self.0 % 8 == o.0 % 8 } }
impl Eq for Mod {}

fn custom_eq(c: &mut Case) {
    let top = if c.rng.chance(3) { 120 } else { 8 };
    let n = c.rng.usize(top);
    let mut set: Vec<u16> = vec![];
    let mut f: LabelFilter<Mod> = LabelFilter::accept_none();
    for _ in 0..n { let l = c.rng.below(40) as u16; c.log(format!("accept_another({})", l)); f.accept_another(Mod(l)); set.push(l % 8); }
    for l in 0..40u16 { must_eq!(f.accepts(&Mod(l)), set.contains(&(l % 8)), "accepts({})", l); }
}

pub const CONTRACTS: &[Contract] = &[("filter", filter), ("custom_eq", custom_eq)];
