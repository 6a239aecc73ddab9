//! C11: snapshot lookup follows the path.
use crate::{util::*, *};
use metrix::snapshot::*;

const NAMES: [&str; 7] = ["a", "b", "ab", "c", "", "a/b", "b.c"];
pub fn tree(r: &mut Rng, depth: usize, max: usize) -> Snapshot {
    let n = r.usize(max + 1);
    let mut s = Snapshot::default();
    for _ in 0..n {
        let name = r.pick(&NAMES).to_string();
        let v = if depth > 0 && r.chance(55) { ItemKind::Snapshot(tree(r, depth - 1, max)) } else { match r.below(5) { 0 => ItemKind::UInt(r.u64b()), 1 => ItemKind::Int(r.i64b()), 2 => ItemKind::Boolean(r.bool()), 3 => ItemKind::Float(r.range(-99, 99) as f64 / 4.0), _ => ItemKind::Text(format!("t{}", r.below(100))) } };
        s.items.push((name, v));
    }
    s
}
/// reference: Ok(None) = not found
fn walk<'a>(it: &'a ItemKind, segs: &[String]) -> Option<&'a ItemKind> {
    let mut cur = it;
    for s in segs { if s.is_empty() { continue; } match cur { ItemKind::Snapshot(x) => cur = get(x, s)?, _ => return Some(cur) } }
    Some(cur)
}
fn path(r: &mut Rng) -> Vec<String> { let n = r.usize(6); (0..n).map(|_| r.pick(&["a", "b", "ab", "c", "", "zz"]).to_string()).collect() }
fn same<'a>(g: &FindItem<'a>, w: Option<&'a ItemKind>) -> bool { match (g, w) { (FindItem::Found(a), Some(b)) => std::ptr::eq(*a, b), (FindItem::NotFound, None) => true, _ => false } }

fn find(c: &mut Case) {
    let s = tree(&mut c.rng, 3, 4);
    let k = ItemKind::Snapshot(s.clone());
    c.log(format!("{:?}", s));
    for _ in 0..8 {
        let p = path(&mut c.rng);
        let sep = *c.rng.pick(&['/', '.', '|', 'ß', '/']);
        let text = p.join(&sep.to_string());
        let all_empty = p.iter().all(|x| x.is_empty());
        c.log(format!("find {:?} with {:?}", text, sep));
        let root = ItemKind::Snapshot(s.clone());
        let rs = match &root { ItemKind::Snapshot(x) => x, _ => unreachable!() };
        let w = if all_empty { None } else { walk(&root, &p) };
        let g = rs.find_with_separator(&text, sep);
        must!(same(&g, w), "find_with_separator({:?}, {:?}): got {:?}, expected {:?}", text, sep, g, w);
        if sep == '/' { let g = rs.find(&text); must!(same(&g, w), "find({:?}): got {:?}, expected {:?}", text, g, w); }
        must_eq!(g.opt(), w, "opt");
        // find_item: an exhausted path yields the item itself
        let fw = walk(&k, &p);
        let g2 = find_item(&k, &p);
        must!(same(&g2, fw), "find_item({:?}): got {:?}, expected {:?}", p, g2, fw);
        // continue from the found item
        let q = path(&mut c.rng);
        let qt = q.join("/");
        let w2 = match w { Some(i @ ItemKind::Snapshot(_)) if !q.iter().all(|x| x.is_empty()) => walk(i, &q), _ => None };
        let h = g.find(&qt);
        must!(same(&h, w2), "{:?} then find({:?}): got {:?}, expected {:?}", text, qt, h, w2);
        let qt = q.join("%");
        let h = g.find_with_separator(&qt, '%');
        must!(same(&h, w2), "{:?} then find_with_separator({:?}): got {:?}, expected {:?}", text, qt, h, w2);
    }
}
pub const CONTRACTS: &[Contract] = &[("find", find)];
