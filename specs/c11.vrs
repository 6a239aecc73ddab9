#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@item src/snapshot.rs enum FindItem
//@item src/snapshot.rs enum FindDurationItem

//@if C11
// ---- what a lookup yields ----
/// index of the first item with the name
pub open spec fn first_named(items: Seq<(String, ItemKind)>, n: Seq<char>) -> int
    decreases items.len()
{
    if items.len() == 0 { 0 } else if items[0].0@ == n { 0 } else { 1 + first_named(items.drop_first(), n) }
}
/// the item reached by following the path; None: not found
pub open spec fn walk(item: ItemKind, p: Seq<Seq<char>>) -> Option<ItemKind>
    decreases p.len()
{
    if p.len() == 0 { Some(item) }
    else if p[0].len() == 0 { walk(item, p.drop_first()) }
    else { match item {
        ItemKind::Snapshot(s) => { let i = first_named(s.items@, p[0]); if i < s.items@.len() { walk(s.items@[i].1, p.drop_first()) } else { None } },
        other => Some(other),
    } }
}
pub open spec fn nonempty(p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else if p.last().len() == 0 { nonempty(p.drop_last()) } else { nonempty(p.drop_last()).push(p.last()) }
}
/// str::split by a separator character (std)
pub uninterp spec fn vx_split_spec(s: Seq<char>, sep: char) -> Seq<Seq<char>>;
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn asrefs<T>(v: Seq<T>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| vx_asref_spec(&v[i])) }
pub axiom fn ax_asref_str() ensures forall|s: &&str| #[trigger] vx_asref_spec::<&str>(s) == (*s)@;
#[verifier::external_body]
pub fn vx_split<'a>(s: &'a str, sep: char) -> (r: Vec<&'a str>) ensures views(r@) == vx_split_spec(s@, sep) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tail<T>(s: &[T]) -> (r: &[T]) requires s@.len() > 0 ensures r@ == s@.drop_first() { unimplemented!() }

proof fn lemma_first(items: Seq<(String, ItemKind)>, n: Seq<char>, i: int)
    requires 0 <= i <= items.len(), forall|j: int| 0 <= j < i ==> (#[trigger] items[j]).0@ != n, i < items.len() ==> items[i].0@ == n
    ensures first_named(items, n) == i
    decreases items.len()
{
    if items.len() > 0 && i > 0 {
        let t = items.drop_first();
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j]).0@ != n by { assert(t[j] == items[j + 1]); }
        if i < items.len() { assert(t[i - 1] == items[i]); }
        lemma_first(t, n, i - 1);
    }
}
proof fn lemma_nonempty_all(p: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < nonempty(p).len() ==> (#[trigger] nonempty(p)[i]).len() > 0
    decreases p.len()
{
    if p.len() > 0 {
        lemma_nonempty_all(p.drop_last());
        let q = nonempty(p.drop_last());
        assert forall|i: int| 0 <= i < nonempty(p).len() implies (#[trigger] nonempty(p)[i]).len() > 0 by { if i < q.len() { assert(nonempty(p)[i] == q[i]); } }
    }
}
/// dropping the empty segments first gives the same result
pub proof fn lemma_walk_ignores_empty(item: ItemKind, p: Seq<Seq<char>>, q: Seq<Seq<char>>)
    ensures walk(item, p + q) == walk(item, nonempty(p) + q)
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); assert(nonempty(p) + q =~= q); }
    else if p.last().len() == 0 {
        let e = seq![p.last()];
        assert(p + q =~= p.drop_last() + (e + q));
        lemma_walk_ignores_empty(item, p.drop_last(), e + q);
        lemma_skip(item, nonempty(p.drop_last()), e + q);
        assert((e + q).drop_first() =~= q);
    } else {
        let e = seq![p.last()];
        assert(p + q =~= p.drop_last() + (e + q));
        lemma_walk_ignores_empty(item, p.drop_last(), e + q);
        assert(nonempty(p) + q =~= nonempty(p.drop_last()) + (e + q));
    }
}
proof fn lemma_skip(item: ItemKind, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires b.len() > 0, b[0].len() == 0
    ensures walk(item, a + b) == walk(item, a + b.drop_first())
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + b.drop_first() =~= b.drop_first()); }
    else {
        let x = a + b; let y = a + b.drop_first();
        assert(x[0] == a[0] && y[0] == a[0]);
        assert(x.drop_first() =~= a.drop_first() + b);
        assert(y.drop_first() =~= a.drop_first() + b.drop_first());
        if a[0].len() == 0 { lemma_skip(item, a.drop_first(), b); }
        else { match item { ItemKind::Snapshot(s) => { let i = first_named(s.items@, a[0]); if i < s.items@.len() { lemma_skip(s.items@[i].1, a.drop_first(), b); } }, _ => {} } }
    }
}
pub open spec fn found(r: FindItem, w: Option<ItemKind>) -> bool {
    match w { Some(i) => r matches FindItem::Found(x) && *x == i, None => r is NotFound }
}
pub open spec fn snapshot_lookup(s: Snapshot, path: Seq<char>, sep: char) -> Option<ItemKind> {
    let p = nonempty(vx_split_spec(path, sep));
    if p.len() == 0 { None } else { walk(ItemKind::Snapshot(s), p) }
}
pub open spec fn hit(f: Option<&(String, ItemKind)>, items: Seq<(String, ItemKind)>, n: Seq<char>) -> bool {
    match f { Some(x) => exists|j: int| 0 <= j < items.len() && *x == items[j] && first_named(items, n) == j, None => first_named(items, n) == items.len() }
}
pub open spec fn unset(f: Option<&(String, ItemKind)>) -> bool { f is None }
//@fn src/snapshot.rs find_item
    ensures found(r, walk(*$1, asrefs($2@))),
    decreases $2.len(),
//@ start
    let ghost __p = asrefs($2@);
    proof { assert($2@.len() > 0 ==> asrefs($2@.drop_first()) =~= __p.drop_first()); }
//@ flag substs_optional
//@ subst __a.as_ref() => __a.vx_as_ref()
//@ subst &$2[1..] => vx_tail($2)
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    @made invariant_except_break unset($f), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $i1~snapshot.items@[j]).0@ != __p[0],
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $i1~snapshot.items@[j]).0@ != __p[0],
    $it.seq().len() == $i1~snapshot.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $i1~snapshot.items@[j], __p == asrefs($2@), $2@.len() > 0,
    @made ensures !unset($f) ==> hit($f, $i1~snapshot.items@, __p[0]), unset($f) ==> forall|j: int| 0 <= j < $i1~snapshot.items@.len() ==> (#[trigger] $i1~snapshot.items@[j]).0@ != __p[0],
//@ loop 0 end
    @made proof { lemma_first($i1~snapshot.items@, __p[0], $it.index()); }
//@ loop 0 start
    @plain proof { if $i1~snapshot.items@[$it.index() as int].0@ == __p[0] { lemma_first($i1~snapshot.items@, __p[0], $it.index() as int); }  }
//@ loop 0 after
    @made proof { if unset($f) { lemma_first($i1~snapshot.items@, __p[0], $i1~snapshot.items@.len() as int); } }
    @plain proof { lemma_first($i1~snapshot.items@, __p[0], $i1~snapshot.items@.len() as int); }
//@end
//@impl src/snapshot.rs Snapshot
//@ fn find_with_separator
    ensures found(r, snapshot_lookup(*self, $1@, $2)),
//@ start
    let ghost __p = vx_split_spec($1@, $2);
//@ flag substs_optional
//@ subst $1.split($2) => vx_split($1, $2)
//@ subst &$n0~path[1..] => vx_tail($n0~path.as_slice())
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant views($it.seq()) == __p, views($f@) == nonempty(__p.take($it.index())),
//@ loop 0 start
    let ghost __f = $f@;
//@ loop 0 end
    proof {
        let i = $it.index();
        assert(__p.take(i + 1).drop_last() =~= __p.take(i));
        assert(__p.take(i + 1).last() == $x@);
        if $x@.len() > 0 { assert(views($f@) =~= views(__f).push($x@)); }
    }
//@ loop 0 after
    proof { assert(__p.take(__p.len() as int) =~= __p); lemma_nonempty_all(__p); }
//@ loop 1 before
    let ghost __q = views($n0~path@);
//@ loop 1
    @made invariant_except_break unset($f), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] self.items@[j]).0@ != __q[0],
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] self.items@[j]).0@ != __q[0],
    $it.seq().len() == self.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.items@[j], __q == views($n0~path@), $n0~path@.len() > 0,
    @made ensures !unset($f) ==> hit($f, self.items@, __q[0]), unset($f) ==> forall|j: int| 0 <= j < self.items@.len() ==> (#[trigger] self.items@[j]).0@ != __q[0],
//@ loop 1 end
    @made proof { lemma_first(self.items@, __q[0], $it.index()); }
//@ loop 1 start
    @plain proof { if self.items@[$it.index() as int].0@ == __q[0] { lemma_first(self.items@, __q[0], $it.index() as int); } ax_asref_str(); assert(asrefs($n0~path@.drop_first()) =~= __q.drop_first()); }
//@ loop 1 after
    proof {
        @made if unset($f) { lemma_first(self.items@, __q[0], self.items@.len() as int); }
        @plain lemma_first(self.items@, __q[0], self.items@.len() as int);
        ax_asref_str();
        assert(asrefs($n0~path@.drop_first()) =~= __q.drop_first());
    }
//@ fn find
    ensures found(r, snapshot_lookup(*self, $1@, '/')),
//@end
//@impl src/snapshot.rs FindItem
//@ fn opt
    ensures match *self { FindItem::Found(i) => r == Some(i), FindItem::NotFound => r is None },
//@ fn find_with_separator
    ensures found(r, match *self { FindItem::Found(ItemKind::Snapshot(s)) => snapshot_lookup(*s, $1@, $2), _ => None }),
//@ fn find
    ensures found(r, match *self { FindItem::Found(ItemKind::Snapshot(s)) => snapshot_lookup(*s, $1@, '/'), _ => None }),
//@end
//@fi
//@if C27
pub open spec fn num_of(f: FindItem) -> Option<int> {
    match f { FindItem::Found(ItemKind::UInt(v)) => Some(*v as int), FindItem::Found(ItemKind::Int(v)) => if *v >= 0 { Some(*v as int) } else { None }, _ => None }
}
pub open spec fn dur_ok(f: FindItem, r: FindDurationItem, unit_ns: int) -> bool {
    match f {
        FindItem::NotFound => r is NotFound,
        _ => match num_of(f) { Some(v) => r matches FindDurationItem::Duration(d) && d.ns() == v * unit_ns, None => r is NotADuration },
    }
}
//@impl src/snapshot.rs FindItem
//@ fn to_duration_nanoseconds
    ensures dur_ok(*self, r, 1),
//@ fn to_duration_microseconds
    ensures dur_ok(*self, r, 1_000),
//@ fn to_duration_milliseconds
    ensures dur_ok(*self, r, 1_000_000),
//@ fn to_duration_seconds
    ensures dur_ok(*self, r, 1_000_000_000),
//@end
//@impl src/snapshot.rs FindDurationItem
//@ fn opt
    ensures r == (match self { FindDurationItem::Duration(d) => Some(d), _ => None }),
//@end
//@fi
} // verus!
fn main() {}
