#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include snap.inc
//@include switch.inc
//@owner C21
//@item src/instruments/other_instruments/last_occurrence_tracker.rs struct LastOccurrenceTracker
/// the number shown at a time: the whole seconds since the latest observation
pub open spec fn shown(x: LastOccurrenceTracker, now: Instant) -> Option<int> { match x.happened_last { Some(t) => Some((now.ns() - t.ns()) / 1_000_000_000), None => if x.make_none_zero { Some(0) } else { None } } }
pub open spec fn displays_num<T: Descriptive>(what: &T, n: Seq<char>, pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>, x: int, descriptive: bool) -> bool {
    let p = desc(what, n, pre, descriptive);
    post.len() == p.len() + 1 && (forall|i: int| 0 <= i < p.len() ==> post[i] == p[i]) && post.last().0@ == n && same_num(post.last().1, x)
}
//@if C24
pub open spec fn same_num(i: ItemKind, x: int) -> bool { true }
//@else
pub open spec fn same_num(i: ItemKind, x: int) -> bool { num(i) == x }
//@fi
pub open spec fn num(i: ItemKind) -> int { match i { ItemKind::UInt(n) => n as int, ItemKind::Int(n) => n as int, _ => -1 } }
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.happened_last is None, !r.make_none_zero, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.happened_last is None, !r.make_none_zero, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn set_invert_enabled
    ensures *final(self) == (LastOccurrenceTracker { invert: $1, ..*old(self) }),
//@ fn invert_enabled
    ensures r == (LastOccurrenceTracker { invert: $1, ..self }),
//@ fn inverted
    ensures r == (LastOccurrenceTracker { invert: true, ..self }),
//@ fn set_make_none_zero
    ensures *final(self) == (LastOccurrenceTracker { make_none_zero: $1, ..*old(self) }),
//@ fn make_none_zero
    ensures r == (LastOccurrenceTracker { make_none_zero: $1, ..self }),
//@ fn get_make_none_zero
    ensures r == self.make_none_zero,
//@ fn elapsed_since_last_occurrence
    requires forall|t: Instant| #[trigger] vx_is_now(t) && self.happened_last is Some ==> t.ns() >= self.happened_last.unwrap().ns(),
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && match self.happened_last { Some(l) => r is Some && r.unwrap() == (t.ns() - l.ns()) / 1_000_000_000, None => r is None },
//@ start
    proof { ax_some_now(); }
//@end
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker : Updates
//@ header impl LastOccurrenceTracker
//@ fn update
    ensures r == 1, final(self).happened_last is Some, vx_is_now(final(self).happened_last.unwrap()), *final(self) == (LastOccurrenceTracker { happened_last: final(self).happened_last, ..*old(self) }),
//@end
//@if C24
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker : PutsSnapshot
//@ header impl LastOccurrenceTracker
//@ owner C21 C24
//@ fn put_snapshot
    requires forall|t: Instant| #[trigger] vx_is_now(t) && self.happened_last is Some ==> t.ns() >= self.happened_last.unwrap().ns(),
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && match shown(*self, t) { Some(n) => displays_num(self, self.name@, old($1).items@, final($1).items@, n, $2), None => displays(self, self.name@, old($1).items@, final($1).items@, seq![], $2) },
//@ start
    proof { ax_some_now(); }
//@end
//@owner -
//@include set_tracker.inc
//@owner C21
//@impl src/instruments/other_instruments/last_occurrence_tracker.rs LastOccurrenceTracker
//@ fn is_inverted
    ensures r == self.invert,
//@end
//@owner -
} // verus!
fn main() {}
