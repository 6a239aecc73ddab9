#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include snap.inc
//@item src/instruments/counter.rs struct Counter
/// how many observations an update stands for
pub open spec fn stands_for(u: Update) -> int { match u { Update::Observations(n, _) => n as int, _ => 1 } }
//@owner C03
//@impl src/instruments/counter.rs Counter
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.count == 0, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.count == 0, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn inc
    requires old(self).count + 1 <= u64::MAX,
    ensures final(self).count == old(self).count + 1, final(self).name == old(self).name,
//@ fn inc_by
    requires old(self).count + $1 <= u64::MAX,
    ensures final(self).count == old(self).count + $1, final(self).name == old(self).name,
//@ fn get
    ensures r == self.count,
//@end
//@impl src/instruments/counter.rs Counter : Updates
//@ header impl Counter
//@ fn update
    requires old(self).count + stands_for(*$1) <= u64::MAX,
    ensures final(self).count == old(self).count + stands_for(*$1), r == 1, final(self).name == old(self).name,
//@end
//@if C24
//@impl src/instruments/counter.rs Counter : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/counter.rs Counter : PutsSnapshot
//@ header impl Counter
//@ owner C03 C24
//@ fn put_snapshot
    ensures adds(desc(self, self.name@, old($1).items@, $2), final($1).items@, seq![(self.name@, ItemKind::UInt(self.count))]),
//@end
//@owner -
//@include set_counter.inc
// ---- the property over a whole history ----
pub open spec fn total(us: Seq<Update>) -> int decreases us.len() { if us.len() == 0 { 0 } else { total(us.drop_last()) + stands_for(us.last()) } }
/// st[0] is the counter at the start, st[i + 1] the counter after update us[i] (the contract of `update`)
pub proof fn lemma_history(st: Seq<Counter>, us: Seq<Update>)
    requires st.len() == us.len() + 1, forall|i: int| 0 <= i < us.len() ==> (#[trigger] st[i + 1]).count == st[i].count + stands_for(us[i])
    ensures st.last().count == st[0].count + total(us)
    decreases us.len()
{ if us.len() > 0 { lemma_history(st.drop_last(), us.drop_last()); assert(st[us.len() - 1 + 1].count == st[us.len() - 1].count + stands_for(us[us.len() - 1])); } }
} // verus!
fn main() {}
