#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@include puts.inc
//@include snapfn.inc
impl Clone for ItemKind { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- adapters: exactly what their instrument puts ----
//@owner C24
//@item src/instruments/instrument_adapter.rs struct InstrumentAdapter ; #[verifier::reject_recursive_types(L)]
/// declaration of the crate's trait, of which only the snapshot side is of interest here
pub trait Instrument: PutsSnapshot {}
//@impl src/instruments/instrument_adapter.rs InstrumentAdapter : PutsSnapshot
//@ header impl<L: Send + 'static, I: Instrument> InstrumentAdapter<L, I>
//@ fn put_snapshot
    ensures I::puts(self.instrument, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@end
//@item src/instruments/gauge/gauge_adapter.rs enum GaugeUpdateStrategy ; #[verifier::reject_recursive_types(L)]
#[verifier::external_body] pub struct Gauge(u8);
impl PutsSnapshot for Gauge { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
//@item src/instruments/gauge/gauge_adapter.rs struct GaugeAdapter ; #[verifier::reject_recursive_types(L)]
//@impl src/instruments/gauge/gauge_adapter.rs GaugeAdapter : PutsSnapshot
//@ header impl<L: Send + 'static> GaugeAdapter<L>
//@ fn put_snapshot
    ensures Gauge::puts(self.gauge, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@end
// ---- polling instruments and constants ----
//@item src/instruments/polled.rs struct PollingInstrument
//@impl src/instruments/polled.rs PollingInstrument : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@impl src/instruments/polled.rs PollingInstrument
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.poll == $2, !r.create_group_with_name,
//@ fn get_name
    ensures r@ == self.name@,
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), final(self).name), *final(self) == (PollingInstrument { name: final(self).name, ..*old(self) }),
//@ fn create_group_with_name
    ensures r == self.create_group_with_name,
//@ fn set_create_group_with_name
    ensures *final(self) == (PollingInstrument { create_group_with_name: $1, ..*old(self) }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (PollingInstrument { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (PollingInstrument { description: final(self).description, ..*old(self) }),
//@ fn put_values_into_snapshot
    ensures P::puts(self.poll, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@end
pub open spec fn polled<P: PutsSnapshot>(x: PollingInstrument<P>, pre: Items, post: Items, d: bool) -> bool {
    let p = described(pre, "_"@ + x.name@, view_of(x.title), view_of(x.description), d);
    if x.create_group_with_name { exists|l: Snapshot| #[trigger] nested(p, post, x.name, l) && P::puts(x.poll, Seq::empty(), l.items@, d) } else { P::puts(x.poll, p, post, d) }
}
//@impl src/instruments/polled.rs PollingInstrument : PutsSnapshot
//@ header impl<P: PutsSnapshot> PollingInstrument<P>
//@ fn put_snapshot
    ensures polled(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ start
    let ghost vx_p = described(old($1).items@, "_"@ + self.name@, view_of(self.title), view_of(self.description), $2);
//@ endfn
    proof { ax_string(); if self.create_group_with_name { assert(nested(vx_p, $1.items@, self.name, $1.items@.last().1->Snapshot_0)); } }
//@end
//@item src/instruments/polled.rs struct ConstantValue
//@impl src/instruments/polled.rs ConstantValue : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@impl src/instruments/polled.rs ConstantValue : PutsSnapshot
//@ header impl ConstantValue
//@ fn put_snapshot
    ensures final($1).items@ == described(old($1).items@, "_"@ + self.name@, view_of(self.title), view_of(self.description), $2).push((self.name, self.value)), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); }
//@end
//@impl src/instruments/polled.rs ConstantValue
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)), call_requires(<V as Into<ItemKind>>::into, ($2,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), r.name), call_ensures(<V as Into<ItemKind>>::into, ($2,), r.value), r.title is None, r.description is None,
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), final(self).name), *final(self) == (ConstantValue { name: final(self).name, ..*old(self) }),
//@ fn get_name
    ensures r@ == self.name@,
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).title is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).title.unwrap()), *final(self) == (ConstantValue { title: final(self).title, ..*old(self) }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).description is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).description.unwrap()), *final(self) == (ConstantValue { description: final(self).description, ..*old(self) }),
//@end
//@owner -
} // verus!
fn main() {}
