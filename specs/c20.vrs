#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include snap.inc
//@include switch.inc
#[verifier::external_body]
pub fn vx_clone_item(u: &ItemKind) -> (r: ItemKind) ensures r == *u { unimplemented!() }
impl Clone for ItemKind { fn clone(&self) -> (r: Self) ensures r == *self { vx_clone_item(self) } }
//@owner C20
//@item src/instruments/other_instruments/display.rs struct DataDisplay
/// how a value is displayed, if at all
pub open spec fn displayed(v: ObservedValue) -> Option<ItemKind> { match v {
    ObservedValue::SignedInteger(x) => Some(ItemKind::Int(x)),
    ObservedValue::UnsignedInteger(x) => Some(ItemKind::UInt(x)),
    ObservedValue::Float(x) => Some(ItemKind::Float(x)),
    ObservedValue::Bool(x) => Some(ItemKind::Boolean(x)),
    ObservedValue::Duration(..) => None,
    ObservedValue::ChangedBy(_) => None } }
pub open spec fn displayed_u(u: Update) -> Option<ItemKind> { match u { Update::ObservationWithValue(v, _) => displayed(v), _ => None } }
//@impl src/observation.rs ObservedValue
//@ fn to_item_kind
    ensures r == displayed(*self),
//@end
impl vstd::std_specs::convert::FromSpecImpl<ObservedValue> for Option<ItemKind> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: ObservedValue) -> Self { displayed(o) } }
//@impl src/snapshot.rs Option : From<ObservedValue>
//@ fn from
    ensures r == displayed($1),
//@end
//@impl src/instruments/mod.rs Update
//@ fn observed_value
    ensures match *self { Update::ObservationWithValue(v, _) => r == Some(&v), _ => r is None },
//@end
impl DataDisplay {
    /// the value shown at a time
    pub open spec fn shown(self, now: Instant) -> Option<ItemKind> { match self.stay_on_until { Some(t) => if now.ns() <= t.ns() { self.value } else { self.reset_value }, None => self.value } }
}
//@impl src/instruments/other_instruments/display.rs DataDisplay
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.value is None, r.reset_value is None, r.reset_after is None, r.stay_on_until is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.value is None, r.reset_value is None, r.reset_after is None, r.stay_on_until is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn set_reset_after
    ensures *final(self) == (DataDisplay { reset_after: Some($1), ..*old(self) }),
//@ fn reset_after
    ensures r == (DataDisplay { reset_after: Some($1), ..self }),
//@ fn get_reset_after
    ensures r == self.reset_after,
//@ fn set_reset_value
    requires call_requires(<T as Into<ItemKind>>::into, ($1,)),
    ensures exists|x: ItemKind| #[trigger] call_ensures(<T as Into<ItemKind>>::into, ($1,), x) && *final(self) == (DataDisplay { value: Some(x), reset_value: Some(x), ..*old(self) }),
//@ fn reset_value
    requires call_requires(<T as Into<ItemKind>>::into, ($1,)),
    ensures exists|x: ItemKind| #[trigger] call_ensures(<T as Into<ItemKind>>::into, ($1,), x) && r == (DataDisplay { value: Some(x), reset_value: Some(x), ..self }),
//@ fn value
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && r == self.shown(t),
//@ start
    proof { ax_some_now(); }
//@end
//@impl src/instruments/other_instruments/display.rs DataDisplay : Updates
//@ header impl DataDisplay
//@ fn update
    ensures r == (if displayed_u(*$1) is Some { 1usize } else { 0 }),
        match displayed_u(*$1) {
            None => *final(self) == *old(self),
            Some(v) => *final(self) == (DataDisplay { value: Some(v), stay_on_until: final(self).stay_on_until, ..*old(self) }) && match old(self).reset_after {
                None => final(self).stay_on_until == old(self).stay_on_until,
                Some(d) => exists|t: Instant| #[trigger] vx_is_now(t) && final(self).stay_on_until == Some(vx_instant(t.ns() + d.ns())) } },
//@end
//@if C24
//@impl src/instruments/other_instruments/display.rs DataDisplay : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/other_instruments/display.rs DataDisplay : PutsSnapshot
//@ header impl DataDisplay
//@ owner C20 C24
//@ fn put_snapshot
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && displays(self, self.name@, old($1).items@, final($1).items@, match self.shown(t) { Some(v) => seq![(self.name@, v)], None => seq![] }, $2),
//@ start
//@end
//@owner -
//@include set_display.inc
//@owner C20
//@impl src/instruments/other_instruments/display.rs DataDisplay
//@ fn get_reset_value
    ensures match (r, self.reset_value) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false },
//@end
//@owner -
} // verus!
fn main() {}
