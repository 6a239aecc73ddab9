#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@item src/snapshot.rs struct JsonConfig
//@indexassign vx_json_put
// ---- the json crate (dependency; contracts assumed) ----
/// A JSON document; objects map keys to documents (a later assignment to a key replaces the earlier one).
pub enum J { Text(Seq<char>), Bool(bool), Int(int), Flt(f64), Obj(Map<Seq<char>, J>) }
#[verifier::external_body]
pub struct JsonValue { x: u8 }
#[verifier::external_body]
pub struct Number { x: u8 }
impl JsonValue {
    pub uninterp spec fn j(&self) -> J;
    pub uninterp spec fn of(j: J) -> JsonValue;
    #[verifier::external_body] pub fn new_object() -> (r: JsonValue) ensures r.j() == J::Obj(Map::empty()) { unimplemented!() }
}
pub uninterp spec fn vx_number(p: bool, m: u64, e: i16) -> J;
pub axiom fn ax_json() ensures
    forall|j: J| (#[trigger] JsonValue::of(j)).j() == j,
    forall|p: bool, m: u64| (p || m > 0) ==> #[trigger] vx_number(p, m, 0) == J::Int(if p { m as int } else { -(m as int) });
//@fnstart proof { ax_json(); }
impl Number {
    pub uninterp spec fn j(&self) -> J;
    #[verifier::external_body] pub fn from_parts(p: bool, m: u64, e: i16) -> (r: Number) ensures r.j() == vx_number(p, m, e) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_json_put(d: &mut JsonValue, k: &String, v: JsonValue)
    requires old(d).j() is Obj,
    ensures old(d).j() matches J::Obj(m) && final(d).j() == J::Obj(m.insert(k@, v.j()))
{ unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<String> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { JsonValue::of(J::Text(v@)) } }
impl From<String> for JsonValue { #[verifier::external_body] fn from(v: String) -> JsonValue { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<bool> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { JsonValue::of(J::Bool(v)) } }
impl From<bool> for JsonValue { #[verifier::external_body] fn from(v: bool) -> JsonValue { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<f64> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { JsonValue::of(J::Flt(v)) } }
impl From<f64> for JsonValue { #[verifier::external_body] fn from(v: f64) -> JsonValue { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> Self { JsonValue::of(J::Int(v as int)) } }
impl From<u64> for JsonValue { #[verifier::external_body] fn from(v: u64) -> JsonValue { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<i32> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Self { JsonValue::of(J::Int(v as int)) } }
impl From<i32> for JsonValue { #[verifier::external_body] fn from(v: i32) -> JsonValue { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Number> for JsonValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Number) -> Self { JsonValue::of(v.j()) } }
impl From<Number> for JsonValue { #[verifier::external_body] fn from(v: Number) -> JsonValue { unimplemented!() } }
pub uninterp spec fn vx_compact(j: J) -> Seq<char>;
pub uninterp spec fn vx_pretty(j: J, indent: u16) -> Seq<char>;
#[verifier::external_body] pub fn stringify(v: JsonValue) -> (r: String) ensures r@ == vx_compact(v.j()) { unimplemented!() }
#[verifier::external_body] pub fn stringify_pretty(v: JsonValue, indent: u16) -> (r: String) ensures r@ == vx_pretty(v.j(), indent) { unimplemented!() }

// ---- the document a snapshot must become ----
pub open spec fn jitem(i: ItemKind, ints: bool) -> J
    decreases i
{
    match i {
        ItemKind::Text(v) => J::Text(v@),
        ItemKind::Boolean(v) => if ints { J::Int(if v { 1 } else { 0 }) } else { J::Bool(v) },
        ItemKind::Float(v) => J::Flt(v),
        ItemKind::UInt(v) => J::Int(v as int),
        ItemKind::Int(v) => J::Int(v as int),
        ItemKind::Snapshot(s) => J::Obj(jitems(s, ints, s.items@.len())),
    }
}
pub open spec fn jitems(s: Snapshot, ints: bool, n: nat) -> Map<Seq<char>, J>
    decreases s, n
{
    if n == 0 || n > s.items@.len() { Map::empty() } else {
        let x = s.items@[n - 1];
        if decreases_to!(s => x.1) { jitems(s, ints, (n - 1) as nat).insert(x.0@, jitem(x.1, ints)) } else { arbitrary() }
    }
}
pub proof fn lemma_h(s: Snapshot, i: int) requires 0 <= i < s.items@.len() ensures decreases_to!(s => s.items@[i].1) {
    broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
    assert(decreases_to!(s => s.items));
    assert(decreases_to!(s.items => s.items@[i]));
}
/// exactly the item names of the snapshot are keys
pub proof fn lemma_keys(s: Snapshot, ints: bool, n: nat)
    requires n <= s.items@.len()
    ensures forall|k: Seq<char>| #[trigger] jitems(s, ints, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] s.items@[i].0@ == k
    decreases n
{
    if n > 0 {
        lemma_h(s, n - 1);
        lemma_keys(s, ints, (n - 1) as nat);
        assert forall|k: Seq<char>| #[trigger] jitems(s, ints, n).dom().contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] s.items@[i].0@ == k by {
            let m = jitems(s, ints, (n - 1) as nat);
            let x = s.items@[n - 1];
            assert(jitems(s, ints, n) == m.insert(x.0@, jitem(x.1, ints)));
            if k == x.0@ { assert(s.items@[n - 1].0@ == k); }
            else if m.dom().contains(k) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s.items@[i].0@ == k; assert(s.items@[i].0@ == k); }
            if exists|i: int| 0 <= i < n && #[trigger] s.items@[i].0@ == k { let i = choose|i: int| 0 <= i < n && #[trigger] s.items@[i].0@ == k; if i < n - 1 { assert(m.dom().contains(k)); } }
        }
    }
}
/// an item whose name does not occur again is rendered under its name
pub proof fn lemma_value(s: Snapshot, ints: bool, n: nat, i: int)
    requires 0 <= i < n <= s.items@.len(), forall|j: int| i < j < n ==> (#[trigger] s.items@[j]).0@ != s.items@[i].0@
    ensures jitems(s, ints, n)[s.items@[i].0@] == jitem(s.items@[i].1, ints)
    decreases n
{
    lemma_h(s, n - 1);
    if i < n - 1 { lemma_value(s, ints, (n - 1) as nat, i); }
}
//@impl src/snapshot.rs JsonConfig : Default
//@ header impl JsonConfig
//@ fn default
    ensures !r.make_booleans_ints, r.pretty is None,
//@end
//@impl src/snapshot.rs ItemKind
//@ fn to_json_value
    ensures r.j() == jitem(*self, $1.make_booleans_ints),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@end
//@impl src/snapshot.rs Snapshot
//@ fn to_json_value
    ensures r.j() == J::Obj(jitems(*self, $1.make_booleans_ints, self.items@.len())),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant $it.seq().len() == self.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.items@[j], $m0~data.j() == J::Obj(jitems(*self, $1.make_booleans_ints, $it.index() as nat)),
//@ loop 0 start
    proof { lemma_h(*self, $it.index()); }
//@ fn to_json_internal
    ensures r@ == (match $1.pretty { Some(i) => vx_pretty(J::Obj(jitems(*self, $1.make_booleans_ints, self.items@.len())), i), None => vx_compact(J::Obj(jitems(*self, $1.make_booleans_ints, self.items@.len()))) }),
//@ fn to_json
    ensures r@ == (match $1.pretty { Some(i) => vx_pretty(J::Obj(jitems(*self, $1.make_booleans_ints, self.items@.len())), i), None => vx_compact(J::Obj(jitems(*self, $1.make_booleans_ints, self.items@.len()))) }),
//@ fn to_default_json
    ensures r@ == vx_compact(J::Obj(jitems(*self, false, self.items@.len()))),
//@end
} // verus!
fn main() {}
