// ---- appending to a snapshot ----
/// `post` is `pre` followed by descriptive items (none unless descriptive output was requested) followed by `vals`
pub open spec fn shows(pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>, vals: Seq<(String, ItemKind)>, descriptive: bool) -> bool {
    exists|d: Seq<(String, ItemKind)>| post == #[trigger] (pre + d) + vals && (!descriptive ==> d.len() == 0)
}
/// only descriptive items were appended, and none unless requested
pub open spec fn describes(pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>, descriptive: bool) -> bool {
    exists|d: Seq<(String, ItemKind)>| post == #[trigger] (pre + d) && (!descriptive ==> d.len() == 0)
}
//@if C24
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@include puts.inc
pub open spec fn desc<T: Descriptive>(what: &T, n: Seq<char>, pre: Items, d: bool) -> Items { described(pre, "_"@ + n, what.t(), what.de(), d) }
//@else
/// the descriptive items: decided by C24
pub uninterp spec fn vx_descriptives<T>(what: &T, postfix: Seq<char>, pre: Seq<(String, ItemKind)>, descriptive: bool) -> Seq<(String, ItemKind)>;
#[verifier::external_body]
pub fn put_postfixed_descriptives<T>(what: &T, postfix: &str, into: &mut Snapshot, descriptive: bool)
    ensures describes(old(into).items@, final(into).items@, descriptive), final(into).items@ == old(into).items@ + vx_descriptives(what, postfix@, old(into).items@, descriptive), !descriptive ==> vx_descriptives(what, postfix@, old(into).items@, descriptive).len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn put_default_descriptives<T>(what: &T, into: &mut Snapshot, descriptive: bool)
    ensures describes(old(into).items@, final(into).items@, descriptive), final(into).items@ == old(into).items@ + vx_descriptives(what, Seq::empty(), old(into).items@, descriptive), !descriptive ==> vx_descriptives(what, Seq::empty(), old(into).items@, descriptive).len() == 0
{ unimplemented!() }
pub trait Descriptive {}
impl<T> Descriptive for T {}
pub open spec fn desc<T>(what: &T, n: Seq<char>, pre: Seq<(String, ItemKind)>, d: bool) -> Seq<(String, ItemKind)> { pre + vx_descriptives(what, n, pre, d) }
//@fi
//@include adds.inc
//@owner C24
//@impl src/snapshot.rs Snapshot : Default
//@ header impl Snapshot
//@ fn default
    ensures r.items@ == Seq::<(String, ItemKind)>::empty(),
//@end
//@impl src/snapshot.rs Snapshot
//@ header impl Snapshot
//@ fn push
    requires call_requires(<K as Into<String>>::into, ($1,)), call_requires(<V as Into<ItemKind>>::into, ($2,)),
    ensures exists|n: String, i: ItemKind| #[trigger] call_ensures(<K as Into<String>>::into, ($1,), n) && #[trigger] call_ensures(<V as Into<ItemKind>>::into, ($2,), i) && final(self).items@ == old(self).items@.push((n, i)),
//@end
//@owner -
