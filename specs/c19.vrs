#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include snap.inc
//@include switch.inc
//@owner C19
//@item src/instruments/switches/flag.rs struct Flag
/// the boolean state an update describes, if any
pub open spec fn as_bool(u: Update) -> Option<bool> { match u {
    Update::ObservationWithValue(ObservedValue::Bool(b), _) => Some(b),
    Update::ObservationWithValue(ObservedValue::SignedInteger(v), _) => Some(v != 0),
    Update::ObservationWithValue(ObservedValue::UnsignedInteger(v), _) => Some(v != 0),
    _ => None } }
//@impl src/instruments/switches/flag.rs Flag
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.state is None, r.show_inverted is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_state
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.state == Some($2), r.show_inverted is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn state
    ensures r == (Flag { state: Some($1), ..self }),
//@ fn get_state
    ensures r == self.state,
//@ fn set_show_inverted
    ensures *final(self) == (Flag { show_inverted: Some($1), ..*old(self) }),
//@ fn show_inverted
    ensures r == (Flag { show_inverted: Some($1), ..self }),
//@ fn set_show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (Flag { show_inverted: Some(NameAlternation::Prefix(s)), ..*old(self) }),
//@ fn show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (Flag { show_inverted: Some(NameAlternation::Prefix(s)), ..self }),
//@ fn set_show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (Flag { show_inverted: Some(NameAlternation::Postfix(s)), ..*old(self) }),
//@ fn show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (Flag { show_inverted: Some(NameAlternation::Postfix(s)), ..self }),
//@ fn set_show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (Flag { show_inverted: Some(NameAlternation::Rename(s)), ..*old(self) }),
//@ fn show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (Flag { show_inverted: Some(NameAlternation::Rename(s)), ..self }),
//@end
//@impl src/instruments/switches/flag.rs Flag : Updates
//@ header impl Flag
//@ fn update
    ensures final(self).state == (if as_bool(*$1) is Some { as_bool(*$1) } else { old(self).state }), r == (if as_bool(*$1) is Some { 1usize } else { 0 }), *final(self) == (Flag { state: final(self).state, ..*old(self) }),
//@end
//@if C24
//@impl src/instruments/switches/flag.rs Flag : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/switches/flag.rs Flag : PutsSnapshot
//@ header impl Flag
//@ owner C19 C24
//@ fn put_snapshot
    ensures displays(self, self.name@, old($1).items@, final($1).items@, match self.state { Some(s) => switch_items(self.name@, self.show_inverted, s), None => seq![] }, $2),
//@ start
    proof { ax_cow(); }
//@end
// ---- the property over a whole history ----
/// the latest boolean state described by the first n updates, or the initial state
pub open spec fn latest(init: Option<bool>, us: Seq<Update>, n: int) -> Option<bool> decreases n { if n <= 0 { init } else if as_bool(us[n - 1]) is Some { as_bool(us[n - 1]) } else { latest(init, us, n - 1) } }
pub proof fn lemma_history(st: Seq<Flag>, us: Seq<Update>, n: int)
    requires st.len() == us.len() + 1, 0 <= n <= us.len(), forall|i: int| 0 <= i < us.len() ==> (#[trigger] st[i + 1]).state == (if as_bool(us[i]) is Some { as_bool(us[i]) } else { st[i].state })
    ensures st[n].state == latest(st[0].state, us, n)
    decreases n
{ if n > 0 { lemma_history(st, us, n - 1); assert(st[n - 1 + 1].state == st[n].state); } }
//@owner -
//@include set_flag.inc
} // verus!
fn main() {}
