#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include snap.inc
//@include switch.inc
//@owner C18
//@item src/instruments/switches/occurrence_indicator.rs struct OccurrenceIndicator
//@item src/instruments/switches/non_occurrence_indicator.rs struct NonOccurrenceIndicator
//@item src/instruments/switches/staircase_timer.rs struct StaircaseTimer
impl OccurrenceIndicator {
    /// on while less than the configured time has passed since the latest occurrence
    pub open spec fn on(self, now: Instant) -> bool { (now.ns() - self.happened_last.ns() < self.if_happened_within.ns()) != self.invert }
    pub open spec fn same(self, o: Self) -> bool { self == (OccurrenceIndicator { happened_last: self.happened_last, ..o }) }
}
impl NonOccurrenceIndicator {
    /// on when the configured time has passed since the latest occurrence
    pub open spec fn on(self, now: Instant) -> bool { (now.ns() - self.happened_last.ns() >= self.if_not_happened_within.ns()) != self.invert }
}
impl StaircaseTimer {
    /// on until the configured time after the latest update
    pub open spec fn on(self, now: Instant) -> bool { (match self.stay_on_until { Some(t) => now.ns() <= t.ns(), None => false }) != self.invert }
}
//@impl src/instruments/switches/occurrence_indicator.rs OccurrenceIndicator
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.if_happened_within.ns() == 60_000_000_000, !r.invert, r.show_inverted is None,
        exists|t: Instant| #[trigger] vx_is_now(t) && r.happened_last == vx_instant(t.ns() - r.if_happened_within.ns()), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.if_happened_within.ns() == 60_000_000_000, !r.invert, r.show_inverted is None,
        exists|t: Instant| #[trigger] vx_is_now(t) && r.happened_last == vx_instant(t.ns() - r.if_happened_within.ns()), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn set_if_happened_within
    ensures *final(self) == (OccurrenceIndicator { if_happened_within: $1, happened_last: final(self).happened_last, ..*old(self) }),
        exists|t: Instant| #[trigger] vx_is_now(t) && final(self).happened_last == vx_instant(t.ns() - $1.ns()),
//@ fn if_happened_within
    ensures r == (OccurrenceIndicator { if_happened_within: $1, happened_last: r.happened_last, ..self }),
        exists|t: Instant| #[trigger] vx_is_now(t) && r.happened_last == vx_instant(t.ns() - $1.ns()),
//@ fn set_invert_enabled
    ensures *final(self) == (OccurrenceIndicator { invert: $1, ..*old(self) }),
//@ fn invert_enabled
    ensures r == (OccurrenceIndicator { invert: $1, ..self }),
//@ fn inverted
    ensures r == (OccurrenceIndicator { invert: true, ..self }),
//@ fn is_inverted
    ensures r == self.invert,
//@ fn get_if_happened_within
    ensures r == self.if_happened_within,
//@ fn set_show_inverted
    ensures *final(self) == (OccurrenceIndicator { show_inverted: Some($1), ..*old(self) }),
//@ fn show_inverted
    ensures r == (OccurrenceIndicator { show_inverted: Some($1), ..self }),
//@ fn set_show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Prefix(s)), ..*old(self) }),
//@ fn show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Prefix(s)), ..self }),
//@ fn set_show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Postfix(s)), ..*old(self) }),
//@ fn show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Postfix(s)), ..self }),
//@ fn set_show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Rename(s)), ..*old(self) }),
//@ fn show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (OccurrenceIndicator { show_inverted: Some(NameAlternation::Rename(s)), ..self }),
//@ fn state
    // (nothing can have happened after now)
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && (self.happened_last.ns() <= t.ns() ==> r == self.on(t)),
//@end
//@impl src/instruments/switches/occurrence_indicator.rs OccurrenceIndicator : Updates
//@ header impl OccurrenceIndicator
//@ fn update
    ensures r == 1, vx_is_now(final(self).happened_last), *final(self) == (OccurrenceIndicator { happened_last: final(self).happened_last, ..*old(self) }),
//@end
//@if C24
//@impl src/instruments/switches/occurrence_indicator.rs OccurrenceIndicator : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/switches/occurrence_indicator.rs OccurrenceIndicator : PutsSnapshot
//@ header impl OccurrenceIndicator
//@ owner C18 C24
//@ fn put_snapshot
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && (self.happened_last.ns() <= t.ns() ==> displays(self, self.name@, old($1).items@, final($1).items@, switch_items(self.name@, self.show_inverted, self.on(t)), $2)),
//@ start
    proof { ax_cow(); }
//@end
//@impl src/instruments/switches/non_occurrence_indicator.rs NonOccurrenceIndicator
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.if_not_happened_within.ns() == 60_000_000_000, !r.invert, r.show_inverted is None, vx_is_now(r.happened_last), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.if_not_happened_within.ns() == 60_000_000_000, !r.invert, r.show_inverted is None, vx_is_now(r.happened_last), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn set_if_not_happened_within
    ensures *final(self) == (NonOccurrenceIndicator { if_not_happened_within: $1, ..*old(self) }),
//@ fn if_not_happened_within
    ensures r == (NonOccurrenceIndicator { if_not_happened_within: $1, ..self }),
//@ fn set_invert_enabled
    ensures *final(self) == (NonOccurrenceIndicator { invert: $1, ..*old(self) }),
//@ fn invert_enabled
    ensures r == (NonOccurrenceIndicator { invert: $1, ..self }),
//@ fn inverted
    ensures r == (NonOccurrenceIndicator { invert: true, ..self }),
//@ fn is_inverted
    ensures r == self.invert,
//@ fn get_if_not_happened_within
    ensures r == self.if_not_happened_within,
//@ fn set_show_inverted
    ensures *final(self) == (NonOccurrenceIndicator { show_inverted: Some($1), ..*old(self) }),
//@ fn show_inverted
    ensures r == (NonOccurrenceIndicator { show_inverted: Some($1), ..self }),
//@ fn set_show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Prefix(s)), ..*old(self) }),
//@ fn show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Prefix(s)), ..self }),
//@ fn set_show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Postfix(s)), ..*old(self) }),
//@ fn show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Postfix(s)), ..self }),
//@ fn set_show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Rename(s)), ..*old(self) }),
//@ fn show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (NonOccurrenceIndicator { show_inverted: Some(NameAlternation::Rename(s)), ..self }),
//@ fn state
    // (nothing can have happened after now)
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && (self.happened_last.ns() <= t.ns() ==> r == self.on(t)),
//@end
//@impl src/instruments/switches/non_occurrence_indicator.rs NonOccurrenceIndicator : Updates
//@ header impl NonOccurrenceIndicator
//@ fn update
    ensures r == 1, vx_is_now(final(self).happened_last), *final(self) == (NonOccurrenceIndicator { happened_last: final(self).happened_last, ..*old(self) }),
//@end
//@if C24
//@impl src/instruments/switches/non_occurrence_indicator.rs NonOccurrenceIndicator : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/switches/non_occurrence_indicator.rs NonOccurrenceIndicator : PutsSnapshot
//@ header impl NonOccurrenceIndicator
//@ owner C18 C24
//@ fn put_snapshot
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && (self.happened_last.ns() <= t.ns() ==> displays(self, self.name@, old($1).items@, final($1).items@, switch_items(self.name@, self.show_inverted, self.on(t)), $2)),
//@ start
    proof { ax_cow(); }
//@end
//@impl src/instruments/switches/staircase_timer.rs StaircaseTimer
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.switch_off_after.ns() == 60_000_000_000, !r.invert, r.show_inverted is None, r.stay_on_until is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.switch_off_after.ns() == 60_000_000_000, !r.invert, r.show_inverted is None, r.stay_on_until is None, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn set_switch_off_after
    ensures *final(self) == (StaircaseTimer { switch_off_after: $1, ..*old(self) }),
//@ fn switch_off_after
    ensures r == (StaircaseTimer { switch_off_after: $1, ..self }),
//@ fn get_switch_off_after
    ensures r == self.switch_off_after,
//@ fn set_invert
    ensures *final(self) == (StaircaseTimer { invert: $1, ..*old(self) }),
//@ fn enable_invert
    ensures *final(self) == (StaircaseTimer { invert: true, ..*old(self) }),
//@ fn invert
    ensures r == self.invert,
//@ fn set_show_inverted
    ensures *final(self) == (StaircaseTimer { show_inverted: Some($1), ..*old(self) }),
//@ fn show_inverted
    ensures r == (StaircaseTimer { show_inverted: Some($1), ..self }),
//@ fn set_show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (StaircaseTimer { show_inverted: Some(NameAlternation::Prefix(s)), ..*old(self) }),
//@ fn show_inverted_prefixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (StaircaseTimer { show_inverted: Some(NameAlternation::Prefix(s)), ..self }),
//@ fn set_show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (StaircaseTimer { show_inverted: Some(NameAlternation::Postfix(s)), ..*old(self) }),
//@ fn show_inverted_postfixed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (StaircaseTimer { show_inverted: Some(NameAlternation::Postfix(s)), ..self }),
//@ fn set_show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && *final(self) == (StaircaseTimer { show_inverted: Some(NameAlternation::Rename(s)), ..*old(self) }),
//@ fn show_inverted_renamed
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), s) && r == (StaircaseTimer { show_inverted: Some(NameAlternation::Rename(s)), ..self }),
//@ fn state
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && r == self.on(t),
//@ start
    proof { ax_some_now(); }
//@end
//@impl src/instruments/switches/staircase_timer.rs StaircaseTimer : Updates
//@ header impl StaircaseTimer
//@ fn update
    ensures r == 1, *final(self) == (StaircaseTimer { stay_on_until: final(self).stay_on_until, ..*old(self) }),
        exists|t: Instant| #[trigger] vx_is_now(t) && final(self).stay_on_until == Some(vx_instant(t.ns() + old(self).switch_off_after.ns())),
//@end
//@if C24
//@impl src/instruments/switches/staircase_timer.rs StaircaseTimer : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/switches/staircase_timer.rs StaircaseTimer : PutsSnapshot
//@ header impl StaircaseTimer
//@ owner C18 C24
//@ fn put_snapshot
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && displays(self, self.name@, old($1).items@, final($1).items@, switch_items(self.name@, self.show_inverted, self.on(t)), $2),
//@ start
    proof { ax_cow(); }
//@end
//@owner -
//@include set_switches.inc
} // verus!
fn main() {}
