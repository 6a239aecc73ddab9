//@owner C17 C24
// generated by mkputs.py
//@impl src/instruments/panel.rs Panel : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a panel with a name appends one nested snapshot that holds what it would append directly without a name
pub open spec fn panel_puts<L: PartialEq>(a: Panel<L>, pre: Items, post: Items, d: bool) -> bool decreases a, 3int {
    match a.name { None => panel_values(a, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && panel_values(a, Seq::empty(), l.items@, d) }
}
/// what a panel puts, as found at one reading of the clock
pub open spec fn panel_values<L: PartialEq>(a: Panel<L>, pre: Items, post: Items, d: bool) -> bool decreases a, 2int { exists|now: Instant| #[trigger] vx_is_now(now) && panel_at(a, pre, post, d, now) }
pub open spec fn panel_at<L: PartialEq>(a: Panel<L>, pre: Items, post: Items, d: bool, now: Instant) -> bool decreases a, 1int {
    let m = with_flags(described(pre, Seq::empty(), view_of(a.title), view_of(a.description), d), a.max_inactivity_duration, a.show_activity_state, active(a.max_inactivity_duration, a.last_update, now));
    // no values at all while inactive
    if !active(a.max_inactivity_duration, a.last_update, now) { post == m } else { exists|t: Seq<Items>| #[trigger] trace(m, t, post, panel_parts(a)) && panel_shown(a, t, d) }
}
pub open spec fn panel_parts<L>(a: Panel<L>) -> int { one(a.counter) + one(a.gauge) + one(a.meter) + one(a.histogram) + a.panels@.len() + a.snapshooters@.len() + a.handlers@.len() }
/// all parts put their values one after the other
pub open spec fn panel_shown<L: PartialEq>(a: Panel<L>, t: Seq<Items>, d: bool) -> bool decreases a, 0int {
    &&& opt_puts(a.counter, t, 0, d)
    &&& opt_puts(a.gauge, t, one(a.counter), d)
    &&& opt_puts(a.meter, t, one(a.counter) + one(a.gauge), d)
    &&& opt_puts(a.histogram, t, one(a.counter) + one(a.gauge) + one(a.meter), d)
    &&& forall|j: int| #![trigger a.panels@[j]] 0 <= j < a.panels@.len() ==> panel_puts(a.panels@[j], t[one(a.counter) + one(a.gauge) + one(a.meter) + one(a.histogram) + j], t[one(a.counter) + one(a.gauge) + one(a.meter) + one(a.histogram) + j + 1], d)
    &&& vec_puts(a.snapshooters@, t, one(a.counter) + one(a.gauge) + one(a.meter) + one(a.histogram) + a.panels@.len(), d)
    &&& vec_puts(a.handlers@, t, one(a.counter) + one(a.gauge) + one(a.meter) + one(a.histogram) + a.panels@.len() + a.snapshooters@.len(), d)
}
//@impl src/instruments/panel.rs Panel
//@ fn put_values_into_snapshot
    ensures panel_values(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ start
    proof { ax_string(); ax_some_now(); }
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({ proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } } __a.put_snapshot(__b, __c); proof { vx_t = vx_t.push($1.items@); } })
//@ onreturn
    proof { assert(panel_values(*self, old($1).items@, $1.items@, $2)); }
//@ endfn
    proof {
        let p = with_flags(described(old($1).items@, Seq::empty(), view_of(self.title), view_of(self.description), $2), self.max_inactivity_duration, self.show_activity_state, true);
        assert(trace(p, vx_t, $1.items@, panel_parts(*self)));
        assert(panel_shown(*self, vx_t, $2));
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && active(self.max_inactivity_duration, self.last_update, now);
        assert(vx_is_now(now) && active(self.max_inactivity_duration, self.last_update, now));
        assert(panel_at(*self, old($1).items@, $1.items@, $2, now));
    }
//@ loop 0 before
    proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; }  assert(vx_t.len() == 1 + one(self.counter) + one(self.gauge) + one(self.meter) + one(self.histogram)); assert(opt_puts(self.counter, vx_t, 0, $2)); assert(opt_puts(self.gauge, vx_t, 0 + one(self.counter), $2)); assert(opt_puts(self.meter, vx_t, 0 + one(self.counter) + one(self.gauge), $2)); assert(opt_puts(self.histogram, vx_t, 0 + one(self.counter) + one(self.gauge) + one(self.meter), $2)); }
    let ghost vx_t0 = vx_t;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == self.panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.panels@[j],
        vx_t0.len() > 0 && vx_t.len() == vx_t0.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t0.len() ==> #[trigger] vx_t[j] == vx_t0[j],
        forall|j: int| #![trigger self.panels@[j]] 0 <= j < $it.index() ==> panel_puts(self.panels@[j], vx_t[vx_t0.len() - 1 + j], vx_t[vx_t0.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 1 before
    let ghost vx_t1 = vx_t;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == self.snapshooters@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.snapshooters@[j],
        vx_t1.len() > 0 && vx_t.len() == vx_t1.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t1.len() ==> #[trigger] vx_t[j] == vx_t1[j],
        forall|j: int| #![trigger self.snapshooters@[j]] 0 <= j < $it.index() ==> VxSnapshooter::puts(self.snapshooters@[j], vx_t[vx_t1.len() - 1 + j], vx_t[vx_t1.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 2 before
    let ghost vx_t2 = vx_t;
//@ loop 2 attr
    #[verifier::loop_isolation(false)]
//@ loop 2
    invariant $it.seq().len() == self.handlers@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.handlers@[j],
        vx_t2.len() > 0 && vx_t.len() == vx_t2.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t2.len() ==> #[trigger] vx_t[j] == vx_t2[j],
        forall|j: int| #![trigger self.handlers@[j]] 0 <= j < $it.index() ==> VxHandler::<L>::puts(self.handlers@[j], vx_t[vx_t2.len() - 1 + j], vx_t[vx_t2.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@end
//@impl src/instruments/panel.rs Panel : PutsSnapshot
//@ header impl<L: Eq + Send + 'static> Panel<L>
//@ fn put_snapshot
    ensures panel_puts(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ endfn
    proof { if self.name is Some { assert(nested(old($1).items@, $1.items@, self.name.unwrap(), $1.items@.last().1->Snapshot_0)); } }
//@end
//@impl src/cockpit.rs Cockpit : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a cockpit with a name appends one nested snapshot that holds what it would append directly without a name
pub open spec fn cockpit_puts<L: PartialEq>(a: Cockpit<L>, pre: Items, post: Items, d: bool) -> bool {
    match a.name { None => cockpit_values(a, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && cockpit_values(a, Seq::empty(), l.items@, d) }
}
/// what a cockpit puts, as found at one reading of the clock
pub open spec fn cockpit_values<L: PartialEq>(a: Cockpit<L>, pre: Items, post: Items, d: bool) -> bool { exists|now: Instant| #[trigger] vx_is_now(now) && cockpit_at(a, pre, post, d, now) }
pub open spec fn cockpit_at<L: PartialEq>(a: Cockpit<L>, pre: Items, post: Items, d: bool, now: Instant) -> bool {
    let m = with_flags(described(pre, Seq::empty(), view_of(a.title), view_of(a.description), d), a.max_inactivity_duration, a.show_activity_state, active(a.max_inactivity_duration, a.last_activity_at, now));
    // no values at all while inactive
    if !active(a.max_inactivity_duration, a.last_activity_at, now) { post == m } else { exists|t: Seq<Items>| #[trigger] trace(m, t, post, cockpit_parts(a)) && cockpit_shown(a, t, d) }
}
pub open spec fn cockpit_parts<L>(a: Cockpit<L>) -> int { 0int + a.panels@.len() + a.handlers@.len() + a.snapshooters@.len() }
/// all parts put their values one after the other
pub open spec fn cockpit_shown<L: PartialEq>(a: Cockpit<L>, t: Seq<Items>, d: bool) -> bool {
    &&& forall|j: int| #![trigger a.panels@[j]] 0 <= j < a.panels@.len() ==> panel_puts(a.panels@[j], t[0 + j], t[0 + j + 1], d)
    &&& vec_puts(a.handlers@, t, a.panels@.len() as int, d)
    &&& vec_puts(a.snapshooters@, t, a.panels@.len() as int + a.handlers@.len(), d)
}
//@impl src/cockpit.rs Cockpit
//@ fn put_values_into_snapshot
    ensures cockpit_values(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ start
    proof { ax_string(); ax_some_now(); }
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({ proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } } __a.put_snapshot(__b, __c); proof { vx_t = vx_t.push($1.items@); } })
//@ onreturn
    proof { assert(cockpit_values(*self, old($1).items@, $1.items@, $2)); }
//@ endfn
    proof {
        let p = with_flags(described(old($1).items@, Seq::empty(), view_of(self.title), view_of(self.description), $2), self.max_inactivity_duration, self.show_activity_state, true);
        assert(trace(p, vx_t, $1.items@, cockpit_parts(*self)));
        assert(cockpit_shown(*self, vx_t, $2));
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now);
        assert(vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now));
        assert(cockpit_at(*self, old($1).items@, $1.items@, $2, now));
    }
//@ loop 0 before
    proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } }
    let ghost vx_t0 = vx_t;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == self.panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.panels@[j],
        vx_t0.len() > 0 && vx_t.len() == vx_t0.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t0.len() ==> #[trigger] vx_t[j] == vx_t0[j],
        forall|j: int| #![trigger self.panels@[j]] 0 <= j < $it.index() ==> panel_puts(self.panels@[j], vx_t[vx_t0.len() - 1 + j], vx_t[vx_t0.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 1 before
    let ghost vx_t1 = vx_t;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == self.handlers@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.handlers@[j],
        vx_t1.len() > 0 && vx_t.len() == vx_t1.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t1.len() ==> #[trigger] vx_t[j] == vx_t1[j],
        forall|j: int| #![trigger self.handlers@[j]] 0 <= j < $it.index() ==> VxHandler::<L>::puts(self.handlers@[j], vx_t[vx_t1.len() - 1 + j], vx_t[vx_t1.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 2 before
    let ghost vx_t2 = vx_t;
//@ loop 2 attr
    #[verifier::loop_isolation(false)]
//@ loop 2
    invariant $it.seq().len() == self.snapshooters@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.snapshooters@[j],
        vx_t2.len() > 0 && vx_t.len() == vx_t2.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t2.len() ==> #[trigger] vx_t[j] == vx_t2[j],
        forall|j: int| #![trigger self.snapshooters@[j]] 0 <= j < $it.index() ==> VxSnapshooter::puts(self.snapshooters@[j], vx_t[vx_t2.len() - 1 + j], vx_t[vx_t2.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@end
//@impl src/cockpit.rs Cockpit : PutsSnapshot
//@ header impl<L: Clone + Eq + Send + 'static> Cockpit<L>
//@ fn put_snapshot
    ensures cockpit_puts(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ endfn
    proof { if self.name is Some { assert(nested(old($1).items@, $1.items@, self.name.unwrap(), $1.items@.last().1->Snapshot_0)); } }
//@end
//@impl src/processor.rs TelemetryProcessor : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a processor with a name appends one nested snapshot that holds what it would append directly without a name
pub open spec fn processor_puts<L: PartialEq>(a: TelemetryProcessor<L>, pre: Items, post: Items, d: bool) -> bool {
    match a.name { None => processor_values(a, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && processor_values(a, Seq::empty(), l.items@, d) }
}
/// what a processor puts, as found at one reading of the clock
pub open spec fn processor_values<L: PartialEq>(a: TelemetryProcessor<L>, pre: Items, post: Items, d: bool) -> bool { exists|now: Instant| #[trigger] vx_is_now(now) && processor_at(a, pre, post, d, now) }
pub open spec fn processor_at<L: PartialEq>(a: TelemetryProcessor<L>, pre: Items, post: Items, d: bool, now: Instant) -> bool {
    let m = with_flags(described(pre, Seq::empty(), view_of(a.title), view_of(a.description), d), a.max_inactivity_duration, a.show_activity_state, active(a.max_inactivity_duration, a.last_activity_at, now));
    // no values at all while inactive
    if !active(a.max_inactivity_duration, a.last_activity_at, now) { post == m } else { exists|t: Seq<Items>| #[trigger] trace(m, t, post, processor_parts(a)) && processor_shown(a, t, d) }
}
pub open spec fn processor_parts<L>(a: TelemetryProcessor<L>) -> int { 0int + a.cockpits@.len() + a.handlers@.len() + a.snapshooters@.len() }
/// all parts put their values one after the other
pub open spec fn processor_shown<L: PartialEq>(a: TelemetryProcessor<L>, t: Seq<Items>, d: bool) -> bool {
    &&& forall|j: int| #![trigger a.cockpits@[j]] 0 <= j < a.cockpits@.len() ==> cockpit_puts(a.cockpits@[j], t[0 + j], t[0 + j + 1], d)
    &&& vec_puts(a.handlers@, t, a.cockpits@.len() as int, d)
    &&& vec_puts(a.snapshooters@, t, a.cockpits@.len() as int + a.handlers@.len(), d)
}
//@impl src/processor.rs TelemetryProcessor
//@ fn put_values_into_snapshot
    ensures processor_values(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ start
    proof { ax_string(); ax_some_now(); }
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({ proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } } __a.put_snapshot(__b, __c); proof { vx_t = vx_t.push($1.items@); } })
//@ onreturn
    proof { assert(processor_values(*self, old($1).items@, $1.items@, $2)); }
//@ endfn
    proof {
        let p = with_flags(described(old($1).items@, Seq::empty(), view_of(self.title), view_of(self.description), $2), self.max_inactivity_duration, self.show_activity_state, true);
        assert(trace(p, vx_t, $1.items@, processor_parts(*self)));
        assert(processor_shown(*self, vx_t, $2));
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now);
        assert(vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now));
        assert(processor_at(*self, old($1).items@, $1.items@, $2, now));
    }
//@ loop 0 before
    proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } }
    let ghost vx_t0 = vx_t;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == self.cockpits@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.cockpits@[j],
        vx_t0.len() > 0 && vx_t.len() == vx_t0.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t0.len() ==> #[trigger] vx_t[j] == vx_t0[j],
        forall|j: int| #![trigger self.cockpits@[j]] 0 <= j < $it.index() ==> cockpit_puts(self.cockpits@[j], vx_t[vx_t0.len() - 1 + j], vx_t[vx_t0.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 1 before
    let ghost vx_t1 = vx_t;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == self.handlers@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.handlers@[j],
        vx_t1.len() > 0 && vx_t.len() == vx_t1.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t1.len() ==> #[trigger] vx_t[j] == vx_t1[j],
        forall|j: int| #![trigger self.handlers@[j]] 0 <= j < $it.index() ==> VxHandler::<L>::puts(self.handlers@[j], vx_t[vx_t1.len() - 1 + j], vx_t[vx_t1.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 2 before
    let ghost vx_t2 = vx_t;
//@ loop 2 attr
    #[verifier::loop_isolation(false)]
//@ loop 2
    invariant $it.seq().len() == self.snapshooters@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.snapshooters@[j],
        vx_t2.len() > 0 && vx_t.len() == vx_t2.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t2.len() ==> #[trigger] vx_t[j] == vx_t2[j],
        forall|j: int| #![trigger self.snapshooters@[j]] 0 <= j < $it.index() ==> VxSnapshooter::puts(self.snapshooters@[j], vx_t[vx_t2.len() - 1 + j], vx_t[vx_t2.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@end
//@impl src/processor.rs TelemetryProcessor : PutsSnapshot
//@ header impl<L: Clone + Eq + Send + 'static> TelemetryProcessor<L>
//@ fn put_snapshot
    ensures processor_puts(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)]
//@ endfn
    proof { if self.name is Some { assert(nested(old($1).items@, $1.items@, self.name.unwrap(), $1.items@.last().1->Snapshot_0)); } }
//@end
//@owner -
