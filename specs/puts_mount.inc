//@owner C17 C24 C25
// generated by mkputs.py
//@impl src/processor.rs ProcessorMount : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a mount with a name appends one nested snapshot that holds what it would append directly without a name
pub open spec fn mount_puts(a: ProcessorMount, pre: Items, post: Items, d: bool) -> bool {
    match a.name { None => mount_values(a, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && mount_values(a, Seq::empty(), l.items@, d) }
}
/// what a mount puts, as found at one reading of the clock
pub open spec fn mount_values(a: ProcessorMount, pre: Items, post: Items, d: bool) -> bool { exists|now: Instant| #[trigger] vx_is_now(now) && mount_at(a, pre, post, d, now) }
pub open spec fn mount_at(a: ProcessorMount, pre: Items, post: Items, d: bool, now: Instant) -> bool {
    let m = with_flags(described(pre, Seq::empty(), view_of(a.title), view_of(a.description), d), a.max_inactivity_duration, true, active(a.max_inactivity_duration, a.last_activity_at, now));
    // no values at all while inactive
    if !active(a.max_inactivity_duration, a.last_activity_at, now) { post == m } else { exists|t: Seq<Items>| #[trigger] trace(m, t, post, mount_parts(a)) && mount_shown(a, t, d) }
}
pub open spec fn mount_parts(a: ProcessorMount) -> int { 0int + a.processors@.len() + a.snapshooters@.len() }
/// all parts put their values one after the other
pub open spec fn mount_shown(a: ProcessorMount, t: Seq<Items>, d: bool) -> bool {
    &&& vec_puts(a.processors@, t, 0, d)
    &&& vec_puts(a.snapshooters@, t, a.processors@.len() as int, d)
}
//@impl src/processor.rs ProcessorMount
//@ fn put_values_into_snapshot
    ensures mount_values(*self, old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); ax_some_now(); }
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({ proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } } __a.put_snapshot(__b, __c); proof { vx_t = vx_t.push($1.items@); } })
//@ onreturn
    proof { assert(mount_values(*self, old($1).items@, $1.items@, $2)); }
//@ endfn
    proof {
        let p = with_flags(described(old($1).items@, Seq::empty(), view_of(self.title), view_of(self.description), $2), self.max_inactivity_duration, true, true);
        assert(trace(p, vx_t, $1.items@, mount_parts(*self)));
        assert(mount_shown(*self, vx_t, $2));
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now);
        assert(vx_is_now(now) && active(self.max_inactivity_duration, self.last_activity_at, now));
        assert(mount_at(*self, old($1).items@, $1.items@, $2, now));
    }
//@ loop 0 before
    proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } }
    let ghost vx_t0 = vx_t;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == self.processors@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.processors@[j],
        vx_t0.len() > 0 && vx_t.len() == vx_t0.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t0.len() ==> #[trigger] vx_t[j] == vx_t0[j],
        forall|j: int| #![trigger self.processors@[j]] 0 <= j < $it.index() ==> VxProcessor::puts(self.processors@[j], vx_t[vx_t0.len() - 1 + j], vx_t[vx_t0.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@ loop 1 before
    let ghost vx_t1 = vx_t;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == self.snapshooters@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.snapshooters@[j],
        vx_t1.len() > 0 && vx_t.len() == vx_t1.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t1.len() ==> #[trigger] vx_t[j] == vx_t1[j],
        forall|j: int| #![trigger self.snapshooters@[j]] 0 <= j < $it.index() ==> VxSnapshooter::puts(self.snapshooters@[j], vx_t[vx_t1.len() - 1 + j], vx_t[vx_t1.len() + j], $2),
        grows(old($1).items@, $1.items@),
//@end
//@impl src/processor.rs ProcessorMount : PutsSnapshot
//@ add
    open spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool { mount_puts(a, pre, post, d) }
//@ fn put_snapshot
//@ endfn
    proof { if self.name is Some { assert(nested(old($1).items@, $1.items@, self.name.unwrap(), $1.items@.last().1->Snapshot_0)); } }
//@end
//@owner -
