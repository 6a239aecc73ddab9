//@owner C24 C25 C28
// ---- the driver's snapshot ----
/// Stand-ins for the instruments of the driver's own metrics
pub trait Updates { }
#[verifier::external_body] pub struct Meter(u8);
impl PutsSnapshot for Meter { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
#[verifier::external_body] pub struct Histogram(u8);
impl PutsSnapshot for Histogram { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
#[verifier::external_body] pub struct Gauge(u8);
impl PutsSnapshot for Gauge { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
#[verifier::external_body] pub struct StaircaseTimer(u8);
impl PutsSnapshot for StaircaseTimer { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
#[verifier::external_body] pub struct NonOccurrenceIndicator(u8);
impl PutsSnapshot for NonOccurrenceIndicator { uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool; #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() } }
//@item src/driver.rs struct DriverInstruments
//@item src/driver.rs struct DriverMetrics
pub open spec fn metrics_put(pre: Items, post: Items) -> bool { exists|l: Snapshot| #[trigger] nested(pre, post, vx_string("_metrix"@), l) }
//@if C28
//@include metrics.inc
//@else
//@impl src/driver.rs DriverInstruments
//@ fn put_snapshot
    ensures metrics_put(old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); }
//@ endfn
    proof { assert(nested(old($1).items@, $1.items@, vx_string("_metrix"@), $1.items@.last().1->Snapshot_0)); }
//@end
//@impl src/driver.rs DriverMetrics
//@ fn update_post_snapshot
//@ assumed
//@ fn put_snapshot
    ensures metrics_put(old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@),
//@end
//@fi
//@impl src/driver.rs Descriptives : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@owner C24 C25 C28
/// the processors, the snapshooters and then the driver's own metrics, if they are enabled
pub open spec fn steps_of(p: nat, s: nat, metrics: bool) -> int { p + s + if metrics { 1int } else { 0int } }
pub open spec fn driver_values(p: Seq<VxProcessor>, s: Seq<VxSnapshooter>, metrics: bool, de: Descriptives, pre: Items, post: Items, d: bool) -> bool {
    exists|t: Seq<Items>| #[trigger] trace(described(pre, Seq::empty(), view_of(de.title), view_of(de.description), d), t, post, steps_of(p.len(), s.len(), metrics))
        && vec_puts(p, t, 0, d) && vec_puts(s, t, p.len() as int, d) && (metrics ==> metrics_put(t[(p.len() + s.len()) as int], t[(p.len() + s.len() + 1) as int]))
}
pub open spec fn driver_puts(p: Seq<VxProcessor>, s: Seq<VxSnapshooter>, metrics: bool, de: Descriptives, pre: Items, post: Items, d: bool) -> bool {
    match de.name { None => driver_values(p, s, metrics, de, pre, post, d), Some(n) => exists|l: Snapshot| #[trigger] nested(pre, post, n, l) && driver_values(p, s, metrics, de, Seq::empty(), l.items@, d) }
}
//@fn src/driver.rs add_snapshot_values
    ensures driver_values($2@, $3@, $4 is Some, *$5, old($1).items@, final($1).items@, $6), grows(old($1).items@, final($1).items@),
//@if C28
        $4 is Some ==> snapshotted($4->Some_0.instruments, final($4->Some_0).instruments, $7) && shows_last(final($4->Some_0).instruments, final($1).items@, $6),
//@fi
//@ start
    proof { ax_string(); }
    let ghost mut vx_t: Seq<Items> = Seq::empty();
//@ subst __a.put_snapshot(__b, __c) => ({ proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } } __a.put_snapshot(__b, __c); proof { vx_t = vx_t.push($1.items@); } })
//@ onreturn
    proof { assert(trace(described(old($1).items@, Seq::empty(), view_of($5.title), view_of($5.description), $6), vx_t, $1.items@, steps_of($2@.len(), $3@.len(), $4 is Some))); }
//@ endfn
    proof { assert(trace(described(old($1).items@, Seq::empty(), view_of($5.title), view_of($5.description), $6), vx_t, $1.items@, steps_of($2@.len(), $3@.len(), $4 is Some))); }
//@ loop 0 before
    proof { if vx_t.len() == 0 { vx_t = seq![$1.items@]; } }
    let ghost vx_t0 = vx_t;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == $2@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $2@[j],
        vx_t.len() == vx_t0.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t0.len() ==> #[trigger] vx_t[j] == vx_t0[j],
        forall|j: int| #![trigger $2@[j]] 0 <= j < $it.index() ==> VxProcessor::puts($2@[j], vx_t[vx_t0.len() - 1 + j], vx_t[vx_t0.len() + j], $6),
        grows(old($1).items@, $1.items@),
//@ loop 1 before
    let ghost vx_t1 = vx_t;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == $3@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $3@[j],
        vx_t.len() == vx_t1.len() + $it.index(), vx_t.last() == $1.items@, forall|j: int| 0 <= j < vx_t1.len() ==> #[trigger] vx_t[j] == vx_t1[j],
        forall|j: int| #![trigger $3@[j]] 0 <= j < $it.index() ==> VxSnapshooter::puts($3@[j], vx_t[vx_t1.len() - 1 + j], vx_t[vx_t1.len() + j], $6),
        grows(old($1).items@, $1.items@),
//@end
//@fn src/driver.rs put_values_into_snapshot
    ensures driver_puts($2@, $3@, $4 is Some, *$5, old($1).items@, final($1).items@, $6), grows(old($1).items@, final($1).items@),
//@if C28
        $4 is Some ==> counted_snapshot($4->Some_0.instruments, final($4->Some_0).instruments) && shows_under(final($4->Some_0).instruments, $5.name, final($1).items@, $6),
//@fi
//@ endfn
    proof { if $5.name is Some { assert(nested(old($1).items@, $1.items@, $5.name.unwrap(), $1.items@.last().1->Snapshot_0)); } }
//@end
//@owner -
