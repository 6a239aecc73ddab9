// ---- the driver's own metrics: what its instruments are told (what they make of it is decided by C04, C18, C22 and C23) ----
/// Stand-in: the display unit of a histogram of times is the default one, microseconds (decided by C23)
pub open spec fn sample(u: Update) -> Option<int> { match u {
    Update::ObservationWithValue(ObservedValue::Duration(t, f), _) => Some(conv(t as int, f, TimeUnit::Microseconds)),
    Update::ObservationWithValue(v, _) => match as_i64(v) { Some(x) => Some(x as int), None => None },
    _ => None } }
pub open spec fn told(u: Update) -> int { match u { Update::Observations(n, _) => n as int, _ => 1 } }
pub open spec fn plus(s: Seq<int>, x: Option<int>) -> Seq<int> { match x { Some(v) => s.push(v), None => s } }
pub open spec fn made<T: Into<String>>(n: T, nm: Seq<char>) -> bool { exists|s: String| #[trigger] call_ensures(<T as Into<String>>::into, (n,), s) && s@ == nm }
impl Meter {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn total(&self) -> int;
    #[verifier::external_body] pub fn new_with_defaults<T: Into<String>>(n: T) -> (r: Self) ensures r.total() == 0, made(n, r.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, with: &Update) -> (r: usize) ensures final(self).nm() == old(self).nm(), final(self).total() == old(self).total() + told(*with) { unimplemented!() }
}
impl Histogram {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn samples(&self) -> Seq<int>;
    #[verifier::external_body] pub fn new_with_defaults<T: Into<String>>(n: T) -> (r: Self) ensures r.samples().len() == 0, made(n, r.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, with: &Update) -> (r: usize) ensures final(self).nm() == old(self).nm(), final(self).samples() == plus(old(self).samples(), sample(*with)) { unimplemented!() }
}
impl Gauge {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn value(&self) -> Option<int>;
    #[verifier::external_body] pub fn new_with_defaults<T: Into<String>>(n: T) -> (r: Self) ensures r.value() is None, made(n, r.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn tracking(self, n: usize) -> (r: Self) ensures r.value() == self.value(), r.nm() == self.nm() { unimplemented!() }
    #[verifier::external_body] pub fn group_values(self, b: bool) -> (r: Self) ensures r.value() == self.value(), r.nm() == self.nm() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, with: &Update) -> (r: usize) ensures final(self).nm() == old(self).nm(),
        (*with matches Update::ObservationWithValue(v, _) && v is ChangedBy) || final(self).value() == (if sample(*with) is Some { sample(*with) } else { old(self).value() }) { unimplemented!() }
}
/// a time switch knows how often it was updated; it is on (off) for 60 seconds from then by default (decided by C18)
impl StaircaseTimer {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn seen(&self) -> nat;
    #[verifier::external_body] pub fn new_with_defaults<T: Into<String>>(n: T) -> (r: Self) ensures r.seen() == 0, made(n, r.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, with: &Update) -> (r: usize) ensures final(self).nm() == old(self).nm(), final(self).seen() == old(self).seen() + 1 { unimplemented!() }
}
impl NonOccurrenceIndicator {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn seen(&self) -> nat;
    #[verifier::external_body] pub fn new_with_defaults<T: Into<String>>(n: T) -> (r: Self) ensures r.seen() == 0, made(n, r.nm()) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, with: &Update) -> (r: usize) ensures final(self).nm() == old(self).nm(), final(self).seen() == old(self).seen() + 1 { unimplemented!() }
}
/// the duration of something that ended just now, in microseconds
pub open spec fn timed(a: Seq<int>, b: Seq<int>, started: Instant) -> bool { b.len() == a.len() + 1 && exists|now: Instant| #[trigger] vx_is_now(now) && (vx_since(now.ns(), started.ns()) <= u64::MAX ==> b == a.push(vx_since(now.ns(), started.ns()) as int / 1000)) }
/// the metrics kept under these names
pub open spec fn named(i: DriverInstruments) -> bool {
    &&& i.collections_per_second.nm() == "collections_per_second"@ && i.collection_times_us.nm() == "collection_times_us"@
    &&& i.observations_processed_per_second.nm() == "observations_processed_per_second"@ && i.observations_processed_per_collection.nm() == "observations_processed_per_collection"@
    &&& i.observations_dropped_per_second.nm() == "observations_dropped_per_second"@ && i.observations_dropped_per_collection.nm() == "observations_dropped_per_collection"@
    &&& i.observations_enqueued.nm() == "observations_enqueued"@ && i.instruments_updated_per_second.nm() == "instruments_updated_per_second"@
    &&& i.snapshots_per_second.nm() == "snapshots_per_second"@ && i.snapshots_times_us.nm() == "snapshots_times_us"@
    &&& i.dropped_observations_alarm.nm() == "dropped_observations_alarm"@ && i.inactivity_alarm.nm() == "inactivity_alarm"@
}
/// nothing counted yet
pub open spec fn untouched(i: DriverInstruments) -> bool {
    &&& i.collections_per_second.total() == 0 && i.collection_times_us.samples().len() == 0
    &&& i.observations_processed_per_second.total() == 0 && i.observations_processed_per_collection.samples().len() == 0
    &&& i.observations_dropped_per_second.total() == 0 && i.observations_dropped_per_collection.samples().len() == 0
    &&& i.observations_enqueued.value() is None && i.instruments_updated_per_second.total() == 0
    &&& i.snapshots_per_second.total() == 0 && i.snapshots_times_us.samples().len() == 0
    &&& i.dropped_observations_alarm.seen() == 0 && i.inactivity_alarm.seen() == 0
}
pub open spec fn once_if(n: usize) -> Option<int> { if n > 0 { Some(n as int) } else { None } }
/// the outcome of a run that started then enters the metrics
pub open spec fn collected(a: DriverInstruments, b: DriverInstruments, o: ProcessingOutcome, started: Instant) -> bool {
    &&& b.collections_per_second.total() == a.collections_per_second.total() + 1 && timed(a.collection_times_us.samples(), b.collection_times_us.samples(), started)
    &&& b.observations_processed_per_second.total() == a.observations_processed_per_second.total() + o.processed
    &&& b.observations_processed_per_collection.samples() == plus(a.observations_processed_per_collection.samples(), once_if(o.processed))
    &&& b.observations_dropped_per_second.total() == a.observations_dropped_per_second.total() + o.dropped
    &&& b.observations_dropped_per_collection.samples() == plus(a.observations_dropped_per_collection.samples(), once_if(o.dropped))
    &&& b.observations_enqueued.value() == Some(o.observations_enqueued as int)
    &&& b.instruments_updated_per_second.total() == a.instruments_updated_per_second.total() + o.instruments_updated
    &&& if o.dropped > 0 { b.dropped_observations_alarm.seen() > a.dropped_observations_alarm.seen() } else { b.dropped_observations_alarm == a.dropped_observations_alarm }
    &&& if o.processed > 0 || o.dropped > 0 { b.inactivity_alarm.seen() > a.inactivity_alarm.seen() } else { b.inactivity_alarm == a.inactivity_alarm }
    &&& b.snapshots_per_second == a.snapshots_per_second && b.snapshots_times_us == a.snapshots_times_us
    &&& named(a) ==> named(b)
}
/// the reported numbers fit a signed integer
pub open spec fn small(o: ProcessingOutcome) -> bool { o.processed <= i64::MAX && o.dropped <= i64::MAX && o.observations_enqueued <= i64::MAX }
pub open spec fn same_collections(a: DriverInstruments, b: DriverInstruments) -> bool {
    b == (DriverInstruments { snapshots_per_second: b.snapshots_per_second, snapshots_times_us: b.snapshots_times_us, iteration_update_per_mille_ratio_histo: b.iteration_update_per_mille_ratio_histo, iteration_update_per_mille_ratio: b.iteration_update_per_mille_ratio, ..a })
}
/// a snapshot that was started then is counted
pub open spec fn snapshotted(a: DriverInstruments, b: DriverInstruments, started: Instant) -> bool {
    &&& b.snapshots_per_second.total() == a.snapshots_per_second.total() + 1 && timed(a.snapshots_times_us.samples(), b.snapshots_times_us.samples(), started)
    &&& same_collections(a, b) && (named(a) ==> named(b))
}
pub open spec fn counted_snapshot(a: DriverInstruments, b: DriverInstruments) -> bool { exists|started: Instant| #[trigger] snapshotted(a, b, started) }
pub open spec fn only_ratio(a: DriverInstruments, b: DriverInstruments) -> bool { same_collections(a, b) && b.snapshots_per_second == a.snapshots_per_second && b.snapshots_times_us == a.snapshots_times_us }
/// x puts what it puts somewhere in l
pub open spec fn shown<T: PutsSnapshot>(x: T, l: Items, d: bool) -> bool { exists|p: Items, q: Items| #[trigger] T::puts(x, p, q, d) && grows(p, q) && grows(q, l) }
pub open spec fn all_shown(i: DriverInstruments, l: Items, d: bool) -> bool {
    &&& shown(i.collections_per_second, l, d) && shown(i.collection_times_us, l, d)
    &&& shown(i.observations_processed_per_second, l, d) && shown(i.observations_processed_per_collection, l, d)
    &&& shown(i.observations_dropped_per_second, l, d) && shown(i.observations_dropped_per_collection, l, d)
    &&& shown(i.observations_enqueued, l, d) && shown(i.instruments_updated_per_second, l, d)
    &&& shown(i.snapshots_per_second, l, d) && shown(i.snapshots_times_us, l, d)
    &&& shown(i.dropped_observations_alarm, l, d) && shown(i.inactivity_alarm, l, d)
}
pub open spec fn metrics_shown(i: DriverInstruments, pre: Items, post: Items, d: bool) -> bool { exists|l: Snapshot| #[trigger] nested(pre, post, vx_string("_metrix"@), l) && all_shown(i, l.items@, d) }
/// what the runs so far reported
pub open spec fn all_small(runs: Seq<ProcessingOutcome>) -> bool { forall|k: int| 0 <= k < runs.len() ==> small(#[trigger] runs[k]) }
pub open spec fn total_of(runs: Seq<ProcessingOutcome>, f: spec_fn(ProcessingOutcome) -> usize) -> int decreases runs.len() { if runs.len() == 0 { 0 } else { total_of(runs.drop_last(), f) + f(runs.last()) } }
pub open spec fn samples_of(runs: Seq<ProcessingOutcome>, f: spec_fn(ProcessingOutcome) -> usize) -> Seq<int> decreases runs.len() { if runs.len() == 0 { Seq::empty() } else { plus(samples_of(runs.drop_last(), f), once_if(f(runs.last()))) } }
/// The metrics of a driver after these runs and this many snapshots: every run is counted and timed once, everything it reported has entered the totals,
/// every snapshot is counted and timed once.
pub open spec fn history(a: DriverInstruments, runs: Seq<ProcessingOutcome>, snaps: int, b: DriverInstruments) -> bool {
    let p = |o: ProcessingOutcome| o.processed; let d = |o: ProcessingOutcome| o.dropped; let u = |o: ProcessingOutcome| o.instruments_updated;
    &&& b.collections_per_second.total() == a.collections_per_second.total() + runs.len() && b.collection_times_us.samples().len() == a.collection_times_us.samples().len() + runs.len()
    &&& b.observations_processed_per_second.total() == a.observations_processed_per_second.total() + total_of(runs, p)
    &&& b.observations_processed_per_collection.samples() == a.observations_processed_per_collection.samples() + samples_of(runs, p)
    &&& b.observations_dropped_per_second.total() == a.observations_dropped_per_second.total() + total_of(runs, d)
    &&& b.observations_dropped_per_collection.samples() == a.observations_dropped_per_collection.samples() + samples_of(runs, d)
    &&& b.observations_enqueued.value() == if runs.len() == 0 { a.observations_enqueued.value() } else { Some(runs.last().observations_enqueued as int) }
    &&& b.instruments_updated_per_second.total() == a.instruments_updated_per_second.total() + total_of(runs, u)
    &&& b.snapshots_per_second.total() == a.snapshots_per_second.total() + snaps && b.snapshots_times_us.samples().len() == a.snapshots_times_us.samples().len() + snaps
    &&& named(a) ==> named(b)
}
pub proof fn small_before(runs: Seq<ProcessingOutcome>, o: ProcessingOutcome)
    ensures all_small(runs.push(o)) ==> all_small(runs) && small(o),
{
    if all_small(runs.push(o)) { assert(runs.push(o)[runs.len() as int] == o); assert forall|k: int| 0 <= k < runs.len() implies small(#[trigger] runs[k]) by { assert(runs.push(o)[k] == runs[k]); } }
}
pub proof fn run_enters(a: DriverInstruments, runs: Seq<ProcessingOutcome>, snaps: int, b: DriverInstruments, o: ProcessingOutcome, started: Instant, c: DriverInstruments)
    requires history(a, runs, snaps, b), collected(b, c, o, started),
    ensures history(a, runs.push(o), snaps, c),
{
    assert(runs.push(o).drop_last() =~= runs);
    let p = |o: ProcessingOutcome| o.processed; let d = |o: ProcessingOutcome| o.dropped; let u = |o: ProcessingOutcome| o.instruments_updated;
    assert(c.observations_processed_per_collection.samples() =~= a.observations_processed_per_collection.samples() + samples_of(runs.push(o), p));
    assert(c.observations_dropped_per_collection.samples() =~= a.observations_dropped_per_collection.samples() + samples_of(runs.push(o), d));
}
/// the last item shows them under `_metrix`; with a name, the last item does so under that name
pub open spec fn shows_last(i: DriverInstruments, l: Items, d: bool) -> bool { exists|pre: Items| #[trigger] metrics_shown(i, pre, l, d) }
pub open spec fn shows_under(i: DriverInstruments, n: Option<String>, l: Items, d: bool) -> bool { match n { None => shows_last(i, l, d), Some(n) => l.len() > 0 && l.last().0 == n && l.last().1 is Snapshot && shows_last(i, l.last().1->Snapshot_0.items@, d) } }
//@owner C28
//@impl src/driver.rs DriverInstruments
//@ fn update_post_collection
    ensures small(*$1) ==> collected(*old(self), *final(self), *$1, $2),
//@ fn update_post_snapshot
    ensures snapshotted(*old(self), *final(self), $1), only_ratio(*old(self), DriverInstruments { snapshots_per_second: old(self).snapshots_per_second, snapshots_times_us: old(self).snapshots_times_us, ..*final(self) }),
//@ fn put_snapshot
    ensures metrics_put(old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@), metrics_shown(*self, old($1).items@, final($1).items@, $2),
//@ start
    proof { ax_string(); }
//@ endfn
    proof { assert(nested(old($1).items@, $1.items@, vx_string("_metrix"@), $1.items@.last().1->Snapshot_0)); }
//@end
//@impl src/driver.rs DriverMetrics
//@ fn update_post_collection
    ensures small(*$1) ==> collected(old(self).instruments, final(self).instruments, *$1, $2),
//@ fn update_post_snapshot
    ensures snapshotted(old(self).instruments, final(self).instruments, $1),
//@ fn put_snapshot
    ensures metrics_put(old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@), metrics_shown(old(self).instruments, old($1).items@, final($1).items@, $2), final(self).instruments == old(self).instruments,
//@ fn update_run_ratio
    ensures only_ratio(old(self).instruments, final(self).instruments), named(old(self).instruments) ==> named(final(self).instruments),
//@end
//@owner C24 C25 C28
