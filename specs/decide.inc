//@owner C08
// ---- processing strategies ----
//@item src/processor.rs enum ProcessingStrategy ; #[derive(Clone, Copy)]
//@item src/processor.rs enum ProcessingDecider
/// What the decision looks at: a timestamp and whether the observation is a delta.
pub trait ObservationLike: Sized {
    spec fn ts(&self) -> Instant;
    spec fn delta(&self) -> bool;
    fn timestamp(&self) -> (r: Instant) ensures r == self.ts();
    fn is_delta(&self) -> (r: bool) ensures r == self.delta();
}
pub open spec fn value_delta(v: ObservedValue) -> bool { v is ChangedBy }
pub open spec fn obs_delta<L>(o: Observation<L>) -> bool { match o { Observation::ObservedOneValue { value, .. } => value_delta(value), _ => false } }
/// processed: always, never, or exactly when not before the deadline or a delta that is to be kept
pub open spec fn keeps(d: ProcessingDecider, ts: Instant, delta: bool) -> bool { match d {
    ProcessingDecider::ProcessAll => true,
    ProcessingDecider::DropAll => false,
    ProcessingDecider::DropBeforeDeadline { drop_if_older_than, drop_deltas } => ts.ns() >= drop_if_older_than.ns() || (delta && !drop_deltas) } }
/// what strategy s asks for at the time t
pub open spec fn wanted(s: ProcessingStrategy, t: Instant, ts: Instant, delta: bool) -> bool { match s {
    ProcessingStrategy::ProcessAll => true,
    ProcessingStrategy::DropAll => false,
    ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => ts.ns() >= t.ns() - max_age.ns() || (delta && !drop_deltas) } }
/// d is the decision of strategy s at the time t, for every timestamp
pub open spec fn decides_at(s: ProcessingStrategy, d: ProcessingDecider, t: Instant) -> bool { forall|ts: Instant, delta: bool| #[trigger] keeps(d, ts, delta) == wanted(s, t, ts, delta) }
pub open spec fn decides(s: ProcessingStrategy, d: ProcessingDecider) -> bool { exists|t: Instant| #[trigger] vx_is_now(t) && decides_at(s, d, t) }
//@impl src/processor.rs ProcessingStrategy
//@ fn decider
    ensures decides(*self, r),
//@ start
    proof { ax_some_now(); ax_range(); }
//@end
//@impl src/processor.rs ProcessingDecider
//@ fn should_be_processed
    ensures r == keeps(*self, $1.ts(), $1.delta()),
//@end
//@owner C08 C14
//@impl src/observation.rs ObservedValue
//@ fn is_delta
    ensures r == value_delta(*self),
//@end
//@owner C08
//@impl src/observation.rs Observation : ObservationLike
//@ header impl<L> ObservationLike for Observation<L>
//@ add
    open spec fn ts(&self) -> Instant { obs_time(*self) }
    open spec fn delta(&self) -> bool { obs_delta(*self) }
//@ fn timestamp
//@ fn is_delta
//@end
//@owner -
