#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include update.inc
//@include decide.inc
//@owner C08
//@impl src/processor.rs ProcessingStrategy : Default
//@ header impl ProcessingStrategy
//@ fn default
    ensures r matches ProcessingStrategy::DropOlderThan { max_age, drop_deltas } && max_age.ns() == 30_000_000_000 && !drop_deltas,
//@end
/// Over the whole of the property: under strategy s an observation is processed exactly when ...
pub proof fn lemma_drop_older<L>(s: ProcessingStrategy, d: ProcessingDecider, o: Observation<L>)
    requires decides(s, d)
    ensures match s {
        ProcessingStrategy::ProcessAll => keeps(d, obs_time(o), obs_delta(o)),
        ProcessingStrategy::DropAll => !keeps(d, obs_time(o), obs_delta(o)),
        ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => exists|now: Instant| #[trigger] vx_is_now(now) && (keeps(d, obs_time(o), obs_delta(o)) <==> (obs_time(o).ns() >= now.ns() - max_age.ns() || (obs_delta(o) && !drop_deltas))) }
{ }
//@owner -
} // verus!
fn main() {}
