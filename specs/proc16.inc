//@owner C16 C25
// ---- running processors ----
/// usize addition of reported counts: assumed not to overflow
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
//@item src/processor.rs enum ProcessingStrategy ; #[derive(Clone, Copy)]
//@owner C16 C17 C25
//@impl src/processor.rs ProcessingOutcome
//@ fn combine_with
    ensures sum_of(*old(self), *$1, *final(self)),
//@ flag mathadd
//@end
/// A run is the processor's own contract: `runs` relates the state before, limit and strategy, the state after and the outcome.
//@trait src/processor.rs ProcessesTelemetryMessages
//@ header pub trait ProcessesTelemetryMessages: Sized
//@ add
    spec fn runs(a: Self, max: usize, s: ProcessingStrategy, b: Self, r: ProcessingOutcome) -> bool;
//@ fn process
    ensures Self::runs(*old(self), $1, $2, *final(self), r),
//@end
//@if C16
pub trait PutsSnapshot: Sized {}
//@fi
/// Stand-in for `Box<dyn ProcessesTelemetryMessages>`
#[verifier::external_body]
pub struct VxProcessor(u8);
impl ProcessesTelemetryMessages for VxProcessor {
    uninterp spec fn runs(a: Self, max: usize, s: ProcessingStrategy, b: Self, r: ProcessingOutcome) -> bool;
    #[verifier::external_body] fn process(&mut self, max: usize, s: ProcessingStrategy) -> (r: ProcessingOutcome) { unimplemented!() }
}
/// Stand-in for `Box<dyn PutsSnapshot>`
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@type Box<dyn ProcessesTelemetryMessages> => VxProcessor
//@type Box<dyn PutsSnapshot> => VxSnapshooter
/// boxing
pub uninterp spec fn vx_boxed_p<P>(p: P) -> VxProcessor;
pub uninterp spec fn vx_boxed_s<S>(s: S) -> VxSnapshooter;
impl<P> VxBx<VxProcessor> for P { open spec fn vx_b(self, r: VxProcessor) -> bool { r == vx_boxed_p(self) } }
impl<S> VxBx<VxSnapshooter> for S { open spec fn vx_b(self, r: VxSnapshooter) -> bool { r == vx_boxed_s(self) } }
/// every processor runs exactly once, with the given limit and strategy, and reports o[i]
pub open spec fn each_runs(a: Seq<VxProcessor>, max: usize, s: ProcessingStrategy, b: Seq<VxProcessor>, o: Seq<ProcessingOutcome>) -> bool {
    a.len() == b.len() && a.len() == o.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] VxProcessor::runs(a[i], max, s, b[i], o[i])
}
pub open spec fn fld(o: ProcessingOutcome, k: int) -> int { if k == 0 { o.processed as int } else if k == 1 { o.dropped as int } else if k == 2 { o.instruments_updated as int } else { o.observations_enqueued as int } }
pub open spec fn total(o: Seq<ProcessingOutcome>, k: int) -> int decreases o.len() { if o.len() == 0 { 0 } else { total(o.drop_last(), k) + fld(o.last(), k) } }
/// the outcome is the sum, field by field
pub open spec fn totals(o: Seq<ProcessingOutcome>, r: ProcessingOutcome) -> bool { fld(r, 0) == total(o, 0) && fld(r, 1) == total(o, 1) && fld(r, 2) == total(o, 2) && fld(r, 3) == total(o, 3) }
pub proof fn lemma_totals(o: Seq<ProcessingOutcome>, x: ProcessingOutcome, a: ProcessingOutcome, r: ProcessingOutcome)
    requires totals(o, a), sum_of(a, x, r)
    ensures totals(o.push(x), r)
{ assert(o.push(x).drop_last() =~= o); }
#[verifier::prophetic]
pub open spec fn pfinals(s: Seq<&mut VxProcessor>) -> Seq<VxProcessor> { Seq::new(s.len(), |i: int| *final(s[i])) }
//@item src/processor.rs struct ProcessorMount
pub open spec fn mount_runs(a: ProcessorMount, max: usize, s: ProcessingStrategy, b: ProcessorMount, r: ProcessingOutcome, o: Seq<ProcessingOutcome>) -> bool {
    &&& each_runs(a.processors@, max, s, b.processors@, o) && totals(o, r)
    &&& b == ProcessorMount { processors: b.processors, last_activity_at: b.last_activity_at, ..a }
//@if C17
    &&& if r.processed > 0 || r.dropped > 0 { vx_is_now(b.last_activity_at) } else { b.last_activity_at == a.last_activity_at }
//@fi
}
pub open spec fn with_p(a: ProcessorMount, p: VxProcessor, b: ProcessorMount) -> bool { b.processors@ == a.processors@.push(p) && b == ProcessorMount { processors: b.processors, ..a } }
pub open spec fn with_s(a: ProcessorMount, p: VxSnapshooter, b: ProcessorMount) -> bool { b.snapshooters@ == a.snapshooters@.push(p) && b == ProcessorMount { snapshooters: b.snapshooters, ..a } }
//@if C17
pub open spec fn empty_mount(r: ProcessorMount) -> bool { r.max_inactivity_duration is None && vx_is_now(r.last_activity_at) }
//@else
pub open spec fn empty_mount(r: ProcessorMount) -> bool { r.processors@.len() == 0 && r.snapshooters@.len() == 0 && r.max_inactivity_duration is None && r.title is None && r.description is None }
//@fi
//@owner C16 C17 C25
//@impl src/processor.rs ProcessorMount : Default
//@ header impl ProcessorMount
//@ fn default
    ensures empty_mount(r), r.name is None,
//@end
//@impl src/processor.rs ProcessorMount
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures final(self).name is Some, call_ensures(<T as Into<String>>::into, ($1,), final(self).name.unwrap()), *final(self) == (ProcessorMount { name: final(self).name, ..*old(self) }),
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures empty_mount(r), r.name is Some, call_ensures(<T as Into<String>>::into, ($1,), r.name.unwrap()),
//@ fn set_inactivity_limit
    ensures *final(self) == (ProcessorMount { max_inactivity_duration: Some($1), ..*old(self) }),
//@ fn add_processor_dyn
    ensures with_p(*old(self), $1, *final(self)),
//@ fn add_snapshooter_dyn
    ensures with_s(*old(self), $1, *final(self)),
//@end
//@impl src/processor.rs ProcessorMount : ProcessesTelemetryMessages
//@ add
    open spec fn runs(a: Self, max: usize, s: ProcessingStrategy, b: Self, r: ProcessingOutcome) -> bool { exists|o: Seq<ProcessingOutcome>| #[trigger] mount_runs(a, max, s, b, r, o) }
//@ fn process
//@ start
    let ghost mut vx_o: Seq<ProcessingOutcome> = Seq::empty();
    let ghost vx_p = self.processors@;
//@ endfn
    proof { assert(mount_runs(*old(self), $1, $2, *self, $r, vx_o)); }
//@ subst __a.process(__b, __c) => ({ let vx_r = __a.process(__b, __c); proof { vx_o = vx_o.push(vx_r); } vx_r })
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == vx_p.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == vx_p[j],
        vx_o.len() == $it.index(), forall|j: int| 0 <= j < $it.index() ==> #[trigger] VxProcessor::runs(vx_p[j], $1, $2, *final($it.seq()[j]), vx_o[j]),
        totals(vx_o, $acc0~outcome),
//@ loop 0 start
    let ghost vx_o0 = vx_o; let ghost vx_m = $acc0~outcome;
//@ loop 0 end
    proof { lemma_totals(vx_o0, vx_o.last(), vx_m, $acc0~outcome); }
//@end
