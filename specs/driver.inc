// ---- the driver's handles ----
//@owner C16 C25
//@type CrossbeamSender<DriverMessage> => VxDriverTx
//@type CrossbeamSender<Snapshot> => VxSnapTx
//@type oneshot::Sender<Snapshot> => VxOneshot
//@if C16
//@type Arc<DropGuard> => VxGuard
//@fi
/// Stand-ins: the driver's message channel, the back channels of snapshot requests and the shared drop guard
#[verifier::external_body] pub struct VxDriverTx(u8);
#[verifier::external_body] pub struct VxSnapTx(u8);
#[verifier::external_body] pub struct VxOneshot(u8);
//@if C16
#[verifier::external_body] pub struct VxGuard(u8);
//@else
use std::sync::Arc;
//@path AtomicBool::new => VxFlag::new
//@type AtomicBool => VxFlag
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
/// Stand-in for the flag shared by the drop guard and the driver thread, which may look at it at any time
#[verifier::external_body] pub struct VxFlag(u8);
impl VxFlag {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn initially(&self) -> bool;
    #[verifier::external_body] pub fn new(b: bool) -> (r: VxFlag) ensures r.initially() == b { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, b: bool, o: Ordering) { unimplemented!() }
}
//@item src/driver.rs struct DropGuard
//@fi
//@item src/driver.rs enum DriverMessage
//@item src/driver.rs struct Descriptives
//@item src/driver.rs struct TelemetryDriver
impl VxDriverTx {
    pub uninterp spec fn queue(&self) -> Seq<DriverMessage>;
    pub uninterp spec fn gone(&self) -> bool;
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn send(&mut self, m: DriverMessage) -> (r: Result<(), VxSendError>)
        ensures match r { Ok(_) => final(self).queue() == old(self).queue().push(m), Err(_) => final(self).queue() == old(self).queue() && old(self).gone() }, final(self).chan() == old(self).chan() { unimplemented!() }
}
/// the message is sent to the driver thread; it is lost only if that thread no longer exists
pub open spec fn tells(a: TelemetryDriver, m: DriverMessage, b: TelemetryDriver) -> bool {
    b == (TelemetryDriver { sender: b.sender, ..a }) && b.sender.chan() == a.sender.chan() && (b.sender.queue() == a.sender.queue().push(m) || (b.sender.queue() == a.sender.queue() && a.sender.gone()))
}
//@owner C16 C25
//@impl src/driver.rs TelemetryDriver : AggregatesProcessors
//@ add
    open spec fn adds_p(a: Self, p: VxProcessor, b: Self) -> bool { tells(a, DriverMessage::AddProcessor(p), b) }
    open spec fn adds_s(a: Self, s: VxSnapshooter, b: Self) -> bool { tells(a, DriverMessage::AddSnapshooter(s), b) }
//@ fn add_processor
//@ fn add_snapshooter
//@end
pub open spec fn run_of(a: Seq<VxProcessor>, max: usize, s: ProcessingStrategy, b: Seq<VxProcessor>, r: ProcessingOutcome, o: Seq<ProcessingOutcome>) -> bool { each_runs(a, max, s, b, o) && totals(o, r) }
//@fn src/driver.rs do_a_run
    ensures exists|o: Seq<ProcessingOutcome>| #[trigger] run_of(old($1)@, $2, $3, final($1)@, r, o),
//@ start
    let ghost mut vx_o: Seq<ProcessingOutcome> = Seq::empty();
    let ghost vx_p = $1@;
//@ endfn
    proof { assert(run_of(old($1)@, $2, $3, $1@, $r, vx_o)); }
//@ subst __a.process(__b, __c) => ({ let vx_r = __a.process(__b, __c); proof { vx_o = vx_o.push(vx_r); } vx_r })
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq().len() == vx_p.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == vx_p[j],
        vx_o.len() == $it.index(), forall|j: int| 0 <= j < $it.index() ==> #[trigger] VxProcessor::runs(vx_p[j], $2, $3, *final($it.seq()[j]), vx_o[j]),
        totals(vx_o, $acc0~outcome),
//@ loop 0 start
    let ghost vx_o0 = vx_o; let ghost vx_m = $acc0~outcome;
//@ loop 0 end
    proof { lemma_totals(vx_o0, vx_o.last(), vx_m, $acc0~outcome); }
//@end
//@owner -
