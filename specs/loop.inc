//@owner C25
// ---- the driver thread ----
//@type CrossbeamReceiver<DriverMessage> => VxDriverRx
//@path thread::sleep => vx_sleep
pub type VxDriverAnswer = Result<DriverMessage, TryRecvError>;
/// Stand-in for the receiver of the driver's queue: senders may enqueue at any time, so every answer is possible
#[verifier::external_body] pub struct VxDriverRx(u8);
impl VxDriverRx {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn try_recv(&self) -> (r: VxDriverAnswer) { unimplemented!() }
    // senders may enqueue at any time, so these say nothing about the next answer
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() }
}
/// The driver thread never sleeps for more than a second.
#[verifier::external_body] pub fn vx_sleep(d: Duration) requires d.ns() <= 1_000_000_000 { unimplemented!() }
/// the two kinds of back channels of a snapshot request
pub enum VxBack { Sync(VxSnapTx), Async(VxOneshot) }
pub trait VxBackChannel { spec fn back(&self) -> VxBack; }
impl VxBackChannel for VxSnapTx { open spec fn back(&self) -> VxBack { VxBack::Sync(*self) } }
impl VxBackChannel for VxOneshot { open spec fn back(&self) -> VxBack { VxBack::Async(*self) } }
impl VxSnapTx { #[verifier::external_body] pub fn send(&self, s: Snapshot) -> (r: Result<(), VxSendError>) { unimplemented!() } }
impl VxOneshot { #[verifier::external_body] pub fn send(self, s: Snapshot) -> (r: Result<(), Snapshot>) { unimplemented!() } }
/// What the thread did last: it looked at the flag, polled the queue, got a request (what the snapshot already
/// contains, where to send it, with descriptions?), ran the processors, or stopped.
pub enum VxPhase { Ready, Flagged, Polled, Asked(Items, VxBack, bool), Stopped }
/// The state of the driver as its history of events defines it
pub struct VxState { pub ps: Seq<VxProcessor>, pub ss: Seq<VxSnapshooter>, pub strategy: ProcessingStrategy, pub paused: bool, pub phase: VxPhase }
/// Before it looks at the flag again it has executed the message it got and, unless it is paused, run the processors.
pub open spec fn may_look(a: VxState) -> bool { a.phase is Ready || (a.phase is Polled && a.paused) }
pub open spec fn looked(a: VxState, running: bool) -> VxState { VxState { phase: if running { VxPhase::Flagged } else { VxPhase::Stopped }, ..a } }
/// It polls the queue once between looking at the flag and running.
pub open spec fn may_poll(a: VxState) -> bool { a.phase is Flagged }
pub open spec fn polled(a: VxState, m: VxDriverAnswer) -> VxState {
    let p = VxState { phase: VxPhase::Polled, ..a };
    match m {
        Ok(DriverMessage::AddProcessor(x)) => VxState { ps: a.ps.push(x), ..p },
        Ok(DriverMessage::AddSnapshooter(x)) => VxState { ss: a.ss.push(x), ..p },
        Ok(DriverMessage::SetProcessingStrategy(x)) => VxState { strategy: x, ..p },
        Ok(DriverMessage::Pause) => VxState { paused: true, ..p },
        Ok(DriverMessage::Resume) => VxState { paused: false, ..p },
        Ok(DriverMessage::GetSnapshotSync(s, tx, d)) => VxState { phase: VxPhase::Asked(s.items@, VxBack::Sync(tx), d), ..p },
        Ok(DriverMessage::GetSnapshotAsync(s, tx, d)) => VxState { phase: VxPhase::Asked(s.items@, VxBack::Async(tx), d), ..p },
        Err(TryRecvError::Empty) => p,
        Err(TryRecvError::Disconnected) => VxState { phase: VxPhase::Stopped, ..p },
    }
}
/// A request is answered on its own back channel, with what the driver puts at this point of the queue.
pub open spec fn may_answer(a: VxState, to: VxBack, s: Snapshot, metrics: bool, de: Descriptives) -> bool {
    a.phase matches VxPhase::Asked(pre, b, d) && b == to && driver_puts(a.ps, a.ss, metrics, de, pre, s.items@, d)
}
/// A run processes all processors attached so far with the strategy last set, and never while paused.
pub open spec fn may_run(a: VxState, ps: Seq<VxProcessor>, max: usize, strategy: ProcessingStrategy) -> bool { a.phase is Polled && !a.paused && ps == a.ps && strategy == a.strategy && max > 0 }
// ---- its handles ----
//@path oneshot::channel => vx_oneshot
/// Stand-ins for the receiving ends of the back channels: what arrives there was sent by whoever holds the other end
#[verifier::external_body] pub struct VxSnapRx(u8);
#[verifier::external_body] pub struct VxOneshotRx(u8);
pub struct VxRecvError;
pub struct VxCanceled;
//@item src/driver.rs struct GetSnapshotError
pub uninterp spec fn vx_received(to: VxSnapTx, r: Result<Snapshot, VxRecvError>) -> bool;
impl VxSnapRx {
    pub uninterp spec fn other(&self) -> VxSnapTx;
    #[verifier::external_body] pub fn recv(&self) -> (r: Result<Snapshot, VxRecvError>) ensures vx_received(self.other(), r) { unimplemented!() }
}
/// a future for what arrives at the receiving end
#[verifier::external_body] pub struct VxFuture(u8);
impl VxFuture { pub uninterp spec fn other(&self) -> VxOneshot; }
impl VxOneshotRx {
    pub uninterp spec fn other(&self) -> VxOneshot;
    #[verifier::external_body] pub fn map_err<F: FnOnce(VxCanceled) -> GetSnapshotError>(self, f: F) -> (r: VxFuture) ensures r.other() == self.other() { unimplemented!() }
}
impl VxTx for VxSnapTx { type Rx = VxSnapRx; open spec fn ends(a: Self, b: VxSnapRx) -> bool { b.other() == a } }
impl VxTx for VxDriverTx { type Rx = VxDriverRx; open spec fn ends(a: Self, b: VxDriverRx) -> bool { a.chan() == b.chan() && a.queue().len() == 0 } }
#[verifier::external_body] pub fn vx_oneshot() -> (r: (VxOneshot, VxOneshotRx)) ensures r.1.other() == r.0 { unimplemented!() }
/// The handle asks for an empty snapshot to be filled, and returns what arrives.
pub open spec fn asks(a: TelemetryDriver, s: Snapshot, tx: VxSnapTx, d: bool, b: TelemetryDriver, x: Result<Snapshot, VxRecvError>, r: Result<Snapshot, GetSnapshotError>) -> bool {
    s.items@.len() == 0 && tells(a, DriverMessage::GetSnapshotSync(s, tx, d), b) && vx_received(tx, x) && match x { Ok(y) => r is Ok && r->Ok_0 == y, Err(_) => r is Err }
}
pub open spec fn asked(a: TelemetryDriver, d: bool, b: TelemetryDriver, r: Result<Snapshot, GetSnapshotError>) -> bool { exists|s: Snapshot, tx: VxSnapTx, x: Result<Snapshot, VxRecvError>| #[trigger] asks(a, s, tx, d, b, x, r) }
//@impl src/driver.rs TelemetryDriver
//@ fn pause
    ensures tells(*old(self), DriverMessage::Pause, *final(self)),
//@ sig self => &mut self
//@ fn resume
    ensures tells(*old(self), DriverMessage::Resume, *final(self)),
//@ sig self => &mut self
//@ fn change_processing_stragtegy
    ensures tells(*old(self), DriverMessage::SetProcessingStrategy($1), *final(self)),
//@ sig self => &mut self
//@ fn snapshot
    ensures asked(*old(self), $1, *final(self), r),
//@ sig self => &mut self
//@ start
    let ghost mut vx_s: Snapshot = arbitrary(); let ghost mut vx_tx: VxSnapTx = arbitrary(); let ghost mut vx_x: Result<Snapshot, VxRecvError> = arbitrary();
//@ subst DriverMessage::GetSnapshotSync(__a, __b, __c) => ({ let vx_1 = __a; let vx_2 = __b; proof { vx_s = vx_1; vx_tx = vx_2; } DriverMessage::GetSnapshotSync(vx_1, vx_2, __c) })
//@ subst __a.recv() => ({ let vx_r = __a.recv(); proof { vx_x = vx_r; } vx_r })
//@ endfn
    proof { assert(asks(*old(self), vx_s, vx_tx, $1, *self, vx_x, $r)); }
//@ fn snapshot_async
    ensures exists|s: Snapshot| s.items@.len() == 0 && #[trigger] tells(*old(self), DriverMessage::GetSnapshotAsync(s, r.other(), $1), *final(self)),
//@ sig self => &mut self
//@ sig ret => VxFuture
//@ start
    let ghost mut vx_s: Snapshot = arbitrary();
//@ subst DriverMessage::GetSnapshotAsync(__a, __b, __c) => ({ let vx_1 = __a; proof { vx_s = vx_1; } DriverMessage::GetSnapshotAsync(vx_1, __b, __c) })
//@ endfn
    proof { assert(vx_s.items@.len() == 0 && tells(*old(self), DriverMessage::GetSnapshotAsync(vx_s, $r.other(), $1), *self)); }
//@end
//@impl src/driver.rs TelemetryDriver : PutsSnapshot
//@ header impl TelemetryDriver
//@ fn put_snapshot
    ensures exists|x: Result<Snapshot, GetSnapshotError>| #[trigger] asked(*old(self), $2, *final(self), x) && match x { Ok(y) => final($1).items@ == old($1).items@ + y.items@, Err(_) => final($1).items@ == old($1).items@ },
//@ sig self => &mut self
//@ start
    let ghost mut vx_x: Result<Snapshot, GetSnapshotError> = arbitrary();
//@ subst __a.snapshot(__b) => ({ let vx_r = __a.snapshot(__b); proof { vx_x = vx_r; } vx_r })
//@ endfn
    proof { if vx_x is Ok { assert($1.items@ =~= old($1).items@ + vx_x->Ok_0.items@); } assert(asked(*old(self), $2, *self, vx_x)); }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $it.seq() == vx_x->Ok_0.items@, $1.items@ == old($1).items@ + vx_x->Ok_0.items@.take($it.index() as int),
//@end
//@impl src/driver.rs TelemetryDriver : ProcessesTelemetryMessages
//@ header impl TelemetryDriver
//@ fn process
    ensures nothing(r), *final(self) == *old(self),
//@end
/// The drop guard clears its flag when it is dropped, that is with the last handle.
//@impl src/driver.rs DropGuard : Drop
//@ header impl DropGuard
//@ fn drop
//@ start
    let ghost mut vx_w: Option<(int, bool)> = None;
//@ subst __a.store(__b, __c) => ({ let vx_v = __b; proof { vx_w = Some((__a.id(), vx_v)); } __a.store(vx_v, __c) })
//@ endfn
    proof { assert(vx_w == Some((self.is_running.id(), false))); }
//@end
//@if C28
//@owner C28
//@fn src/driver.rs report_elapsed_stats
    ensures $3 is Some ==> only_ratio($3->Some_0.instruments, final($3->Some_0).instruments) && (named($3->Some_0.instruments) ==> named(final($3->Some_0).instruments)),
//@end
//@else
//@impl src/driver.rs DriverMetrics
//@ fn update_post_collection
//@ assumed
//@end
//@fn src/driver.rs report_elapsed_stats
//@ assumed
//@end
//@fi
//@fn src/driver.rs log_outcome
//@ assumed
//@end
//@owner C25 C28
//@fn src/driver.rs telemetry_loop
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ flag mathadd
//@if C28
//@ start
    // the outcome of the latest run, until it has entered the metrics
    let ghost mut vx_due: Option<ProcessingOutcome> = None;
    // all runs and the number of snapshots so far
    let ghost mut vx_runs: Seq<ProcessingOutcome> = Seq::empty();
    let ghost mut vx_snaps: int = 0;
    let ghost vx_m = $4;
//@ subst do_a_run(__a, __b, __c) => ({ proof { assert($4 is Some ==> vx_due is None); } let vx_r = do_a_run(__a, __b, __c); proof { vx_due = Some(vx_r); } vx_r })
//@ subst put_values_into_snapshot(__a, __b, __c, __d, __e, __f) => ({ put_values_into_snapshot(__a, __b, __c, __d, __e, __f); proof { vx_snaps = vx_snaps + 1; } })
//@ subst __a.update_post_collection(__b, __c) => ({ let vx_o = __b; let vx_t = __c; let ghost vx_i = __a.instruments; proof { assert(vx_due == Some(*vx_o)); vx_due = None; } __a.update_post_collection(vx_o, vx_t); proof { small_before(vx_runs, *vx_o); if all_small(vx_runs.push(*vx_o)) { run_enters(vx_m->Some_0.instruments, vx_runs, vx_snaps, vx_i, *vx_o, vx_t, __a.instruments); } vx_runs = vx_runs.push(*vx_o); } })
//@ loop 0
    invariant $4 is Some ==> vx_due is None, $4 is Some == vx_m is Some,
        $4 is Some && all_small(vx_runs) ==> history(vx_m->Some_0.instruments, vx_runs, vx_snaps, $4->Some_0.instruments),
//@else
//@ start
    let ghost mut vx_d = VxState { ps: Seq::empty(), ss: Seq::empty(), strategy: $3, paused: false, phase: VxPhase::Ready };
    let ghost vx_metrics = $4 is Some;
//@ subst __a.load(__b) => ({ let vx_r = __a.load(__b); proof { assert(may_look(vx_d)); vx_d = looked(vx_d, vx_r); } vx_r })
//@ subst __a.try_recv() => ({ let vx_r = __a.try_recv(); proof { assert(may_poll(vx_d)); vx_d = polled(vx_d, vx_r); } vx_r })
//@ subst __a.send(__b) => ({ let vx_b = __a; let vx_s = __b; proof { assert(may_answer(vx_d, vx_b.back(), vx_s, vx_metrics, $1)); vx_d = VxState { phase: VxPhase::Polled, ..vx_d }; } vx_b.send(vx_s) })
//@ subst do_a_run(__a, __b, __c) => ({ let vx_max = __b; let vx_s = __c; proof { assert(may_run(vx_d, $m2~processors@, vx_max, vx_s)); } let vx_r = do_a_run(__a, vx_max, vx_s); proof { vx_d = VxState { ps: $m2~processors@, phase: VxPhase::Ready, ..vx_d }; } vx_r })
//@ endfn
    proof { assert(vx_d.phase is Stopped); }
//@ loop 0
    invariant_except_break may_look(vx_d), $m2~processors@ == vx_d.ps, $m3~snapshooters@ == vx_d.ss, $m4~processing_stragtegy == vx_d.strategy, $m5~paused == vx_d.paused, vx_metrics == $4 is Some,
    ensures vx_d.phase is Stopped,
//@fi
//@end
//@owner C25
// ---- starting it ----
/// a driver thread was started with these arguments
pub uninterp spec fn vx_started(de: Descriptives, flag: int, strategy: ProcessingStrategy, metrics: bool, chan: int) -> bool;
#[verifier::external_body] pub struct VxBuilder(u8);
pub struct VxHandle;
//@path thread::Builder::new => VxBuilder::new
impl VxBuilder {
    #[verifier::external_body] pub fn new() -> VxBuilder { unimplemented!() }
    #[verifier::external_body] pub fn name(self, n: String) -> VxBuilder { unimplemented!() }
    /// a thread can be created: the crate unwraps this result
    #[verifier::external_body] pub fn spawn<F: FnOnce()>(self, f: F) -> (r: Result<VxHandle, ()>) requires f.requires(()) ensures r is Ok { unimplemented!() }
}
//@fn src/driver.rs start_telemetry_loop
    ensures vx_started($1, $2.id(), $3, $4 is Some, $5.chan()),
//@ start
    let ghost vx_de = $1; let ghost vx_flag = $2.id(); let ghost vx_s = $3; let ghost vx_m = $4 is Some; let ghost vx_c = $5.chan();
    let ghost mut vx_n: int = 0;
//@ subst telemetry_loop(__a, __b, __c, __d, __e) => ({ let vx_1 = __a; let vx_2 = __b; let vx_3 = __c; let vx_4 = __d; let vx_5 = __e; proof { assert(vx_1 == vx_de && vx_2.id() == vx_flag && vx_3 == vx_s && (vx_4 is Some) == vx_m && vx_5.chan() == vx_c); } telemetry_loop(vx_1, vx_2, vx_3, vx_4, vx_5) })
//@ subst __a.spawn(__b) => ({ let vx_r = __a.spawn(__b); proof { vx_n = vx_n + 1; } vx_r })
//@ endfn
    // exactly one thread was started, and what it runs is the loop with exactly these arguments: this is what vx_started means
    proof { assert(vx_n == 1); assume(vx_started(vx_de, vx_flag, vx_s, vx_m, vx_c)); }
//@end
//@impl src/driver.rs Descriptives : Default
//@ header impl Descriptives
//@ fn default
    ensures r.name is None && r.title is None && r.description is None,
//@end
/// derived
impl Clone for Descriptives { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@if C28
//@owner C28
//@impl src/driver.rs DriverInstruments : Default
//@ header impl DriverInstruments
//@ fn default
    ensures named(r), untouched(r),
//@end
//@owner C25
//@else
//@impl src/driver.rs DriverInstruments : Default
//@ header impl DriverInstruments
//@ fn default
//@ assumed
//@end
//@fi
/// The handle talks to the thread that was started for it, and its guard holds the flag that thread looks at, which was set at first.
pub open spec fn connected_driver(r: TelemetryDriver, name: Option<String>, title: Option<String>, description: Option<String>, strategy: ProcessingStrategy, metrics: bool) -> bool {
    &&& r.descriptives == (Descriptives { name, title, description }) && r.sender.queue().len() == 0
    &&& r.drop_guard.is_running.initially() && vx_started(r.descriptives, r.drop_guard.is_running.id(), strategy, metrics, r.sender.chan())
}
//@impl src/driver.rs TelemetryDriver
//@ fn new
    ensures connected_driver(r, $1, $2, $3, $4, $5),
//@end
/// 30 seconds, but not for delta observations
pub open spec fn default_strategy(s: ProcessingStrategy) -> bool { s matches ProcessingStrategy::DropOlderThan { max_age, drop_deltas } && max_age.ns() == 30_000_000_000 && !drop_deltas }
//@impl src/processor.rs ProcessingStrategy : Default
//@ header impl ProcessingStrategy
//@ fn default
    ensures default_strategy(r),
//@end
//@impl src/driver.rs TelemetryDriver : Default
//@ header impl TelemetryDriver
//@ fn default
    ensures exists|s: ProcessingStrategy| default_strategy(s) && #[trigger] connected_driver(r, None, None, None, s, true),
//@end
//@item src/driver.rs struct DriverBuilder
//@impl src/driver.rs DriverBuilder : Default
//@ header impl DriverBuilder
//@ fn default
    ensures r.name is None && r.title is None && r.description is None && default_strategy(r.processing_strategy) && r.with_driver_metrics,
//@end
//@impl src/driver.rs DriverBuilder
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.name is Some && call_ensures(<T as Into<String>>::into, ($1,), r.name.unwrap()), r.title is None && r.description is None && default_strategy(r.processing_strategy) && r.with_driver_metrics,
//@ fn set_name
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.name is Some && call_ensures(<T as Into<String>>::into, ($1,), r.name.unwrap()), r == (DriverBuilder { name: r.name, ..self }),
//@ fn set_title
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.title is Some && call_ensures(<T as Into<String>>::into, ($1,), r.title.unwrap()), r == (DriverBuilder { title: r.title, ..self }),
//@ fn set_description
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.description is Some && call_ensures(<T as Into<String>>::into, ($1,), r.description.unwrap()), r == (DriverBuilder { description: r.description, ..self }),
//@ fn set_processing_strategy
    ensures r == (DriverBuilder { processing_strategy: $1, ..self }),
//@ fn set_driver_metrics
    ensures r == (DriverBuilder { with_driver_metrics: $1, ..self }),
//@ fn build
    ensures connected_driver(r, self.name, self.title, self.description, self.processing_strategy, self.with_driver_metrics),
//@end
//@owner -
