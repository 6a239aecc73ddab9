#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@owner C15
//@item src/processor.rs enum TelemetryMessage ; #[verifier::reject_recursive_types(L)]
//@item src/processor.rs struct TelemetryProcessor ; #[verifier::reject_recursive_types(L)]
//@type Receiver<TelemetryMessage<L>> => VxReceiver<L>
//@type crossbeam_channel::Sender<TelemetryMessage<L>> => VxSender<L>
//@path channel::bounded => vx_bounded
//@path channel::unbounded => vx_unbounded
/// Stand-ins for crossbeam_channel's two ends. `queue()`: everything that was ever enqueued, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxReceiver<L>(core::marker::PhantomData<L>);
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxSender<L>(core::marker::PhantomData<L>);
pub struct VxSendError;
impl<L> VxReceiver<L> { pub uninterp spec fn chan(&self) -> int; }
impl<L> VxSender<L> {
    pub uninterp spec fn chan(&self) -> int;
    pub uninterp spec fn cap(&self) -> Option<usize>;
    pub uninterp spec fn queue(&self) -> Seq<TelemetryMessage<L>>;
    pub uninterp spec fn waiting(&self) -> nat;
    pub uninterp spec fn full(&self) -> bool;
    pub uninterp spec fn gone(&self) -> bool;
    #[verifier::external_body]
    pub fn send(&mut self, m: TelemetryMessage<L>) -> (r: Result<(), VxSendError>)
        ensures match r { Ok(_) => final(self).queue() == old(self).queue().push(m), Err(_) => final(self).queue() == old(self).queue() && old(self).gone() } { unimplemented!() }
    #[verifier::external_body]
    pub fn try_send(&mut self, m: TelemetryMessage<L>) -> (r: Result<(), VxSendError>)
        ensures match r { Ok(_) => final(self).queue() == old(self).queue().push(m), Err(_) => final(self).queue() == old(self).queue() && (old(self).gone() || old(self).full()) } { unimplemented!() }
    #[verifier::external_body] pub fn is_full(&self) -> (r: bool) ensures r == self.full() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.waiting() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.waiting() { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (r: Option<usize>) ensures r == self.cap() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bounded<L>(n: usize) -> (r: (VxSender<L>, VxReceiver<L>)) ensures r.0.chan() == r.1.chan(), r.0.cap() == Some(n), r.0.queue().len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_unbounded<L>() -> (r: (VxSender<L>, VxReceiver<L>)) ensures r.0.chan() == r.1.chan(), r.0.cap() is None, r.0.queue().len() == 0 { unimplemented!() }
/// The message is enqueued last; it is refused only if nobody can receive it or a non-blocking queue is full, and then
/// the queue is as it was.
pub open spec fn enqueues<L>(a: TelemetryTransmitter<L>, m: TelemetryMessage<L>, b: TelemetryTransmitter<L>) -> bool {
    &&& b.use_send == a.use_send
    &&& b.sender.queue() == a.sender.queue().push(m) || (b.sender.queue() == a.sender.queue() && (a.sender.gone() || (!a.use_send && a.sender.full())))
}
/// From<Duration>: proved in unit c13 under the precondition that the nanoseconds fit in 64 bits
impl vstd::std_specs::convert::FromSpecImpl<Duration> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(d: Duration) -> Self { ObservedValue::Duration(d.ns() as u64, TimeUnit::Nanoseconds) } }
impl From<Duration> for ObservedValue { #[verifier::external_body] fn from(d: Duration) -> (r: ObservedValue) { unimplemented!() } }
pub open spec fn vx_obsmsg<L>(o: Observation<L>) -> TelemetryMessage<L> { TelemetryMessage::Observation(o) }
pub open spec fn one<L>(label: L, timestamp: Instant) -> TelemetryMessage<L> { vx_obsmsg(Observation::ObservedOne { label, timestamp }) }
pub open spec fn many<L>(label: L, count: u64, timestamp: Instant) -> TelemetryMessage<L> { vx_obsmsg(Observation::Observed { label, count, timestamp }) }
pub open spec fn with_value<L>(label: L, value: ObservedValue, timestamp: Instant) -> TelemetryMessage<L> { vx_obsmsg(Observation::ObservedOneValue { label, value, timestamp }) }
pub open spec fn nanos(d: Duration) -> ObservedValue { ObservedValue::Duration(d.ns() as u64, TimeUnit::Nanoseconds) }
pub open spec fn ordered(a: Instant, b: Instant) -> bool { a.ns() <= b.ns() }
//@trait src/lib.rs TransmitsTelemetryData
//@ header pub trait TransmitsTelemetryData<L: PartialEq>: Sized
//@ add
    /// what handing over a message does to the transmitter
    spec fn sends(a: Self, m: TelemetryMessage<L>, b: Self) -> bool;
//@ fn transmit
    ensures Self::sends(*old(self), vx_obsmsg($1), *final(self)), *r == *final(self),
//@ sig self => &mut self
//@ fn observed
    ensures Self::sends(*old(self), many($1, $2, $3), *final(self)),
//@ sig self => &mut self
//@ fn observed_one
    ensures Self::sends(*old(self), one($1, $2), *final(self)),
//@ sig self => &mut self
//@ fn observed_one_value
    requires call_requires(<V as Into<ObservedValue>>::into, ($2,)),
    ensures exists|x: ObservedValue| #[trigger] call_ensures(<V as Into<ObservedValue>>::into, ($2,), x) && Self::sends(*old(self), with_value($1, x, $3), *final(self)),
//@ sig self => &mut self
//@ fn observed_duration
    ensures Self::sends(*old(self), with_value($1, nanos($2), $3), *final(self)),
//@ sig self => &mut self
//@ fn observed_now
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && Self::sends(*old(self), many($1, $2, t), *final(self)),
//@ sig self => &mut self
//@ fn observed_one_now
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && Self::sends(*old(self), one($1, t), *final(self)),
//@ sig self => &mut self
//@ fn observed_one_value_now
    requires call_requires(<V as Into<ObservedValue>>::into, ($2,)),
    ensures exists|t: Instant, x: ObservedValue| #[trigger] vx_is_now(t) && #[trigger] call_ensures(<V as Into<ObservedValue>>::into, ($2,), x) && Self::sends(*old(self), with_value($1, x, t), *final(self)),
//@ sig self => &mut self
//@ fn observed_one_duration_now
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && Self::sends(*old(self), with_value($1, nanos($2), t), *final(self)),
//@ sig self => &mut self
//@ fn measure_time
    ensures exists|t: Instant| #[trigger] vx_is_now(t) && if ordered($2, t) { Self::sends(*old(self), with_value($1, nanos(vx_duration(t.ns() - $2.ns())), t), *final(self)) } else { *final(self) == *old(self) },
//@ sig self => &mut self
//@ fn add_handler
    ensures Self::sends(*old(self), TelemetryMessage::AddHandler(vx_boxed::<L, H>($1)), *final(self)),
//@ sig self => &mut self
//@ fn add_cockpit
    ensures Self::sends(*old(self), TelemetryMessage::AddCockpit($1), *final(self)),
//@ sig self => &mut self
//@ fn remove_cockpit
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|n: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), n) && Self::sends(*old(self), TelemetryMessage::RemoveCockpit(n), *final(self)),
//@ sig self => &mut self
//@ fn add_panel_to_cockpit
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures exists|n: String| #[trigger] call_ensures(<T as Into<String>>::into, ($1,), n) && Self::sends(*old(self), TelemetryMessage::AddPanelToCockpit { cockpit_name: n, panel: $2 }, *final(self)),
//@ sig self => &mut self
//@ fn remove_panel_from_cockpit
    requires call_requires(<U as Into<String>>::into, ($1,)), call_requires(<V as Into<String>>::into, ($2,)),
    ensures exists|n: String, p: String| #[trigger] call_ensures(<U as Into<String>>::into, ($1,), n) && #[trigger] call_ensures(<V as Into<String>>::into, ($2,), p) && Self::sends(*old(self), TelemetryMessage::RemovePanelFromCockpit { cockpit_name: n, panel_name: p }, *final(self)),
//@ sig self => &mut self
//@end
//@item src/lib.rs struct TelemetryTransmitter ; #[verifier::reject_recursive_types(L)]
//@impl src/lib.rs TelemetryTransmitter
//@ fn send
    ensures enqueues(*old(self), $1, *final(self)), *r == *final(self),
//@ sig self => &mut self
//@ fn is_queue_full
    ensures r == self.sender.full(),
//@ fn is_queue_empty
    ensures r == (self.sender.waiting() == 0),
//@ fn queue_size
    ensures r == self.sender.waiting(),
//@ fn queue_capacity
    ensures r == self.sender.cap(),
//@end
//@impl src/lib.rs TelemetryTransmitter : TransmitsTelemetryData
//@ header impl<L: PartialEq + Send + 'static> TransmitsTelemetryData<L> for TelemetryTransmitter<L>
//@ add
    open spec fn sends(a: Self, m: TelemetryMessage<L>, b: Self) -> bool { enqueues(a, m, b) }
//@ fn transmit
//@ sig self => &mut self
//@ fn add_handler
//@ sig self => &mut self
//@ fn add_cockpit
//@ sig self => &mut self
//@ fn remove_cockpit
//@ sig self => &mut self
//@ fn add_panel_to_cockpit
//@ sig self => &mut self
//@ fn remove_panel_from_cockpit
//@ sig self => &mut self
//@end
//@if C17
//@impl src/processor.rs TelemetryProcessor
//@ owner C17
//@ fn create
    ensures vx_is_now(r.1.last_activity_at), r.1.max_inactivity_duration is None, r.1.show_activity_state,
//@ fn new_pair
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures vx_is_now(r.1.last_activity_at), r.1.max_inactivity_duration is None, r.1.show_activity_state,
//@ fn new_pair_bounded
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures vx_is_now(r.1.last_activity_at), r.1.max_inactivity_duration is None, r.1.show_activity_state,
//@ fn new_pair_without_name
    ensures vx_is_now(r.1.last_activity_at), r.1.max_inactivity_duration is None, r.1.show_activity_state,
//@ fn new_pair_bounded_without_name
    ensures vx_is_now(r.1.last_activity_at), r.1.max_inactivity_duration is None, r.1.show_activity_state,
//@end
//@else
//@impl src/processor.rs TelemetryProcessor
//@ fn create
    ensures r.0.use_send == $3, r.0.sender.cap() == $2, r.0.sender.chan() == r.1.receiver.chan(), r.0.sender.queue().len() == 0, r.1.name == $1, r.1.cockpits@.len() == 0, r.1.handlers@.len() == 0, r.1.snapshooters@.len() == 0, !r.1.is_disconnected,
//@ fn new_pair
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.0.use_send, r.0.sender.cap() is None, r.0.sender.chan() == r.1.receiver.chan(), r.1.name is Some, call_ensures(<T as Into<String>>::into, ($1,), r.1.name.unwrap()),
//@ fn new_pair_bounded
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.0.use_send == $3, r.0.sender.cap() == Some($2), r.0.sender.chan() == r.1.receiver.chan(), r.1.name is Some, call_ensures(<T as Into<String>>::into, ($1,), r.1.name.unwrap()),
//@ fn new_pair_without_name
    ensures r.0.use_send, r.0.sender.cap() is None, r.0.sender.chan() == r.1.receiver.chan(), r.1.name is None,
//@ fn new_pair_bounded_without_name
    ensures r.0.use_send == $2, r.0.sender.cap() == Some($1), r.0.sender.chan() == r.1.receiver.chan(), r.1.name is None,
//@end
//@fi
//@impl src/observation.rs Observation
//@ fn observed
    ensures r == (Observation::Observed { label: $1, count: $2, timestamp: $3 }),
//@ fn observed_one
    ensures r == (Observation::ObservedOne { label: $1, timestamp: $2 }),
//@ fn observed_one_value
    requires call_requires(<T as Into<ObservedValue>>::into, ($2,)),
    ensures r matches Observation::ObservedOneValue { label: l, value: x, timestamp: t } && l == $1 && t == $3 && call_ensures(<T as Into<ObservedValue>>::into, ($2,), x),
//@ fn observed_now
    ensures r matches Observation::Observed { label: l, count: c, timestamp: t } && l == $1 && c == $2 && vx_is_now(t),
//@ fn observed_one_now
    ensures r matches Observation::ObservedOne { label: l, timestamp: t } && l == $1 && vx_is_now(t),
//@ fn observed_one_value_now
    requires call_requires(<T as Into<ObservedValue>>::into, ($2,)),
    ensures r matches Observation::ObservedOneValue { label: l, value: x, timestamp: t } && l == $1 && vx_is_now(t) && call_ensures(<T as Into<ObservedValue>>::into, ($2,), x),
//@end
//@owner -
} // verus!
fn main() {}
