// ---- attached mounts ----
//@item src/attached_mount.rs enum ScopedMountMessage
//@type CrossbeamReceiver<ScopedMountMessage> => VxMountRx
//@type CrossbeamSender<ScopedMountMessage> => VxMountTx
//@if C25 C28
//@path crossbeam_channel::unbounded => vx_channel
//@else
//@path crossbeam_channel::unbounded => vx_mount_channel
//@fi
#[derive(Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }
pub type VxMountAnswer = Result<ScopedMountMessage, TryRecvError>;
/// Stand-ins for the ends of a crossbeam channel; `polled()`: everything the receiver has answered so far;
/// `queue()`: everything that was ever enqueued.
#[verifier::external_body]
pub struct VxMountRx(u8);
#[verifier::external_body]
pub struct VxMountTx(u8);
pub struct VxSendError;
impl VxMountRx {
    pub uninterp spec fn chan(&self) -> int;
    pub uninterp spec fn polled(&self) -> Seq<VxMountAnswer>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: VxMountAnswer) ensures final(self).polled() == old(self).polled().push(r), final(self).chan() == old(self).chan() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() }
}
impl VxMountTx {
    pub uninterp spec fn chan(&self) -> int;
    pub uninterp spec fn queue(&self) -> Seq<ScopedMountMessage>;
    pub uninterp spec fn gone(&self) -> bool;
    #[verifier::external_body]
    pub fn send(&mut self, m: ScopedMountMessage) -> (r: Result<(), VxSendError>)
        ensures final(self).chan() == old(self).chan(), match r { Ok(_) => final(self).queue() == old(self).queue().push(m), Err(_) => final(self).queue() == old(self).queue() && old(self).gone() } { unimplemented!() }
}
//@if C25 C28
/// crossbeam_channel::unbounded
pub trait VxTx: Sized { type Rx; spec fn ends(a: Self, b: Self::Rx) -> bool; }
impl VxTx for VxMountTx { type Rx = VxMountRx; open spec fn ends(a: Self, b: VxMountRx) -> bool { a.chan() == b.chan() && a.queue().len() == 0 } }
#[verifier::external_body] pub fn vx_channel<T: VxTx>() -> (r: (T, T::Rx)) ensures T::ends(r.0, r.1) { unimplemented!() }
//@fi
#[verifier::external_body]
pub fn vx_mount_channel() -> (r: (VxMountTx, VxMountRx)) ensures r.0.chan() == r.1.chan(), r.0.queue().len() == 0 { unimplemented!() }
//@item src/attached_mount.rs struct InternalAttachedMount
/// what one answer of the channel does to the mount
pub open spec fn adopt(k: ProcessorMount, x: VxMountAnswer, m: ProcessorMount) -> bool { match x {
    Ok(ScopedMountMessage::Processor(p)) => with_p(k, p, m),
    Ok(ScopedMountMessage::Snapshooter(s)) => with_s(k, s, m),
    Err(_) => m == k } }
/// the components pending in the channel are adopted in the order they were attached
pub open spec fn adopts(a: ProcessorMount, q: Seq<VxMountAnswer>, m: ProcessorMount) -> bool decreases q.len() {
    if q.len() == 0 { m == a } else { exists|k: ProcessorMount| adopts(a, q.drop_last(), k) && #[trigger] adopt(k, q.last(), m) }
}
/// the receiver is polled until it answers that there is nothing
pub open spec fn ended(q: Seq<VxMountAnswer>) -> bool { q.len() > 0 && q.last() is Err && (forall|i: int| 0 <= i < q.len() - 1 ==> (#[trigger] q[i]) is Ok) }
pub proof fn lemma_adopts(a: ProcessorMount, q: Seq<VxMountAnswer>, k: ProcessorMount, x: VxMountAnswer, m: ProcessorMount)
    requires adopts(a, q, k), adopt(k, x, m)
    ensures adopts(a, q.push(x), m)
{ assert(q.push(x).drop_last() =~= q); assert(adopts(a, q.push(x).drop_last(), k) && adopt(k, q.push(x).last(), m)); }
/// Everything that is pending is adopted - the receiver is polled until it has nothing to give - and then the mount runs.
pub open spec fn attached_runs(a: InternalAttachedMount, max: usize, s: ProcessingStrategy, b: InternalAttachedMount, r: ProcessingOutcome, q: Seq<VxMountAnswer>, m: ProcessorMount) -> bool {
    &&& adopts(a.inner, q, m) && ProcessorMount::runs(m, max, s, b.inner, r)
    &&& match a.receiver {
        None => q.len() == 0 && b.receiver is None,
        Some(rx) => q.len() > 0 && q.last() is Err && (forall|i: int| 0 <= i < q.len() - 1 ==> (#[trigger] q[i]) is Ok)
            // it stays attached until all handles are gone
            && match q.last() { Err(TryRecvError::Empty) => b.receiver is Some && b.receiver.unwrap().chan() == rx.chan() && b.receiver.unwrap().polled() == rx.polled() + q, _ => b.receiver is None },
    }
}
//@impl src/attached_mount.rs InternalAttachedMount : ProcessesTelemetryMessages
//@ add
    open spec fn runs(a: Self, max: usize, s: ProcessingStrategy, b: Self, r: ProcessingOutcome) -> bool { exists|q: Seq<VxMountAnswer>, m: ProcessorMount| #[trigger] attached_runs(a, max, s, b, r, q, m) }
//@ fn process
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ flag mutbind
//@ start
    let ghost mut vx_q: Seq<VxMountAnswer> = Seq::empty();
    let ghost mut vx_m = self.inner;
//@ endfn
    proof { assert(attached_runs(*old(self), $1, $2, *self, $r, vx_q, vx_m)); }
//@ subst __a.try_recv() => ({ let vx_r = __a.try_recv(); proof { if vx_r is Err { lemma_adopts(old(self).inner, vx_q, self.inner, vx_r, self.inner); } vx_q = vx_q.push(vx_r); } vx_r })
//@ loop 0
    @value invariant_except_break
    @loop invariant_except_break
    @cond invariant
        @cond !$f ==> (forall|i: int| 0 <= i < vx_q.len() ==> (#[trigger] vx_q[i]) is Ok), $f ==> ended(vx_q) && $m0~still_connected == (vx_q.last() matches Err(TryRecvError::Empty)), adopts(old(self).inner, vx_q, self.inner),
        @value adopts(old(self).inner, vx_q, self.inner), forall|i: int| 0 <= i < vx_q.len() ==> (#[trigger] vx_q[i]) is Ok,
        @loop adopts(old(self).inner, vx_q, self.inner), forall|i: int| 0 <= i < vx_q.len() ==> (#[trigger] vx_q[i]) is Ok, self.receiver is None,
        old(self).receiver is Some && $i0~the_receiver.polled() == old(self).receiver.unwrap().polled() + vx_q && $i0~the_receiver.chan() == old(self).receiver.unwrap().chan(),
    ensures
        @value $brk == (vx_q.last() matches Err(TryRecvError::Empty)),
        @loop self.receiver is Some <==> (vx_q.last() matches Err(TryRecvError::Empty)), self.receiver is Some ==> self.receiver.unwrap().polled() == old(self).receiver.unwrap().polled() + vx_q && self.receiver.unwrap().chan() == old(self).receiver.unwrap().chan(),
        old(self).receiver is Some && $i0~the_receiver.polled() == old(self).receiver.unwrap().polled() + vx_q && $i0~the_receiver.chan() == old(self).receiver.unwrap().chan(),
        adopts(old(self).inner, vx_q, self.inner), ended(vx_q),
//@ loop 0 start
    let ghost vx_q0 = vx_q; let ghost vx_m0 = self.inner;
//@ loop 0 end
    proof { lemma_adopts(old(self).inner, vx_q0, vx_m0, vx_q.last(), self.inner); assert(vx_q =~= vx_q0.push(vx_q.last())); }
//@ loop 0 after
    proof { vx_m = self.inner; }
//@end
//@item src/attached_mount.rs struct AttachedMount
/// The component is sent to the mount it is attached to; it is lost only if that mount no longer exists.
pub open spec fn attaches(a: AttachedMount, m: ScopedMountMessage, b: AttachedMount) -> bool {
    b.sender.chan() == a.sender.chan() && (b.sender.queue() == a.sender.queue().push(m) || (b.sender.queue() == a.sender.queue() && a.sender.gone()))
}
/// the mount becomes the inner mount of a processor that is connected with the handle
pub open spec fn connected(p: InternalAttachedMount, m: ProcessorMount, h: AttachedMount) -> bool { p.inner == m && p.receiver is Some && p.receiver.unwrap().chan() == h.sender.chan() && h.sender.queue().len() == 0 }
//@impl src/attached_mount.rs InternalAttachedMount : PutsSnapshot
//@if C24 C17 C25 C28
//@ owner C17 C24
//@ add
    open spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool { ProcessorMount::puts(a.inner, pre, post, d) }
//@ fn put_snapshot
//@else
//@ header impl PutsSnapshot for InternalAttachedMount
//@fi
//@end
//@trait src/processor.rs AggregatesProcessors
//@ header pub trait AggregatesProcessors: Sized
//@ add
    spec fn adds_p(a: Self, p: VxProcessor, b: Self) -> bool;
    spec fn adds_s(a: Self, s: VxSnapshooter, b: Self) -> bool;
//@ fn add_processor
    ensures Self::adds_p(*old(self), vx_boxed_p::<P>($1), *final(self)),
//@ fn add_snapshooter
    ensures Self::adds_s(*old(self), vx_boxed_s::<S>($1), *final(self)),
//@ fn attached_mount
    ensures exists|p: InternalAttachedMount| #[trigger] connected(p, $1, r) && Self::adds_p(*old(self), vx_boxed_p(p), *final(self)),
//@ start
    let ghost vx_m = $1;
    let ghost mut vx_g: InternalAttachedMount = arbitrary();
//@ endfn
    proof { assert(connected(vx_g, vx_m, $r)); }
//@ subst self.add_processor(__a) => ({ let vx_p = __a; proof { vx_g = vx_p; } self.add_processor(vx_p); })
//@end
//@impl src/processor.rs ProcessorMount : AggregatesProcessors
//@ add
    open spec fn adds_p(a: Self, p: VxProcessor, b: Self) -> bool { with_p(a, p, b) }
    open spec fn adds_s(a: Self, s: VxSnapshooter, b: Self) -> bool { with_s(a, s, b) }
//@ fn add_processor
//@ fn add_snapshooter
//@end
//@impl src/attached_mount.rs AttachedMount : AggregatesProcessors
//@ add
    open spec fn adds_p(a: Self, p: VxProcessor, b: Self) -> bool { attaches(a, ScopedMountMessage::Processor(p), b) }
    open spec fn adds_s(a: Self, s: VxSnapshooter, b: Self) -> bool { attaches(a, ScopedMountMessage::Snapshooter(s), b) }
//@ fn add_processor
//@ fn add_snapshooter
//@end
//@impl src/attached_mount.rs AttachedMount
//@ fn put_processor
    ensures attaches(*old(self), ScopedMountMessage::Processor(vx_boxed_p::<P>($1)), *final(self)),
//@ sig self => &mut self
//@ fn put_snapshooter
    ensures attaches(*old(self), ScopedMountMessage::Snapshooter(vx_boxed_s::<S>($1)), *final(self)),
//@ sig self => &mut self
//@ fn attach_mount
    ensures exists|p: InternalAttachedMount| #[trigger] connected(p, $1, r) && attaches(*old(self), ScopedMountMessage::Processor(vx_boxed_p(p)), *final(self)),
//@ sig self => &mut self
//@ start
    let ghost vx_m = $1;
    let ghost mut vx_g: InternalAttachedMount = arbitrary();
//@ endfn
    proof { assert(connected(vx_g, vx_m, $r)); }
//@ subst self.put_processor(__a) => ({ let vx_p = __a; proof { vx_g = vx_p; } self.put_processor(vx_p); })
//@end
//@owner -
