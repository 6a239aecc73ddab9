#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@include panel.inc
//@include names.inc
//@include decide.inc
//@include outcome.inc
//@owner C09
// ---- a processing run ----
pub type VxAnswer<L> = Result<TelemetryMessage<L>, TryRecvError>;
/// what a run changes
#[verifier::reject_recursive_types(L)]
pub ghost struct St<L> { pub cockpits: Seq<Cockpit<L>>, pub handlers: Seq<VxHandler<L>>, pub processed: int, pub dropped: int, pub updated: int }
pub open spec fn cvec_step<L: PartialEq>(a: Seq<Cockpit<L>>, o: Observation<L>, b: Seq<Cockpit<L>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] cockpit_step(a[i], o, b[i]) }
pub open spec fn cvec_ret<L: PartialEq>(a: Seq<Cockpit<L>>, o: Observation<L>, b: Seq<Cockpit<L>>, n: int) -> int decreases n { if n <= 0 { 0 } else { cvec_ret(a, o, b, n - 1) + cockpit_ret(a[n - 1], o, b[n - 1]) } }
pub broadcast proof fn lemma_cvec_ret<L: PartialEq>(a: Seq<Cockpit<L>>, o: Observation<L>, b: Seq<Cockpit<L>>, c: Seq<Cockpit<L>>, n: int)
    requires forall|j: int| 0 <= j < n ==> b[j] == c[j]
    ensures #[trigger] cvec_ret(a, o, b, n) == #[trigger] cvec_ret(a, o, c, n)
    decreases n
{ if n > 0 { lemma_cvec_ret(a, o, b, c, n - 1); } }
/// only the first cockpit of the given name is affected
pub open spec fn in_first<L>(a: Seq<Cockpit<L>>, n: Seq<char>, b: Seq<Cockpit<L>>, panels: Seq<Panel<L>>) -> bool {
    if first(a, n) < a.len() { b == a.update(first(a, n), b[first(a, n)]) && b[first(a, n)] == (Cockpit { panels: b[first(a, n)].panels, ..a[first(a, n)] }) && b[first(a, n)].panels@ == panels } else { b == a }
}
/// the effect of a message about the panels of the named cockpit
pub open spec fn changed<L: PartialEq>(a: Seq<Cockpit<L>>, m: VxAnswer<L>, b: Seq<Cockpit<L>>) -> bool {
    match m {
        Ok(TelemetryMessage::AddPanelToCockpit { cockpit_name, panel }) => in_first(a, cockpit_name@, b, add_named(a[first(a, cockpit_name@)].panels@, panel)),
        Ok(TelemetryMessage::RemovePanelFromCockpit { cockpit_name, panel_name }) => in_first(a, cockpit_name@, b, remove_named(a[first(a, cockpit_name@)].panels@, panel_name@)),
        _ => true,
    }
}
/// the effect of one answer of the queue
pub open spec fn msg_step<L: PartialEq>(d: ProcessingDecider, a: St<L>, m: VxAnswer<L>, b: St<L>) -> bool {
    match m {
        Ok(TelemetryMessage::Observation(o)) => if keeps(d, obs_time(o), obs_delta(o)) {
            &&& cvec_step(a.cockpits, o, b.cockpits) && vec_step(a.handlers, o, b.handlers)
            &&& b.updated == a.updated + cvec_ret(a.cockpits, o, b.cockpits, a.cockpits.len() as int) + vec_ret(a.handlers, o, b.handlers, a.handlers.len() as int)
            &&& b.processed == a.processed + 1 && b.dropped == a.dropped
        } else { b == St { dropped: a.dropped + 1, ..a } },
        Ok(TelemetryMessage::AddCockpit(c)) => b == St { cockpits: add_named(a.cockpits, c), processed: a.processed + 1, ..a },
        Ok(TelemetryMessage::RemoveCockpit(n)) => b == St { cockpits: remove_named(a.cockpits, n@), processed: a.processed + 1, ..a },
        Ok(TelemetryMessage::AddHandler(h)) => b == St { handlers: a.handlers.push(h), processed: a.processed + 1, ..a },
        Ok(TelemetryMessage::AddPanelToCockpit { cockpit_name, panel }) => b == (St { cockpits: b.cockpits, processed: a.processed + 1, ..a }) && in_first(a.cockpits, cockpit_name@, b.cockpits, add_named(a.cockpits[first(a.cockpits, cockpit_name@)].panels@, panel)),
        Ok(TelemetryMessage::RemovePanelFromCockpit { cockpit_name, panel_name }) => b == (St { cockpits: b.cockpits, processed: a.processed + 1, ..a }) && in_first(a.cockpits, cockpit_name@, b.cockpits, remove_named(a.cockpits[first(a.cockpits, cockpit_name@)].panels@, panel_name@)),
        Err(_) => b == a,
    }
}
/// the states s go through the answers one after the other
pub open spec fn chain<L: PartialEq>(d: ProcessingDecider, s: Seq<St<L>>, answers: Seq<VxAnswer<L>>) -> bool { s.len() == answers.len() + 1 && forall|i: int| 0 <= i < answers.len() ==> #[trigger] msg_step(d, s[i], answers[i], s[i + 1]) }
pub open spec fn st0<L>(p: TelemetryProcessor<L>) -> St<L> { St { cockpits: p.cockpits@, handlers: p.handlers@, processed: 0, dropped: 0, updated: 0 } }
/// the number of messages among the answers
pub open spec fn taken<L>(a: Seq<VxAnswer<L>>) -> nat decreases a.len() { if a.len() == 0 { 0 } else { taken(a.drop_last()) + if a.last() is Ok { 1nat } else { 0 } } }
pub broadcast proof fn lemma_taken<L>(a: Seq<VxAnswer<L>>, m: VxAnswer<L>) ensures #[trigger] taken(a.push(m)) == taken(a) + if m is Ok { 1nat } else { 0 } { assert(a.push(m).drop_last() =~= a); }
pub open spec fn is_gone<L>(a: VxAnswer<L>) -> bool { a matches Err(TryRecvError::Disconnected) }
pub open spec fn same_config<L>(a: TelemetryProcessor<L>, b: TelemetryProcessor<L>) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.snapshooters == b.snapshooters && a.max_inactivity_duration == b.max_inactivity_duration && a.show_activity_state == b.show_activity_state }
//@if C17
/// One run: it counts as activity exactly if a message was taken, and leaves the limit and the flags as they are.
pub open spec fn active_run<L: PartialEq>(a: TelemetryProcessor<L>, b: TelemetryProcessor<L>, answers: Seq<VxAnswer<L>>) -> bool {
    &&& b.receiver.polled() == a.receiver.polled() + answers
    &&& b.max_inactivity_duration == a.max_inactivity_duration && b.show_activity_state == a.show_activity_state
    &&& if taken(answers) > 0 { vx_is_now(b.last_activity_at) } else { b.last_activity_at == a.last_activity_at }
}
//@fi
/// One run: it polls the queue, the answers take effect one after the other, and the outcome is what they add up to.
pub open spec fn run<L: PartialEq>(a: TelemetryProcessor<L>, max: usize, strategy: ProcessingStrategy, b: TelemetryProcessor<L>, r: ProcessingOutcome, d: ProcessingDecider, answers: Seq<VxAnswer<L>>, s: Seq<St<L>>) -> bool {
    &&& decides(strategy, d) && chain(d, s, answers)
    &&& s[0] == st0(a)
    &&& b.receiver.polled() == a.receiver.polled() + answers
    &&& s.last() == (St { cockpits: b.cockpits@, handlers: b.handlers@, processed: r.processed as int, dropped: r.dropped as int, updated: r.instruments_updated as int })
    &&& taken(answers) <= max
    // it only stops early when the queue has nothing to give
    &&& answers.len() < max ==> answers.len() > 0 && answers.last() is Err
    &&& r.observations_enqueued == b.receiver.queued()
    &&& same_config(a, b)
    // once the senders are gone the processor stays silent
    &&& b.is_disconnected ==> answers.len() > 0 && is_gone(answers.last())
    &&& forall|i: int| 0 <= i < answers.len() ==> is_gone(#[trigger] answers[i]) ==> b.is_disconnected
}
pub proof fn lemma_chain_counts<L: PartialEq>(d: ProcessingDecider, s: Seq<St<L>>, answers: Seq<VxAnswer<L>>)
    requires chain(d, s, answers)
    ensures s.last().processed + s.last().dropped == s[0].processed + s[0].dropped + taken(answers)
    decreases answers.len()
{
    if answers.len() > 0 {
        let t = s.drop_last(); let q = answers.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] msg_step(d, t[i], q[i], t[i + 1]) by { assert(msg_step(d, s[i], answers[i], s[i + 1])); }
        lemma_chain_counts(d, t, q);
        assert(msg_step(d, s[answers.len() - 1], answers[answers.len() - 1], s[answers.len() - 1 + 1]));
    }
}
pub open spec fn obs_of<L>(m: VxAnswer<L>) -> Observation<L> { m->Ok_0->Observation_0 }
pub open spec fn name_of<L>(m: VxAnswer<L>) -> Seq<char> { match m { Ok(TelemetryMessage::AddPanelToCockpit { cockpit_name, .. }) => cockpit_name@, Ok(TelemetryMessage::RemovePanelFromCockpit { cockpit_name, .. }) => cockpit_name@, _ => Seq::empty() } }
pub open spec fn nowhere<L: PartialEq>(a: Seq<Cockpit<L>>, m: VxAnswer<L>, b: Seq<Cockpit<L>>) -> bool { b == a && forall|j: int| 0 <= j < a.len() ==> !named((#[trigger] a[j]).nm(), name_of(m)) }
pub proof fn lemma_chain_push<L: PartialEq>(d: ProcessingDecider, s: Seq<St<L>>, answers: Seq<VxAnswer<L>>, m: VxAnswer<L>, b: St<L>)
    requires chain(d, s, answers), msg_step(d, s.last(), m, b)
    ensures chain(d, s.push(b), answers.push(m)), taken(answers.push(m)) == taken(answers) + if m is Ok { 1nat } else { 0 }
{
    let t = s.push(b); let q = answers.push(m);
    assert(q.drop_last() =~= answers);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] msg_step(d, t[i], q[i], t[i + 1]) by { if i < answers.len() { assert(msg_step(d, s[i], answers[i], s[i + 1])); } }
}
//@impl src/processor.rs TelemetryProcessor : ProcessesTelemetryMessages
//@ header impl<L: Clone + Eq + Send + 'static> TelemetryProcessor<L>
//@if C17
//@ owner C17
//@ fn process
//@ flag asindex 3
//@ flag asindex 4
    requires vx_eq_ok::<L>(),
    ensures
        old(self).is_disconnected ==> *final(self) == *old(self) && r.processed == 0 && r.dropped == 0,
        !old(self).is_disconnected ==> exists|answers: Seq<VxAnswer<L>>| #[trigger] active_run(*old(self), *final(self), answers),
        r.processed + r.dropped == taken(final(self).receiver.polled().skip(old(self).receiver.polled().len() as int)),
//@ flag mathadd
//@ start
    let ghost mut vx_a: Seq<VxAnswer<L>> = Seq::empty();
    let ghost vx_p = self.receiver.polled();
    proof { ax_view(); ax_asref_string(); ax_some_now(); }
    broadcast use {lemma_vec_ret, lemma_cvec_ret, lemma_taken};
//@ endfn
    proof { assert((vx_p + vx_a).skip(vx_p.len() as int) =~= vx_a); assert(active_run(*old(self), *self, vx_a)); }
//@ subst self.receiver.try_recv() => ({ let vx_r = self.receiver.try_recv(); proof { vx_a = vx_a.push(vx_r); } vx_r })
//@ loop 0
    invariant
        vx_eq_ok::<L>(), self.receiver.polled() == vx_p + vx_a, $m1~processed + $m3~dropped == taken(vx_a), same_config(*old(self), *self), self.last_activity_at == old(self).last_activity_at,
        @while $m0~num_received <= $1,
    @while decreases $1 - $m0~num_received,
//@ loop 0 start
    proof { ax_view(); ax_asref_string(); }
    broadcast use {lemma_vec_ret, lemma_cvec_ret, lemma_taken};
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() >= 0,
//@ loop 2 attr
    #[verifier::loop_isolation(false)]
//@ loop 2
    invariant $it.seq().len() >= 0,
//@ loop 3 attr
    #[verifier::loop_isolation(false)]
//@ loop 3
    @index invariant vx_eq_ok::<L>(), $it.seq().len() == self.cockpits@.len(),
    @while invariant __i3 <= self.cockpits@.len(), __f3 ==> __i3 < self.cockpits@.len(),
    @while decreases self.cockpits@.len() - __i3 + if __f3 { 0int } else { 1int },
//@ loop 4 attr
    #[verifier::loop_isolation(false)]
//@ loop 4
    @index invariant vx_eq_ok::<L>(), $it.seq().len() == self.cockpits@.len(),
    @while invariant __i4 <= self.cockpits@.len(), __f4 ==> __i4 < self.cockpits@.len(),
    @while decreases self.cockpits@.len() - __i4 + if __f4 { 0int } else { 1int },
//@else
//@ owner C09 C10
//@ fn process
//@ flag asindex 3
//@ flag asindex 4
    requires vx_eq_ok::<L>(),
    ensures
        old(self).is_disconnected ==> *final(self) == *old(self) && r.processed == 0 && r.dropped == 0 && r.instruments_updated == 0 && r.observations_enqueued == 0,
        !old(self).is_disconnected ==> exists|d: ProcessingDecider, answers: Seq<VxAnswer<L>>, s: Seq<St<L>>| #[trigger] run(*old(self), $1, $2, *final(self), r, d, answers, s),
        // nothing is lost in the accounting
        r.processed + r.dropped == taken(final(self).receiver.polled().skip(old(self).receiver.polled().len() as int)),
//@ flag mathadd
//@ start
    let ghost mut vx_a: Seq<VxAnswer<L>> = Seq::empty();
    let ghost mut vx_s: Seq<St<L>> = seq![st0(*self)];
    let ghost vx_p = self.receiver.polled();
    proof { ax_view(); ax_asref_string(); ax_some_now(); }
    broadcast use {lemma_vec_ret, lemma_cvec_ret, lemma_taken};
//@ endfn
    proof { assert(run(*old(self), $1, $2, *self, $r, $n4~decider, vx_a, vx_s)); }
//@ subst self.receiver.try_recv() => ({ let vx_r = self.receiver.try_recv(); proof { vx_a = vx_a.push(vx_r); } vx_r })
//@ loop 0
    invariant_except_break
        chain($n4~decider, vx_s, vx_a), vx_s.last() == (St { cockpits: self.cockpits@, handlers: self.handlers@, processed: $m1~processed as int, dropped: $m3~dropped as int, updated: $m2~instruments_updated as int }),
        !self.is_disconnected, forall|i: int| 0 <= i < vx_a.len() ==> !is_gone(#[trigger] vx_a[i]),
        @while taken(vx_a) <= $m0~num_received <= vx_a.len(),
        @for taken(vx_a) <= $it.index() <= vx_a.len(), $it.seq().len() == $1,
    invariant
        vx_eq_ok::<L>(), vx_s.len() > 0, vx_s[0] == st0(*old(self)), self.receiver.polled() == vx_p + vx_a, taken(vx_a) <= $1, same_config(*old(self), *self), self.last_activity_at == old(self).last_activity_at,
        @while $m0~num_received <= $1,
    ensures
        vx_a.len() < $1 ==> vx_a.len() > 0 && vx_a.last() is Err,
        chain($n4~decider, vx_s, vx_a) || (vx_a.len() > 0 && chain($n4~decider, vx_s, vx_a.drop_last()) && vx_a.last() is Err),
        vx_s.last() == (St { cockpits: self.cockpits@, handlers: self.handlers@, processed: $m1~processed as int, dropped: $m3~dropped as int, updated: $m2~instruments_updated as int }),
        self.is_disconnected ==> vx_a.len() > 0 && is_gone(vx_a.last()), forall|i: int| 0 <= i < vx_a.len() ==> is_gone(#[trigger] vx_a[i]) ==> self.is_disconnected,
    @while decreases $1 - $m0~num_received,
//@ loop 0 start
    proof { ax_view(); ax_asref_string(); }
    broadcast use {lemma_vec_ret, lemma_cvec_ret, lemma_taken};
    let ghost vx_a0 = vx_a;
    let ghost vx_c0 = self.cockpits@;
    let ghost vx_h0 = self.handlers@;
//@ loop 0 end
    proof {
        let b = St { cockpits: self.cockpits@, handlers: self.handlers@, processed: $m1~processed as int, dropped: $m3~dropped as int, updated: $m2~instruments_updated as int };
        assert(vx_a.drop_last() =~= vx_a0);
        assert(msg_step($n4~decider, vx_s.last(), vx_a.last(), b));
        lemma_chain_push($n4~decider, vx_s, vx_a0, vx_a.last(), b);
        vx_s = vx_s.push(b);
    }
//@ loop 0 after
    proof {
        if vx_s.len() == vx_a.len() { assert(vx_a =~= vx_a.drop_last().push(vx_a.last())); lemma_chain_push($n4~decider, vx_s, vx_a.drop_last(), vx_a.last(), vx_s.last()); vx_s = vx_s.push(vx_s.last()); }
        lemma_chain_counts($n4~decider, vx_s, vx_a);
        assert((vx_p + vx_a).skip(vx_p.len() as int) =~= vx_a);
    }
//@ loop 1 before
    let ghost vx_b1 = $acc2~instruments_updated;
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == vx_c0.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == vx_c0[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] cockpit_step(vx_c0[j], obs_of(vx_a.last()), *final($it.seq()[j])),
        $acc2~instruments_updated == vx_b1 + cvec_ret(vx_c0, obs_of(vx_a.last()), finals($it.seq()), $it.index() as int),
//@ loop 2 before
    let ghost vx_b2 = $acc2~instruments_updated;
//@ loop 2 attr
    #[verifier::loop_isolation(false)]
//@ loop 2
    invariant $it.seq().len() == vx_h0.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == vx_h0[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] VxHandler::<L>::step(vx_h0[j], obs_of(vx_a.last()), *final($it.seq()[j])),
        $acc2~instruments_updated == vx_b2 + vec_ret(vx_h0, obs_of(vx_a.last()), finals($it.seq()), $it.index() as int),
//@ loop 3 attr
    #[verifier::loop_isolation(false)]
//@ loop 3
    @index invariant_except_break self.cockpits@ == vx_c0, forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.cockpits@[j]).nm(), name_of(vx_a.last())),
    @index invariant $it.seq().len() == vx_c0.len(), vx_eq_ok::<L>(),
    @index ensures changed(vx_c0, vx_a.last(), self.cockpits@) || nowhere(vx_c0, vx_a.last(), self.cockpits@),
    @while invariant __i3 <= self.cockpits@.len(), forall|j: int| 0 <= j < __i3 ==> !named((#[trigger] self.cockpits@[j]).nm(), name_of(vx_a.last())), __f3 ==> __i3 < self.cockpits@.len() && named(self.cockpits@[__i3 as int].nm(), name_of(vx_a.last())),
    @while decreases self.cockpits@.len() - __i3 + if __f3 { 0int } else { 1int },
//@ loop 3 start
    @index proof { if named(self.cockpits@[$it.index() as int].nm(), name_of(vx_a.last())) { lemma_first(vx_c0, name_of(vx_a.last()), $it.index() as int); } }
//@ loop 3 after
    @index proof { if nowhere(vx_c0, vx_a.last(), self.cockpits@) { lemma_first(vx_c0, name_of(vx_a.last()), vx_c0.len() as int); } }
    @while proof { lemma_first(self.cockpits@, name_of(vx_a.last()), __i3 as int); }
//@ loop 4 attr
    #[verifier::loop_isolation(false)]
//@ loop 4
    @index invariant_except_break self.cockpits@ == vx_c0, forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.cockpits@[j]).nm(), name_of(vx_a.last())),
    @index invariant $it.seq().len() == vx_c0.len(), vx_eq_ok::<L>(),
    @index ensures changed(vx_c0, vx_a.last(), self.cockpits@) || nowhere(vx_c0, vx_a.last(), self.cockpits@),
    @while invariant __i4 <= self.cockpits@.len(), forall|j: int| 0 <= j < __i4 ==> !named((#[trigger] self.cockpits@[j]).nm(), name_of(vx_a.last())), __f4 ==> __i4 < self.cockpits@.len() && named(self.cockpits@[__i4 as int].nm(), name_of(vx_a.last())),
    @while decreases self.cockpits@.len() - __i4 + if __f4 { 0int } else { 1int },
//@ loop 4 start
    @index proof { if named(self.cockpits@[$it.index() as int].nm(), name_of(vx_a.last())) { lemma_first(vx_c0, name_of(vx_a.last()), $it.index() as int); } }
//@ loop 4 after
    @index proof { if nowhere(vx_c0, vx_a.last(), self.cockpits@) { lemma_first(vx_c0, name_of(vx_a.last()), vx_c0.len() as int); } }
    @while proof { lemma_first(self.cockpits@, name_of(vx_a.last()), __i4 as int); }
//@fi
//@end
//@owner -
} // verus!
fn main() {}
