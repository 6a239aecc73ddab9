#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include f64.inc
//@include snap.inc
//@include buckets.inc
//@include tracking.inc
//@include gauge.inc
//@include label_filter.inc
//@include update.inc
//@owner C05
//@type Self::Label => L
//@item src/instruments/gauge/gauge_adapter.rs enum GaugeUpdateStrategy ; #[verifier::reject_recursive_types(L)]
//@item src/instruments/gauge/gauge_adapter.rs struct GaugeAdapter ; #[verifier::reject_recursive_types(L)]
/// the update the strategy lets an observation apply to the gauge
pub open spec fn effect<L: PartialEq>(s: GaugeUpdateStrategy<L>, m: UpdateModifier<L>, o: Observation<L>) -> Option<Update> {
    match s {
        GaugeUpdateStrategy::Filter(f) => if f.acc(obs_label(o)) { Some(m.of(obs_label(o), obs_update(o))) } else { None },
        GaugeUpdateStrategy::DeltasOnly(f) => if f.acc(obs_label(o)) && (m.of(obs_label(o), obs_update(o)) matches Update::ObservationWithValue(ObservedValue::ChangedBy(_), _)) { Some(m.of(obs_label(o), obs_update(o))) } else { None },
        GaugeUpdateStrategy::IncDecOnLabels(i, d) => if i.acc(obs_label(o)) { Some(Update::ObservationWithValue(ObservedValue::ChangedBy(1), obs_time(o))) } else if d.acc(obs_label(o)) { Some(Update::ObservationWithValue(ObservedValue::ChangedBy(-1i64), obs_time(o))) } else { None },
    }
}
//@impl src/instruments/gauge/gauge_adapter.rs GaugeAdapter : HandlesObservations
//@ header impl<L: Eq + Send + 'static> GaugeAdapter<L>
//@ fn handle_observation
    requires vx_eq_ok::<L>(), effect(old(self).strategy, old(self).modify_update, *$1) matches Some(u) ==> can_update(old(self).gauge, u),
    ensures final(self).strategy == old(self).strategy, final(self).modify_update == old(self).modify_update,
        match effect(old(self).strategy, old(self).modify_update, *$1) { None => r == 0 && final(self).gauge == old(self).gauge, Some(u) => updated(old(self).gauge, final(self).gauge, u, r) },
//@end
//@impl src/instruments/gauge/gauge_adapter.rs GaugeAdapter
//@ fn new
    ensures r.gauge == $1, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && forall|l: L| #[trigger] f.acc(l),
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), f),
//@ fn for_label
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_labels_by_predicate
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> f.acc(l) == b),
//@ fn deltas_only
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), f),
//@ fn for_label_deltas_only
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels_deltas_only
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_labels_deltas_only_by_predicate
    ensures r.gauge == $2, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> f.acc(l) == b),
//@ fn inc_dec_on
    requires call_requires(<INCR as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<DECR as Into<LabelFilter<L>>>::into, ($2,)),
    ensures r.gauge == $3, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && call_ensures(<INCR as Into<LabelFilter<L>>>::into, ($1,), i) && call_ensures(<DECR as Into<LabelFilter<L>>>::into, ($2,), d),
//@ fn inc_dec_on_many
    ensures r.gauge == $3, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && (vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] i.acc(l) <==> exists|k: int| 0 <= k < $1.len() && #[trigger] vx_leq(l, $1@[k])) && (forall|l: L| #[trigger] d.acc(l) <==> exists|k: int| 0 <= k < $2.len() && #[trigger] vx_leq(l, $2@[k]))),
//@ fn inc_dec_by_predicates
    ensures r.gauge == $3, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && (vx_total::<L, PINC>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> i.acc(l) == b) && (vx_total::<L, PDEC>($2) ==> forall|l: L, b: bool| #[trigger] $2.ensures((&l,), b) ==> d.acc(l) == b),
//@ fn deaf
    ensures r.gauge == $1, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && forall|l: L| !(#[trigger] f.acc(l)),
//@ fn gauge
    ensures *r == self.gauge,
//@ fn gauge_mut
    ensures *r == old(self).gauge, *final(self) == (GaugeAdapter { gauge: *final(r), ..*old(self) }),
//@ fn into_inner
    ensures r == self.gauge,
//@end
//@include groutes.inc
//@owner -
} // verus!
fn main() {}
