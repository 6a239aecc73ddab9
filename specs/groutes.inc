//@impl src/instruments/gauge/mod.rs Gauge
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), f),
//@ fn for_label
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_all_labels
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (forall|l: L| #[trigger] f.acc(l)),
//@ fn for_labels_by_predicate
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> f.acc(l) == b),
//@ fn adapter
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && (forall|l: L| !(#[trigger] f.acc(l))),
//@ fn deltas_only
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), f),
//@ fn for_label_deltas_only
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> vx_leq(l, $1)),
//@ fn for_labels_deltas_only
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] f.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])),
//@ fn for_labels_deltas_only_by_predicate
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::DeltasOnly(f) && (vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> f.acc(l) == b),
//@ fn inc_dec_on
    requires call_requires(<INCR as Into<LabelFilter<L>>>::into, ($1,)), call_requires(<DECR as Into<LabelFilter<L>>>::into, ($2,)),
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && call_ensures(<INCR as Into<LabelFilter<L>>>::into, ($1,), i) && call_ensures(<DECR as Into<LabelFilter<L>>>::into, ($2,), d),
//@ fn inc_dec_on_many
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] i.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i])) && (vx_eq_ok::<L>() ==> forall|l: L| #[trigger] d.acc(l) <==> exists|i: int| 0 <= i < $2.len() && #[trigger] vx_leq(l, $2@[i])),
//@ fn inc_dec_by_predicates
    ensures r.gauge == self, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::IncDecOnLabels(i, d) && (vx_total::<L, PINC>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> i.acc(l) == b) && (vx_total::<L, PDEC>($2) ==> forall|l: L, b: bool| #[trigger] $2.ensures((&l,), b) ==> d.acc(l) == b),
//@end
//@impl src/instruments/gauge/gauge_adapter.rs GaugeAdapter : From
//@ header impl<L: Clone + Eq + Send + 'static> GaugeAdapter<L>
//@ fn from
    ensures r.gauge == $1, r.modify_update is KeepAsIs, r.strategy matches GaugeUpdateStrategy::Filter(f) && forall|l: L| #[trigger] f.acc(l),
//@end
