#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@owner C26
//@impl src/instruments/mod.rs LabelAndUpdate : From
//@ header impl<T> LabelAndUpdate<T>
//@ fn from
    ensures r.0 == obs_label($1), r.1 == obs_update($1),
//@end
//@impl src/instruments/mod.rs Update
//@ fn observed_value
    ensures match (*self, r) { (Update::ObservationWithValue(v, _), Some(x)) => *x == v, (Update::ObservationWithValue(v, _), None) => false, (_, None) => true, _ => false },
//@end
/// What an implementor of `Updates` does with an update is its own contract: `upd` relates its state before, the
/// update, its state after and the number it reports.
pub trait Instrument: Sized {
    spec fn upd(pre: Self, with: Update, post: Self, r: usize) -> bool;
    fn update(&mut self, with: &Update) -> (r: usize) ensures Self::upd(*old(self), *with, *final(self), r);
}
//@type Self::Label => L
//@type Box<dyn Fn(&L, Update) -> Update + Send> => VxModifier<L>
pub open spec fn vx_total2<L, F: Fn(&L, Update) -> Update>(p: F) -> bool { forall|l: &L, u: Update| #[trigger] p.requires((l, u)) }
impl<L, F: Fn(&L, Update) -> Update> VxBx<VxModifier<L>> for F {
    open spec fn vx_b(self, r: VxModifier<L>) -> bool { vx_total2::<L, F>(self) ==> forall|l: L, u: Update| self.ensures((&l, u), #[trigger] r.of(l, u)) }
}
//@item src/instruments/instrument_adapter.rs struct InstrumentAdapter ; #[verifier::reject_recursive_types(L)]
//@impl src/instruments/instrument_adapter.rs InstrumentAdapter : HandlesObservations
//@ header impl<L: Eq + Send + 'static, I: Instrument> InstrumentAdapter<L, I>
//@ fn handle_observation
    requires vx_eq_ok::<L>(),
    ensures final(self).label_filter == old(self).label_filter, final(self).modify_update == old(self).modify_update,
        if old(self).label_filter.acc(obs_label(*$1)) {
            I::upd(old(self).instrument, old(self).modify_update.of(obs_label(*$1), obs_update(*$1)), final(self).instrument, r)
        } else { r == 0 && final(self).instrument == old(self).instrument },
//@end
//@impl src/instruments/instrument_adapter.rs InstrumentAdapter
//@ fn new
    ensures r.instrument == $1, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn accept
    requires call_requires(<F as Into<LabelFilter<L>>>::into, ($1,)),
    ensures r.instrument == $2, r.modify_update is KeepAsIs, call_ensures(<F as Into<LabelFilter<L>>>::into, ($1,), r.label_filter),
//@ fn for_label
    ensures r.instrument == $2, r.modify_update is KeepAsIs, vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> vx_leq(l, $1),
//@ fn for_labels
    ensures r.instrument == $2, r.modify_update is KeepAsIs, vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.label_filter.acc(l) <==> exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i]),
//@ fn by_predicate
    ensures r.instrument == $2, r.modify_update is KeepAsIs, vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.label_filter.acc(l) == b,
//@ fn deaf
    ensures r.instrument == $1, r.modify_update is KeepAsIs, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@ fn accept_no_labels
    ensures r.instrument == self.instrument, r.modify_update == self.modify_update, forall|l: L| !(#[trigger] r.label_filter.acc(l)),
//@ fn accept_all_labels
    ensures r.instrument == self.instrument, r.modify_update == self.modify_update, forall|l: L| #[trigger] r.label_filter.acc(l),
//@ fn modify_with
    ensures r.instrument == self.instrument, r.label_filter == self.label_filter, vx_total2::<L, F>($1) ==> forall|l: L, u: Update| $1.ensures((&l, u), #[trigger] r.modify_update.of(l, u)),
//@ fn instrument
    ensures *r == self.instrument,
//@end
//@impl src/instruments/instrument_adapter.rs InstrumentAdapter : From
//@ header impl<L: Clone + Eq + Send + 'static, I: Instrument> InstrumentAdapter<L, I>
//@ fn from
    ensures r.instrument == $1, r.modify_update is KeepAsIs, forall|l: L| #[trigger] r.label_filter.acc(l),
//@end
//@include routes.inc
//@owner -
} // verus!
fn main() {}
