//@owner C02 C17
//@impl src/instruments/panel.rs Panel : HandlesObservations
//@ header impl<L: Eq + Send + 'static> Panel<L>
//@ fn handle_observation
    requires vx_eq_ok::<L>(),
    ensures panel_step(*old(self), *$1, *final(self)), r == panel_ret(*old(self), *$1, *final(self)),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ flag mathadd
//@ start
    broadcast use {lemma_vec_ret, lemma_pret};
//@ endfn
    proof { lemma_panels(old(self).panels, *$1, self.panels, old(self).panels@.len() as int); }
//@ loop 0 before
    let ghost vx_b0 = $acc0~instruments_updated;
//@ loop 0
    invariant vx_eq_ok::<L>(), $it.seq().len() == old(self).panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == old(self).panels@[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] panel_step(old(self).panels@[j], *$1, *final($it.seq()[j])),
        $acc0~instruments_updated == vx_b0 + pret(old(self).panels@, *$1, finals($it.seq()), $it.index() as int),
//@ loop 1 before
    let ghost vx_b1 = $acc0~instruments_updated;
//@ loop 1
    invariant vx_eq_ok::<L>(), $it.seq().len() == old(self).handlers@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == old(self).handlers@[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] VxHandler::<L>::step(old(self).handlers@[j], *$1, *final($it.seq()[j])),
        $acc0~instruments_updated == vx_b1 + vec_ret(old(self).handlers@, *$1, finals($it.seq()), $it.index() as int),
//@end
pub proof fn lemma_panels<L: Eq + Send + 'static>(a: Vec<Panel<L>>, o: Observation<L>, b: Vec<Panel<L>>, n: int)
    requires 0 <= n <= a@.len(), forall|j: int| 0 <= j < n ==> #[trigger] panel_step(a@[j], o, b@[j])
    ensures panels_step(a, o, b, n), panels_ret(a, o, b, n) == pret(a@, o, b@, n)
    decreases n
{ if n > 0 { lemma_panels(a, o, b, n - 1); assert(panel_step(a@[n - 1], o, b@[n - 1])); assert(panels_step(a, o, b, n - 1)); } }
//@impl src/cockpit.rs Cockpit : HandlesObservations
//@ header impl<L: Clone + Eq + Send + 'static> Cockpit<L>
//@ fn handle_observation
    requires vx_eq_ok::<L>(),
    ensures cockpit_step(*old(self), *$1, *final(self)), r == cockpit_ret(*old(self), *$1, *final(self)),
//@ flag mathadd
//@ start
    broadcast use {lemma_vec_ret, lemma_pret};
//@ loop 0 before
    let ghost vx_b0 = $acc0~instruments_updated;
//@ loop 0
    invariant vx_eq_ok::<L>(), $it.seq().len() == old(self).handlers@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == old(self).handlers@[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] VxHandler::<L>::step(old(self).handlers@[j], *$1, *final($it.seq()[j])),
        $acc0~instruments_updated == vx_b0 + vec_ret(old(self).handlers@, *$1, finals($it.seq()), $it.index() as int),
//@ loop 1 before
    let ghost vx_b1 = $acc0~instruments_updated;
//@ loop 1
    invariant vx_eq_ok::<L>(), $it.seq().len() == old(self).panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == old(self).panels@[j],
        forall|j: int| 0 <= j < $it.index() ==> #[trigger] panel_step(old(self).panels@[j], *$1, *final($it.seq()[j])),
        $acc0~instruments_updated == vx_b1 + pret(old(self).panels@, *$1, finals($it.seq()), $it.index() as int),
//@end
//@owner -
