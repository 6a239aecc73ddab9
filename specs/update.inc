//@owner C26
// ---- observations as updates ----
pub open spec fn obs_label<L>(o: Observation<L>) -> L { match o { Observation::Observed { label, .. } => label, Observation::ObservedOne { label, .. } => label, Observation::ObservedOneValue { label, .. } => label } }
pub open spec fn obs_time<L>(o: Observation<L>) -> Instant { match o { Observation::Observed { timestamp, .. } => timestamp, Observation::ObservedOne { timestamp, .. } => timestamp, Observation::ObservedOneValue { timestamp, .. } => timestamp } }
/// the update that carries the observation's count or value and its timestamp
pub open spec fn obs_update<L>(o: Observation<L>) -> Update { match o {
    Observation::Observed { count, timestamp, .. } => Update::Observations(count, timestamp),
    Observation::ObservedOne { timestamp, .. } => Update::Observation(timestamp),
    Observation::ObservedOneValue { value, timestamp, .. } => Update::ObservationWithValue(value, timestamp) } }
//@impl src/observation.rs Observation
//@ fn label
    ensures *r == obs_label(*self),
//@ fn timestamp
    ensures r == obs_time(*self),
//@end
impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a Observation<T>> for BorrowedLabelAndUpdate<'a, T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(o: &'a Observation<T>) -> Self { BorrowedLabelAndUpdate(&obs_label(*o), obs_update(*o)) } }
//@impl src/instruments/mod.rs BorrowedLabelAndUpdate : From
//@ fn from
//@end
/// Stand-in for `Box<dyn Fn(&L, Update) -> Update + Send>`: a total, deterministic function.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxModifier<L>(core::marker::PhantomData<L>);
impl<L> VxModifier<L> { pub uninterp spec fn of(&self, l: L, u: Update) -> Update; }
#[verifier::external_body]
pub fn vx_modify<L>(f: &VxModifier<L>, l: &L, u: Update) -> (r: Update) ensures r == f.of(*l, u) { unimplemented!() }
//@type Box<dyn Fn(&L, Update) -> Update + Send + 'static> => VxModifier<L>
//@item src/instruments/instrument_adapter.rs enum UpdateModifier ; #[verifier::reject_recursive_types(L)]
impl<L> UpdateModifier<L> { pub open spec fn of(&self, l: L, u: Update) -> Update { match self { UpdateModifier::KeepAsIs => u, UpdateModifier::Modify(f) => f.of(l, u) } } }
//@impl src/instruments/instrument_adapter.rs UpdateModifier
//@ fn modify
    ensures r == self.of(*$1, $2),
//@ flag substs_optional
//@ subst $i0~f(__a, __b) => vx_modify($i0~f, __a, __b)
//@end
//@owner -
