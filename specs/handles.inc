// ---- components that handle observations ----
/// usize addition of reported counts: assumed not to overflow
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
/// What a component does with an observation is its own contract: `step` relates its state before, the observation and
/// its state after; `ret` is the number of updated instruments it reports.
pub trait HandlesObservations: Sized {
    type Label: PartialEq;
    spec fn step(a: Self, o: Observation<Self::Label>, b: Self) -> bool;
    spec fn ret(a: Self, o: Observation<Self::Label>, b: Self) -> int;
    fn handle_observation(&mut self, observation: &Observation<Self::Label>) -> (r: usize)
        requires vx_eq_ok::<Self::Label>(),
        ensures Self::step(*old(self), *observation, *final(self)), r == Self::ret(*old(self), *observation, *final(self));
}
pub open spec fn opt_step<H: HandlesObservations>(a: Option<H>, o: Observation<H::Label>, b: Option<H>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => H::step(x, o, y), _ => false } }
pub open spec fn opt_ret<H: HandlesObservations>(a: Option<H>, o: Observation<H::Label>, b: Option<H>) -> int { match (a, b) { (Some(x), Some(y)) => H::ret(x, o, y), _ => 0 } }
pub open spec fn vec_step<H: HandlesObservations>(a: Seq<H>, o: Observation<H::Label>, b: Seq<H>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] H::step(a[i], o, b[i]) }
/// the sum of what the first n reported
pub open spec fn vec_ret<H: HandlesObservations>(a: Seq<H>, o: Observation<H::Label>, b: Seq<H>, n: int) -> int decreases n { if n <= 0 { 0 } else { vec_ret(a, o, b, n - 1) + H::ret(a[n - 1], o, b[n - 1]) } }
#[verifier::prophetic]
pub open spec fn finals<H>(s: Seq<&mut H>) -> Seq<H> { Seq::new(s.len(), |i: int| *final(s[i])) }
pub broadcast proof fn lemma_vec_ret<H: HandlesObservations>(a: Seq<H>, o: Observation<H::Label>, b: Seq<H>, c: Seq<H>, n: int)
    requires forall|j: int| 0 <= j < n ==> b[j] == c[j]
    ensures #[trigger] vec_ret(a, o, b, n) == #[trigger] vec_ret(a, o, c, n)
    decreases n
{ if n > 0 { lemma_vec_ret(a, o, b, c, n - 1); } }
/// Stand-in for `Box<dyn HandlesObservations<Label = L>>`
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxHandler<L>(core::marker::PhantomData<L>);
impl<L: PartialEq> HandlesObservations for VxHandler<L> {
    type Label = L;
    uninterp spec fn step(a: Self, o: Observation<L>, b: Self) -> bool;
    uninterp spec fn ret(a: Self, o: Observation<L>, b: Self) -> int;
    #[verifier::external_body] fn handle_observation(&mut self, o: &Observation<L>) -> (r: usize) { unimplemented!() }
}
/// Stand-in for `Box<dyn PutsSnapshot>`
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@type Box<dyn HandlesObservations<Label = L>> => VxHandler<L>
//@type Box<dyn PutsSnapshot> => VxSnapshooter
#[verifier::external_body] pub struct Counter(u8);
#[verifier::external_body] pub struct Meter(u8);
#[verifier::external_body] pub struct Histogram(u8);
/// adapters: their own contracts are decided by C26 and C05
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
#[verifier::reject_recursive_types(I)]
pub struct InstrumentAdapter<L, I>(core::marker::PhantomData<(L, I)>);
impl<L: PartialEq, I> HandlesObservations for InstrumentAdapter<L, I> {
    type Label = L;
    uninterp spec fn step(a: Self, o: Observation<L>, b: Self) -> bool;
    uninterp spec fn ret(a: Self, o: Observation<L>, b: Self) -> int;
    #[verifier::external_body] fn handle_observation(&mut self, o: &Observation<L>) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct GaugeAdapter<L>(core::marker::PhantomData<L>);
impl<L: PartialEq> HandlesObservations for GaugeAdapter<L> {
    type Label = L;
    uninterp spec fn step(a: Self, o: Observation<L>, b: Self) -> bool;
    uninterp spec fn ret(a: Self, o: Observation<L>, b: Self) -> int;
    #[verifier::external_body] fn handle_observation(&mut self, o: &Observation<L>) -> (r: usize) { unimplemented!() }
}
//@type Self::Label => L
//@optfield self.counter
//@optfield self.gauge
//@optfield self.meter
//@optfield self.histogram
//@item src/instruments/panel.rs struct Panel ; #[verifier::reject_recursive_types(L)]
//@item src/cockpit.rs struct Cockpit ; #[verifier::reject_recursive_types(L)]
pub open spec fn panel_config<L>(a: Panel<L>, b: Panel<L>) -> bool { a.label_filter == b.label_filter && a.name == b.name && a.title == b.title && a.description == b.description && a.snapshooters == b.snapshooters && a.max_inactivity_duration == b.max_inactivity_duration && a.show_activity_state == b.show_activity_state }
/// Every instrument, nested panel and handler of a panel that accepts the label is handed the observation exactly once;
/// if it does not, nothing changes.
pub open spec fn panel_step<L: PartialEq>(a: Panel<L>, o: Observation<L>, b: Panel<L>) -> bool decreases a, 0int {
    if !a.label_filter.acc(obs_label(o)) { b == a } else {
        &&& panel_config(a, b)
//@if C17
        &&& vx_is_now(b.last_update)
//@fi
        &&& opt_step(a.counter, o, b.counter) && opt_step(a.gauge, o, b.gauge) && opt_step(a.meter, o, b.meter) && opt_step(a.histogram, o, b.histogram)
        &&& vec_step(a.handlers@, o, b.handlers@)
        &&& a.panels@.len() == b.panels@.len() && panels_step(a.panels, o, b.panels, a.panels@.len() as int)
    }
}
pub open spec fn panels_step<L: PartialEq>(a: Vec<Panel<L>>, o: Observation<L>, b: Vec<Panel<L>>, n: int) -> bool decreases a, n {
    if n <= 0 || n > a@.len() { true } else { panels_step(a, o, b, n - 1) && panel_step(a@[n - 1], o, b@[n - 1]) }
}
pub open spec fn panel_ret<L: PartialEq>(a: Panel<L>, o: Observation<L>, b: Panel<L>) -> int decreases a, 0int {
    if !a.label_filter.acc(obs_label(o)) { 0 } else {
        opt_ret(a.counter, o, b.counter) + opt_ret(a.gauge, o, b.gauge) + opt_ret(a.meter, o, b.meter) + opt_ret(a.histogram, o, b.histogram)
            + panels_ret(a.panels, o, b.panels, a.panels@.len() as int) + vec_ret(a.handlers@, o, b.handlers@, a.handlers@.len() as int)
    }
}
pub open spec fn panels_ret<L: PartialEq>(a: Vec<Panel<L>>, o: Observation<L>, b: Vec<Panel<L>>, n: int) -> int decreases a, n {
    if n <= 0 || n > a@.len() { 0 } else { panels_ret(a, o, b, n - 1) + panel_ret(a@[n - 1], o, b@[n - 1]) }
}
pub open spec fn pret<L: PartialEq>(a: Seq<Panel<L>>, o: Observation<L>, b: Seq<Panel<L>>, n: int) -> int decreases n { if n <= 0 { 0 } else { pret(a, o, b, n - 1) + panel_ret(a[n - 1], o, b[n - 1]) } }
pub broadcast proof fn lemma_pret<L: PartialEq>(a: Seq<Panel<L>>, o: Observation<L>, b: Seq<Panel<L>>, c: Seq<Panel<L>>, n: int)
    requires forall|j: int| 0 <= j < n ==> b[j] == c[j]
    ensures #[trigger] pret(a, o, b, n) == #[trigger] pret(a, o, c, n)
    decreases n
{ if n > 0 { lemma_pret(a, o, b, c, n - 1); } }
/// every handler and every panel of a cockpit is handed the observation exactly once
pub open spec fn cockpit_config<L>(a: Cockpit<L>, b: Cockpit<L>) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.snapshooters == b.snapshooters && a.max_inactivity_duration == b.max_inactivity_duration && a.show_activity_state == b.show_activity_state }
pub open spec fn cockpit_step<L: PartialEq>(a: Cockpit<L>, o: Observation<L>, b: Cockpit<L>) -> bool {
    &&& cockpit_config(a, b)
//@if C17
    &&& vx_is_now(b.last_activity_at)
//@fi
    &&& vec_step(a.handlers@, o, b.handlers@)
    &&& a.panels@.len() == b.panels@.len() && forall|i: int| 0 <= i < a.panels@.len() ==> #[trigger] panel_step(a.panels@[i], o, b.panels@[i])
}
pub open spec fn cockpit_ret<L: PartialEq>(a: Cockpit<L>, o: Observation<L>, b: Cockpit<L>) -> int { vec_ret(a.handlers@, o, b.handlers@, a.handlers@.len() as int) + pret(a.panels@, o, b.panels@, a.panels@.len() as int) }
/// boxing a component
pub uninterp spec fn vx_boxed<L, H>(h: H) -> VxHandler<L>;
impl<L: PartialEq, H: HandlesObservations<Label = L>> VxBx<VxHandler<L>> for H { open spec fn vx_b(self, r: VxHandler<L>) -> bool { r == vx_boxed::<L, H>(self) } }
