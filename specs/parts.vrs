#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@include names.inc
pub trait PutsSnapshot: Sized {}
/// boxing a snapshooter
pub uninterp spec fn vx_boxed_s<S>(s: S) -> VxSnapshooter;
impl<S> VxBx<VxSnapshooter> for S { open spec fn vx_b(self, r: VxSnapshooter) -> bool { r == vx_boxed_s(self) } }
pub trait Instrument: Sized {}
/// x hands everything it gets to the instrument i, unchanged (the contract of InstrumentAdapter::new, see C26)
pub uninterp spec fn adapts<L, I>(x: InstrumentAdapter<L, I>, i: I) -> bool;
impl<L, I> InstrumentAdapter<L, I> {
    #[verifier::external_body] pub fn new(i: I) -> (r: Self) ensures adapts(r, i) { unimplemented!() }
}
//@include parts.inc
//@owner C10
//@impl src/cockpit.rs Cockpit
//@ fn get_panels
    ensures r@.len() == self.panels@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.panels@[j],
//@ loop 0
    invariant $it.seq().len() == self.panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.panels@[j],
        $acc0~list@.len() == $it.index(), forall|j: int| 0 <= j < $it.index() ==> #[trigger] $acc0~list@[j] == $it.seq()[j],
//@ fn get_panels_mut
    ensures r@.len() == old(self).panels@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == old(self).panels@[j] && *final(r@[j]) == final(self).panels@[j],
        final(self).panels@.len() == old(self).panels@.len(), *final(self) == (Cockpit { panels: final(self).panels, ..*old(self) }),
//@ loop 0
    invariant $it.seq().len() == old(self).panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == old(self).panels@[j],
        $acc0~list@.len() == $it.index(), forall|j: int| 0 <= j < $it.index() ==> #[trigger] $acc0~list@[j] == $it.seq()[j],
//@end
//@impl src/processor.rs TelemetryProcessor
//@ fn get_cockpits
    ensures r@.len() == self.cockpits@.len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == self.cockpits@[j],
//@ loop 0
    invariant $it.seq().len() == self.cockpits@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.cockpits@[j],
        $acc0~list@.len() == $it.index(), forall|j: int| 0 <= j < $it.index() ==> #[trigger] $acc0~list@[j] == $it.seq()[j],
//@end
//@owner -
} // verus!
fn main() {}
