#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include eq.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include label_filter.inc
//@include update.inc
//@include handles.inc
//@include panel.inc
//@include puts.inc
//@include names.inc
//@include decide.inc
impl<L: PartialEq> PutsSnapshot for VxHandler<L> {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
impl<L: PartialEq, I> PutsSnapshot for InstrumentAdapter<L, I> {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
impl<L: PartialEq> PutsSnapshot for GaugeAdapter<L> {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
//@include snapfn.inc
//@include puts_tree.inc
//@if C17
//@include act.inc
//@fi
} // verus!
fn main() {}
