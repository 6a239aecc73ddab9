#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@item src/snapshot.rs struct Snapshot
//@item src/snapshot.rs enum ItemKind
//@include kinds.inc
//@include outcome.inc
//@include proc16.inc
//@include puts.inc
impl PutsSnapshot for VxProcessor {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
//@include snapfn.inc
//@include puts_mount.inc
//@include attach.inc
//@include driver.inc
//@include driversnap.inc
//@include loop.inc
} // verus!
fn main() {}
