#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include time.inc
//@include outcome.inc
//@include proc16.inc
//@include attach.inc
//@item src/snapshot.rs struct Snapshot
//@item src/snapshot.rs enum ItemKind
//@include driver.inc
} // verus!
fn main() {}
