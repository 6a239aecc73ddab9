#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include f64.inc
//@include snap.inc
//@include buckets.inc
//@include tracking.inc
//@include gauge.inc
//@include set_gauge.inc
} // verus!
fn main() {}
