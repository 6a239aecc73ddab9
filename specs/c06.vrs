#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include buckets.inc
} // verus!
fn main() {}
