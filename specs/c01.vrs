#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include eq.inc
//@include label_filter.inc
} // verus!
fn main() {}
