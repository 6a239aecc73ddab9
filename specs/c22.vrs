#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include f64.inc
//@include conv.inc
//@include stdmeter.inc
/// Stand-in for `Box<dyn PutsSnapshot>`
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@include puts.inc
//@include snapfn.inc
//@impl src/observation.rs TimeUnit : Default
//@ header impl TimeUnit
//@ fn default
    ensures true,
//@end
//@include meter.inc
//@include set_meter.inc
} // verus!
fn main() {}
