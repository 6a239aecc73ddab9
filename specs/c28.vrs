#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include f64.inc
//@include conv.inc
/// Stand-in for From<Duration>: whole nanoseconds (decided by C13)
impl vstd::std_specs::convert::FromSpecImpl<Duration> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Duration) -> Self { ObservedValue::Duration(v.ns() as u64, TimeUnit::Nanoseconds) } }
impl From<Duration> for ObservedValue { #[verifier::external_body] fn from(v: Duration) -> (r: Self) { unimplemented!() } }
//@floats per_mille
//@include outcome.inc
//@include proc16.inc
//@include puts.inc
impl PutsSnapshot for VxProcessor {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
//@include snapfn.inc
//@include puts_mount.inc
//@include attach.inc
//@include driver.inc
//@include driversnap.inc
//@include loop.inc
} // verus!
fn main() {}
