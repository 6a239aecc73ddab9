pub mod vx_time { use super::*; verus! {
// ---- std::time as exact mathematical time (contract-only stand-ins for Instant and Duration) ----
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Instant { x: u128 }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Duration { x: u128 }
/// `vx_is_now(t)`: t is a reading of the clock made by the call under consideration.
pub uninterp spec fn vx_is_now(t: Instant) -> bool;
/// the points in time an Instant can represent: an interval
pub uninterp spec fn vx_in_range(ns: int) -> bool;
pub axiom fn ax_range() ensures forall|a: Instant, b: Instant, n: int| #![trigger a.ns(), b.ns(), vx_in_range(n)] a.ns() <= n <= b.ns() ==> vx_in_range(n);
/// the time from b to a, zero if b is later
pub open spec fn vx_since(a: int, b: int) -> nat { if a >= b { (a - b) as nat } else { 0 } }
impl Instant {
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body] pub fn now() -> (r: Instant) ensures vx_is_now(r) { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) ensures exists|n: Instant| #[trigger] vx_is_now(n) && r.ns() == vx_since(n.ns(), self.ns()) { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == vx_since(self.ns(), o.ns()) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) ensures r.ns() == vx_since(self.ns(), o.ns()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_duration_since(&self, o: Instant) -> (r: Option<Duration>) ensures self.ns() >= o.ns() ==> r is Some && r->Some_0.ns() == self.ns() - o.ns(), self.ns() < o.ns() ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(&self, d: Duration) -> (r: Option<Instant>) ensures vx_in_range(self.ns() - d.ns()) ==> r is Some && r->Some_0.ns() == self.ns() - d.ns(), !vx_in_range(self.ns() - d.ns()) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(&self, d: Duration) -> (r: Option<Instant>) ensures vx_in_range(self.ns() + d.ns()) ==> r is Some && r->Some_0.ns() == self.ns() + d.ns(), !vx_in_range(self.ns() + d.ns()) ==> r is None { unimplemented!() }
}
impl Duration {
    pub uninterp spec fn ns(&self) -> nat;
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r == self.ns() { unimplemented!() }
    #[verifier::external_body] pub fn as_micros(&self) -> (r: u128) ensures r == self.ns() / 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, o: Duration) -> (r: Duration) ensures r.ns() == vx_since(self.ns() as int, o.ns() as int) { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>) ensures self.ns() >= o.ns() ==> r is Some && r->Some_0.ns() == self.ns() - o.ns(), self.ns() < o.ns() ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn as_secs_f64(&self) -> f64 { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.ns() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn subsec_micros(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 / 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn subsec_millis(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> (r: Duration) requires s + n / 1_000_000_000 <= u64::MAX ensures r.ns() == s * 1_000_000_000 + n { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: Duration) -> (r: Option<Duration>) ensures self.ns() + o.ns() < 0x1_0000_0000_0000_0000 * 1_000_000_000 ==> r is Some && r->Some_0.ns() == self.ns() + o.ns(), self.ns() + o.ns() >= 0x1_0000_0000_0000_0000 * 1_000_000_000 ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(v: u64) -> (r: Duration) ensures r.ns() == v * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(v: u64) -> (r: Duration) ensures r.ns() == v * 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_micros(v: u64) -> (r: Duration) ensures r.ns() == v * 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_nanos(v: u64) -> (r: Duration) ensures r.ns() == v { unimplemented!() }
}
pub open spec fn vx_ord(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
impl PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Instant) -> bool { self.ns() == o.ns() } }
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, o: &Instant) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Instant { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> { Some(vx_ord(self.ns(), o.ns())) } }
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> { Some(vx_ord(self.ns() as int, o.ns() as int)) } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> Option<core::cmp::Ordering> { unimplemented!() } }
/// Instant - Duration, Instant + Duration, Instant - Instant: exact; the results are assumed to lie within the clock's range.
pub uninterp spec fn vx_instant(ns: int) -> Instant;
pub uninterp spec fn vx_duration(ns: int) -> Duration;
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
//@if C08
    open spec fn sub_req(self, d: Duration) -> bool { vx_in_range(self.ns() - d.ns()) }
//@else
    open spec fn sub_req(self, d: Duration) -> bool { true }
//@fi
    open spec fn sub_spec(self, d: Duration) -> Instant { vx_instant(self.ns() - d.ns()) }
}
impl core::ops::Sub<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn sub(self, d: Duration) -> Instant { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { vx_instant(self.ns() + d.ns()) }
}
impl core::ops::Add<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn add(self, d: Duration) -> Instant { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Duration> for Instant {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, d: Duration) -> bool { true }
    open spec fn add_assign_spec(&self, d: Duration) -> &Instant { &vx_instant(self.ns() + d.ns()) }
}
impl core::ops::AddAssign<Duration> for Instant { #[verifier::external_body] fn add_assign(&mut self, d: Duration) { unimplemented!() } }
//@if C25 C28
/// Instant - Instant saturates at zero; Duration - Duration panics if the result would be negative.
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { true }
    open spec fn sub_spec(self, o: Instant) -> Duration { vx_duration(vx_since(self.ns(), o.ns()) as int) }
}
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Duration) -> bool { self.ns() >= o.ns() }
    open spec fn sub_spec(self, o: Duration) -> Duration { vx_duration(self.ns() - o.ns()) }
}
impl core::ops::Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, d: Duration) -> Duration { unimplemented!() } }
//@else
/// Instant - Instant is required to be non-negative (std saturates at zero since 1.60; callers must not rely on it).
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { self.ns() >= o.ns() }
    open spec fn sub_spec(self, o: Instant) -> Duration { vx_duration(self.ns() - o.ns()) }
}
//@fi
impl core::ops::Sub<Instant> for Instant { type Output = Duration; #[verifier::external_body] fn sub(self, d: Instant) -> Duration { unimplemented!() } }
/// the clock can always be read
pub axiom fn ax_some_now() ensures exists|t: Instant| vx_is_now(t);
pub broadcast axiom fn ax_instant(n: int) ensures (#[trigger] vx_instant(n)).ns() == n;
pub broadcast axiom fn ax_duration(n: int) requires n >= 0 ensures (#[trigger] vx_duration(n)).ns() == n;
pub broadcast axiom fn ax_duration_range(d: Duration) ensures #[trigger] d.ns() < 0x1_0000_0000_0000_0000 * 1_000_000_000;
} }
pub use vx_time::*;
broadcast use {vx_time::ax_instant, vx_time::ax_duration, vx_time::ax_duration_range};
