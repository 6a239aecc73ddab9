// ---- observations, values, items ----
//@item src/observation.rs enum TimeUnit ; #[derive(Clone, Copy)]
//@item src/observation.rs enum ObservedValue ; #[derive(Clone, Copy)]
//@item src/observation.rs enum Observation
//@item src/lib.rs struct Increment
//@item src/lib.rs struct IncrementBy
//@item src/lib.rs struct Decrement
//@item src/lib.rs struct DecrementBy
//@item src/lib.rs struct ChangeBy
//@item src/instruments/mod.rs enum Update
//@item src/instruments/mod.rs struct LabelAndUpdate
//@item src/instruments/mod.rs struct BorrowedLabelAndUpdate
//@item src/snapshot.rs struct Snapshot
//@item src/snapshot.rs enum ItemKind
#[verifier::external_body]
pub fn vx_clone_update(u: &Update) -> (r: Update) ensures r == *u { unimplemented!() }
impl Clone for Update { fn clone(&self) -> (r: Self) ensures r == *self { vx_clone_update(self) } }
/// nanoseconds of a time unit
pub open spec fn per(u: TimeUnit) -> int { match u { TimeUnit::Nanoseconds => 1, TimeUnit::Microseconds => 1_000, TimeUnit::Milliseconds => 1_000_000, TimeUnit::Seconds => 1_000_000_000 } }
pub trait VxFrom<T>: Sized {
    spec fn vx_pre(v: T) -> bool;
    spec fn vx_post(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) requires Self::vx_pre(v) ensures Self::vx_post(v, r);
}
//@if C14 C15 C13 C20 C28
impl vstd::std_specs::convert::FromSpecImpl<i64> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i64) -> Self { ObservedValue::SignedInteger(v as i64) } }
//@impl src/observation.rs ObservedValue : From<i64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i32> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Self { ObservedValue::SignedInteger(v as i64) } }
//@impl src/observation.rs ObservedValue : From<i32>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i16> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i16) -> Self { ObservedValue::SignedInteger(v as i64) } }
//@impl src/observation.rs ObservedValue : From<i16>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i8> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i8) -> Self { ObservedValue::SignedInteger(v as i64) } }
//@impl src/observation.rs ObservedValue : From<i8>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u64> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> Self { ObservedValue::UnsignedInteger(v as u64) } }
//@impl src/observation.rs ObservedValue : From<u64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u32> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { ObservedValue::UnsignedInteger(v as u64) } }
//@impl src/observation.rs ObservedValue : From<u32>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u16> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> Self { ObservedValue::UnsignedInteger(v as u64) } }
//@impl src/observation.rs ObservedValue : From<u16>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u8> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> Self { ObservedValue::UnsignedInteger(v as u64) } }
//@impl src/observation.rs ObservedValue : From<u8>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<usize> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { ObservedValue::UnsignedInteger(v as u64) } }
//@impl src/observation.rs ObservedValue : From<usize>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<f64> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { ObservedValue::Float(v) } }
//@impl src/observation.rs ObservedValue : From<f64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<bool> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { ObservedValue::Bool(v) } }
//@impl src/observation.rs ObservedValue : From<bool>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<(u64, TimeUnit)> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (u64, TimeUnit)) -> Self { ObservedValue::Duration(v.0, v.1) } }
//@impl src/observation.rs ObservedValue : From<(u64, TimeUnit)>
//@ owner C13
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<Increment> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Increment) -> Self { ObservedValue::ChangedBy(1) } }
//@impl src/observation.rs ObservedValue : From<super::Increment>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<Decrement> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Decrement) -> Self { ObservedValue::ChangedBy((-1) as i64) } }
//@impl src/observation.rs ObservedValue : From<super::Decrement>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<IncrementBy> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IncrementBy) -> Self { ObservedValue::ChangedBy(v.0 as i64) } }
//@impl src/observation.rs ObservedValue : From<super::IncrementBy>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<DecrementBy> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: DecrementBy) -> Self { ObservedValue::ChangedBy((-(v.0 as int)) as i64) } }
//@impl src/observation.rs ObservedValue : From<super::DecrementBy>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<ChangeBy> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ChangeBy) -> Self { ObservedValue::ChangedBy(v.0) } }
//@impl src/observation.rs ObservedValue : From<super::ChangeBy>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end

//@if C13
/// what the two conversions below are proved to do, for those that call one of them
impl vstd::std_specs::convert::FromSpecImpl<Duration> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Duration) -> Self { ObservedValue::Duration(v.ns() as u64, TimeUnit::Nanoseconds) } }
impl From<Duration> for ObservedValue { #[verifier::external_body] fn from(v: Duration) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<(Duration, TimeUnit)> for ObservedValue { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: (Duration, TimeUnit)) -> Self { ObservedValue::Duration((v.0.ns() as int / per(v.1)) as u64, v.1) } }
impl From<(Duration, TimeUnit)> for ObservedValue { #[verifier::external_body] fn from(v: (Duration, TimeUnit)) -> (r: Self) { unimplemented!() } }
//@impl src/observation.rs ObservedValue : From<Duration>
//@ header impl VxFrom<Duration> for ObservedValue
//@ add
    open spec fn vx_pre(v: Duration) -> bool { v.ns() <= u64::MAX }
    open spec fn vx_post(v: Duration, r: Self) -> bool { r == ObservedValue::Duration(v.ns() as u64, TimeUnit::Nanoseconds) }
//@ fn from
//@end
//@impl src/observation.rs ObservedValue : From<(Duration, TimeUnit)>
//@ header impl VxFrom<(Duration, TimeUnit)> for ObservedValue
//@ add
    open spec fn vx_pre(v: (Duration, TimeUnit)) -> bool { v.0.ns() as int / per(v.1) <= u64::MAX }
    open spec fn vx_post(v: (Duration, TimeUnit), r: Self) -> bool { r == ObservedValue::Duration((v.0.ns() as int / per(v.1)) as u64, v.1) }
//@ fn from
//@end
//@fi
//@fi
//@if C14 C24 C03 C04 C05 C06 C07 C17 C18 C19 C20 C21 C22 C23 C28
//@include kinds.inc
//@fi
