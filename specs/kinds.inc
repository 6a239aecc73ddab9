impl vstd::std_specs::convert::FromSpecImpl<u64> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> Self { ItemKind::UInt(v as u64) } }
//@impl src/snapshot.rs ItemKind : From<u64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u32> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Self { ItemKind::UInt(v as u64) } }
//@impl src/snapshot.rs ItemKind : From<u32>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u16> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> Self { ItemKind::UInt(v as u64) } }
//@impl src/snapshot.rs ItemKind : From<u16>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<u8> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> Self { ItemKind::UInt(v as u64) } }
//@impl src/snapshot.rs ItemKind : From<u8>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<usize> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: usize) -> Self { ItemKind::UInt(v as u64) } }
//@impl src/snapshot.rs ItemKind : From<usize>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i64> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i64) -> Self { ItemKind::Int(v as i64) } }
//@impl src/snapshot.rs ItemKind : From<i64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i32> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Self { ItemKind::Int(v as i64) } }
//@impl src/snapshot.rs ItemKind : From<i32>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i16> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i16) -> Self { ItemKind::Int(v as i64) } }
//@impl src/snapshot.rs ItemKind : From<i16>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<i8> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i8) -> Self { ItemKind::Int(v as i64) } }
//@impl src/snapshot.rs ItemKind : From<i8>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<isize> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: isize) -> Self { ItemKind::Int(v as i64) } }
//@impl src/snapshot.rs ItemKind : From<isize>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<f64> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Self { ItemKind::Float(v) } }
//@impl src/snapshot.rs ItemKind : From<f64>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<bool> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Self { ItemKind::Boolean(v) } }
//@impl src/snapshot.rs ItemKind : From<bool>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<String> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { ItemKind::Text(v) } }
//@impl src/snapshot.rs ItemKind : From<String>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
impl vstd::std_specs::convert::FromSpecImpl<Snapshot> for ItemKind { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Snapshot) -> Self { ItemKind::Snapshot(v) } }
//@impl src/snapshot.rs ItemKind : From<Snapshot>
//@ owner C14
//@ fn from
//@ flag substs_optional
//@end
