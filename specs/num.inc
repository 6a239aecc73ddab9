// ---- lossless primitive conversions through From/Into (std) ----
pub axiom fn ax_num() ensures
    <i64 as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec(), forall|v: u32| #[trigger] <i64 as vstd::std_specs::convert::FromSpec<u32>>::from_spec(v) == v as i64,
    <i64 as vstd::std_specs::convert::FromSpec<i32>>::obeys_from_spec(), forall|v: i32| #[trigger] <i64 as vstd::std_specs::convert::FromSpec<i32>>::from_spec(v) == v as i64,
    <i64 as vstd::std_specs::convert::FromSpec<i16>>::obeys_from_spec(), forall|v: i16| #[trigger] <i64 as vstd::std_specs::convert::FromSpec<i16>>::from_spec(v) == v as i64,
    <i64 as vstd::std_specs::convert::FromSpec<i8>>::obeys_from_spec(), forall|v: i8| #[trigger] <i64 as vstd::std_specs::convert::FromSpec<i8>>::from_spec(v) == v as i64,
    <u64 as vstd::std_specs::convert::FromSpec<u32>>::obeys_from_spec(), forall|v: u32| #[trigger] <u64 as vstd::std_specs::convert::FromSpec<u32>>::from_spec(v) == v as u64,
;
//@fnstart proof { ax_num(); }
// ---- checked primitive conversions through TryFrom/TryInto (std) ----
pub axiom fn ax_try() ensures
    <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| i64::MIN <= v <= i64::MAX ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) == Ok::<i64, _>(v as i64), forall|v: u64| !(i64::MIN <= v <= i64::MAX) ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) is Err,
    <u64 as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec(), forall|v: i64| u64::MIN <= v <= u64::MAX ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) == Ok::<u64, _>(v as u64), forall|v: i64| !(u64::MIN <= v <= u64::MAX) ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) is Err,
    <i32 as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec(), forall|v: i64| i32::MIN <= v <= i32::MAX ==> #[trigger] <i32 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) == Ok::<i32, _>(v as i32), forall|v: i64| !(i32::MIN <= v <= i32::MAX) ==> #[trigger] <i32 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) is Err,
    <i32 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| i32::MIN <= v <= i32::MAX ==> #[trigger] <i32 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) == Ok::<i32, _>(v as i32), forall|v: u64| !(i32::MIN <= v <= i32::MAX) ==> #[trigger] <i32 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) is Err,
    <u32 as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec(), forall|v: i64| u32::MIN <= v <= u32::MAX ==> #[trigger] <u32 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) == Ok::<u32, _>(v as u32), forall|v: i64| !(u32::MIN <= v <= u32::MAX) ==> #[trigger] <u32 as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) is Err,
    <u32 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| u32::MIN <= v <= u32::MAX ==> #[trigger] <u32 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) == Ok::<u32, _>(v as u32), forall|v: u64| !(u32::MIN <= v <= u32::MAX) ==> #[trigger] <u32 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) is Err,
    <i64 as vstd::std_specs::convert::TryFromSpec<u128>>::obeys_try_from_spec(), forall|v: u128| i64::MIN <= v <= i64::MAX ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u128>>::try_from_spec(v) == Ok::<i64, _>(v as i64), forall|v: u128| !(i64::MIN <= v <= i64::MAX) ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<u128>>::try_from_spec(v) is Err,
    <i64 as vstd::std_specs::convert::TryFromSpec<i128>>::obeys_try_from_spec(), forall|v: i128| i64::MIN <= v <= i64::MAX ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<i128>>::try_from_spec(v) == Ok::<i64, _>(v as i64), forall|v: i128| !(i64::MIN <= v <= i64::MAX) ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<i128>>::try_from_spec(v) is Err,
    <u64 as vstd::std_specs::convert::TryFromSpec<u128>>::obeys_try_from_spec(), forall|v: u128| u64::MIN <= v <= u64::MAX ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<u128>>::try_from_spec(v) == Ok::<u64, _>(v as u64), forall|v: u128| !(u64::MIN <= v <= u64::MAX) ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<u128>>::try_from_spec(v) is Err,
    <u64 as vstd::std_specs::convert::TryFromSpec<i128>>::obeys_try_from_spec(), forall|v: i128| u64::MIN <= v <= u64::MAX ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<i128>>::try_from_spec(v) == Ok::<u64, _>(v as u64), forall|v: i128| !(u64::MIN <= v <= u64::MAX) ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<i128>>::try_from_spec(v) is Err,
    <usize as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(), forall|v: u64| usize::MIN <= v <= usize::MAX ==> #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) == Ok::<usize, _>(v as usize), forall|v: u64| !(usize::MIN <= v <= usize::MAX) ==> #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(v) is Err,
    <usize as vstd::std_specs::convert::TryFromSpec<i64>>::obeys_try_from_spec(), forall|v: i64| usize::MIN <= v <= usize::MAX ==> #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) == Ok::<usize, _>(v as usize), forall|v: i64| !(usize::MIN <= v <= usize::MAX) ==> #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<i64>>::try_from_spec(v) is Err,
    <u64 as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec(), forall|v: usize| u64::MIN <= v <= u64::MAX ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(v) == Ok::<u64, _>(v as u64), forall|v: usize| !(u64::MIN <= v <= u64::MAX) ==> #[trigger] <u64 as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(v) is Err,
    <i64 as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec(), forall|v: usize| i64::MIN <= v <= i64::MAX ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(v) == Ok::<i64, _>(v as i64), forall|v: usize| !(i64::MIN <= v <= i64::MAX) ==> #[trigger] <i64 as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(v) is Err,
;
//@fnstart proof { ax_try(); }
