/// std: `From<T> for T` is the identity
pub broadcast axiom fn ax_from_id<T>(v: T) ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(v) == v;
pub broadcast axiom fn ax_from_id_ok<T>() ensures #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec();
//@fnstart broadcast use {ax_from_id, ax_from_id_ok};
/// `Box::new(a)` where the box is one of the stand-ins for a boxed component
pub trait VxBx<B>: Sized { spec fn vx_b(self, b: B) -> bool; }
#[verifier::external_body] pub fn vx_bx<A: VxBx<B>, B>(a: A) -> (r: B) ensures <A as VxBx<B>>::vx_b(a, r) { unimplemented!() }
//@path Box::new => vx_bx
// ---- contracts assumed for std functions vstd does not specify ----
pub assume_specification<T> [std::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None };
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification [i64::abs] (a: i64) -> (r: i64) requires a > i64::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [i64::wrapping_neg] (a: i64) -> (r: i64) ensures r == (if a == i64::MIN { a as int } else { -a });
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>) ensures a == i64::MIN ==> r is None, a > i64::MIN ==> r == Some((-a) as i64);
pub assume_specification<T: Ord> [std::cmp::max::<T>] (a: T, b: T) -> (r: T) ensures call_ensures(<T as Ord>::max, (a, b), r);
pub assume_specification<T: Ord> [std::cmp::min::<T>] (a: T, b: T) -> (r: T) ensures call_ensures(<T as Ord>::min, (a, b), r);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i].eq_spec(x);
pub assume_specification<T> [bool::then_some::<T>] (b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification<T> [std::mem::drop::<T>] (v: T);
pub assume_specification<T: Default> [std::mem::take::<T>] (dest: &mut T) -> (r: T) ensures r == *old(dest), call_ensures(<T as Default>::default, (), *final(dest));
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T) ensures call_ensures(<T as Clone>::clone, (x,), r);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, d: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct ensures r == (match a { Ok(v) => v, Err(_) => d });
pub assume_specification [<String as std::convert::AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
