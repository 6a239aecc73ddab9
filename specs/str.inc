// ---- strings: a String is its sequence of characters ----
pub axiom fn ax_str() ensures
    <String as PartialEqSpec<str>>::obeys_eq_spec(), <String as PartialEqSpec<String>>::obeys_eq_spec(),
    forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
    forall|a: String, b: String| #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@),
    <str as PartialEqSpec<String>>::obeys_eq_spec(), <String as PartialEqSpec<&str>>::obeys_eq_spec(), <&str as PartialEqSpec<String>>::obeys_eq_spec(),
    forall|a: &str, b: String| #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@),
    forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
    forall|a: &str, b: String| #[trigger] <&str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@),
    forall|a: String, b: String| #[trigger] a@ == #[trigger] b@ ==> a == b,
    <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec(),
    forall|b: &str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(b))@ == b@,
    <String as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec(), forall|b: String| #[trigger] <String as vstd::std_specs::convert::FromSpec<String>>::from_spec(b) == b;
/// Option<String>::as_deref
#[verifier::external_body]
pub fn vx_as_deref(a: &Option<String>) -> (r: Option<&str>) ensures match *a { Some(s) => r is Some && r.unwrap()@ == s@, None => r is None } { unimplemented!() }
/// <T as AsRef<str>>::as_ref
pub uninterp spec fn vx_asref_spec<T: ?Sized>(a: &T) -> Seq<char>;
#[verifier::external_body]
pub fn vx_asref<'a, T: AsRef<str>>(a: &'a T) -> (r: &'a str) ensures r@ == vx_asref_spec(a) { a.as_ref() }
/// `x.as_ref()` as a method (with the automatic references of the call)
pub trait VxAsRef { fn vx_as_ref(&self) -> (r: &str) ensures r@ == vx_asref_spec(self); }
impl<T: ?Sized> VxAsRef for T { #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
/// format!
pub uninterp spec fn vx_disp_spec<T: ?Sized>(a: &T) -> Seq<char>;
pub axiom fn ax_disp() ensures
    forall|s: &String| #[trigger] vx_disp_spec::<String>(s) == s@,
    forall|s: &&String| #[trigger] vx_disp_spec::<&String>(s) == (*s)@,
    forall|s: &&str| #[trigger] vx_disp_spec::<&str>(s) == (*s)@,
    forall|s: &str| #[trigger] vx_disp_spec::<str>(s) == s@;
#[verifier::external_body]
pub fn vx_disp<T: ?Sized>(a: &T) -> (r: String) ensures r@ == vx_disp_spec(a) { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub fn vx_log() {}
/// the string slice with these characters
pub uninterp spec fn vx_str(s: Seq<char>) -> &'static str;
pub axiom fn ax_view() ensures forall|s: Seq<char>| (#[trigger] vx_str(s))@ == s, forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b;
//@fnstart proof { ax_str(); ax_disp(); }
