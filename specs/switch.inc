// ---- names of inverted switches ----
/// contract-only stand-in for std::borrow::Cow (the variants carry exactly what std's do)
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
pub open spec fn cow<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
//@if C24
//@else
pub uninterp spec fn vx_string(s: Seq<char>) -> String;
//@fi
pub axiom fn ax_cow() ensures forall|s: Seq<char>| (#[trigger] vx_string(s))@ == s;
impl<'a> vstd::std_specs::convert::FromSpecImpl<Cow<'a, str>> for String { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Cow<'a, str>) -> Self { vx_string(cow(v)) } }
impl<'a> From<Cow<'a, str>> for String { #[verifier::external_body] fn from(v: Cow<'a, str>) -> String { unimplemented!() } }
//@item src/instruments/switches/mod.rs enum NameAlternation
/// the name under which the inverted state is shown
pub open spec fn alt_name(a: NameAlternation, n: Seq<char>) -> Seq<char> { match a { NameAlternation::Prefix(s) => s@ + n, NameAlternation::Postfix(s) => n + s@, NameAlternation::Rename(s) => s@ } }
//@impl src/instruments/switches/mod.rs NameAlternation
//@ fn adjust_name
    ensures cow(r) == alt_name(*self, $1@),
//@end
/// the state under the name, then the opposite state under the altered name if configured
pub open spec fn switch_items(n: Seq<char>, inv: Option<NameAlternation>, s: bool) -> Seq<(Seq<char>, ItemKind)> {
    match inv { None => seq![(n, ItemKind::Boolean(s))], Some(a) => seq![(n, ItemKind::Boolean(s)), (alt_name(a, n), ItemKind::Boolean(!s))] }
}
/// after the descriptive items exactly these named values were appended
pub open spec fn displays<T: Descriptive>(what: &T, n: Seq<char>, pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>, vals: Seq<(Seq<char>, ItemKind)>, descriptive: bool) -> bool {
    adds(desc(what, n, pre, descriptive), post, vals)
}
