// The equality of a label type: an equivalence relation (what `Eq` documents), computed by `==`.
pub open spec fn vx_leq<L: PartialEq>(a: L, b: L) -> bool { a.eq_spec(&b) }
pub open spec fn vx_eq_ok<L: PartialEq>() -> bool {
    &&& L::obeys_eq_spec()
    &&& forall|a: L| #[trigger] vx_leq(a, a)
    &&& forall|a: L, b: L| #[trigger] vx_leq(a, b) == vx_leq(b, a)
}
pub open spec fn vx_leqr<L: PartialEq>(a: &L, b: &L) -> bool { vx_leq(*a, *b) }
