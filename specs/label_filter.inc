//@owner C01
/// Stand-in for `Box<dyn Fn(&L) -> bool + Send>`: a total, deterministic predicate.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxPred<L>(core::marker::PhantomData<L>);
impl<L> VxPred<L> { pub uninterp spec fn acc(&self, l: L) -> bool; }
#[verifier::external_body]
pub fn vx_call_pred<L>(p: &VxPred<L>, l: &L) -> (r: bool) ensures r == p.acc(*l) { unimplemented!() }
/// the predicate accepts every label as its argument
pub open spec fn vx_total<L, P: Fn(&L) -> bool>(p: P) -> bool { forall|l: &L| #[trigger] p.requires((l,)) }
#[verifier::external_body]
pub fn vx_box_pred<L, P: Fn(&L) -> bool>(p: P) -> (r: VxPred<L>)
    ensures vx_total::<L, P>(p) ==> (forall|l: L, b: bool| #[trigger] p.ensures((&l,), b) ==> r.acc(l) == b) && (forall|l: L| #[trigger] r.acc(l) ==> p.ensures((&l,), true)) && forall|l: L| !(#[trigger] r.acc(l)) ==> p.ensures((&l,), false),
{ unimplemented!() }
impl<L, P: Fn(&L) -> bool> VxBx<VxPred<L>> for P {
    open spec fn vx_b(self, r: VxPred<L>) -> bool { vx_total::<L, P>(self) ==> (forall|l: L, b: bool| #[trigger] self.ensures((&l,), b) ==> r.acc(l) == b) && (forall|l: L| #[trigger] r.acc(l) ==> self.ensures((&l,), true)) && forall|l: L| !(#[trigger] r.acc(l)) ==> self.ensures((&l,), false) }
}
#[verifier::external_body]
pub fn vx_contains<L: PartialEq>(v: &Vec<L>, l: &L) -> (r: bool)
    ensures vx_eq_ok::<L>() ==> r == exists|i: int| 0 <= i < v.len() && #[trigger] vx_leq(*l, v@[i]),
{ unimplemented!() }

//@type Box<dyn Fn(&L) -> bool + Send + 'static> => VxPred<L>
//@noinline new
//@item src/instruments/label_filter.rs enum LabelFilterInternal ; #[verifier::reject_recursive_types(L)]
//@item src/instruments/label_filter.rs struct LabelFilter ; #[verifier::reject_recursive_types(L)]
//@item src/instruments/label_filter.rs struct AcceptNoLabel
//@item src/instruments/label_filter.rs struct AcceptAllLabels
//@item src/instruments/label_filter.rs struct AcceptOneLabel
//@item src/instruments/label_filter.rs struct L
//@item src/instruments/label_filter.rs struct LabelPredicate
//@item src/instruments/label_filter.rs struct LP

/// The set of accepted labels.
pub open spec fn lfi_acc<L: PartialEq>(f: LabelFilterInternal<L>, l: L) -> bool {
    match f {
        LabelFilterInternal::AcceptNone => false,
        LabelFilterInternal::AcceptAll => true,
        LabelFilterInternal::One(a) => vx_leq(l, a),
        LabelFilterInternal::Two(a, b) => vx_leq(l, a) || vx_leq(l, b),
        LabelFilterInternal::Three(a, b, c) => vx_leq(l, a) || vx_leq(l, b) || vx_leq(l, c),
        LabelFilterInternal::Four(a, b, c, d) => vx_leq(l, a) || vx_leq(l, b) || vx_leq(l, c) || vx_leq(l, d),
        LabelFilterInternal::Five(a, b, c, d, e) => vx_leq(l, a) || vx_leq(l, b) || vx_leq(l, c) || vx_leq(l, d) || vx_leq(l, e),
        LabelFilterInternal::Many(v) => exists|i: int| 0 <= i < v.len() && #[trigger] vx_leq(l, v@[i]),
        LabelFilterInternal::Predicate(p) => p.acc(l),
    }
}
impl<L: PartialEq> LabelFilter<L> {
    pub open spec fn acc(&self, l: L) -> bool { lfi_acc(self.internal, l) }
}

//@impl src/instruments/label_filter.rs LabelFilterInternal
//@ fn accept_none
    ensures forall|l: L| !(#[trigger] lfi_acc(r, l)),
//@ fn predicate
    ensures vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> lfi_acc(r, l) == b,
//@ subst Box::new(__a) => vx_box_pred(__a)
//@ fn add_label
    ensures vx_eq_ok::<L>() ==> forall|l: L| #[trigger] lfi_acc(*final(self), l) <==> (lfi_acc(*old(self), l) || vx_leq(l, $1)),
//@ start
    let ghost __o = *self;
//@ endfn
    proof {
        let o = __o;
        let n = *self;
        if vx_eq_ok::<L>() { if let LabelFilterInternal::Many(w) = n {
            assert forall|l: L| #[trigger] lfi_acc(n, l) <==> (lfi_acc(o, l) || vx_leq(l, $1)) by {
                if vx_leq(l, $1) { assert(vx_leq(l, w@[w.len() - 1])); }
                match o {
                    LabelFilterInternal::Many(v) => {
                        assert(w@ =~= v@.push($1));
                        if lfi_acc(o, l) { let i = choose|i: int| 0 <= i < v.len() && vx_leq(l, v@[i]); assert(vx_leq(l, w@[i])); }
                        if lfi_acc(n, l) { let i = choose|i: int| 0 <= i < w.len() && vx_leq(l, w@[i]); if i < v.len() { assert(vx_leq(l, v@[i])); } }
                    }
                    LabelFilterInternal::Five(a, b, c, d, e) => {
                        assert(w@ =~= seq![a, b, c, d, e, $1]);
                        if vx_leq(l, a) { assert(vx_leq(l, w@[0])); }
                        if vx_leq(l, b) { assert(vx_leq(l, w@[1])); }
                        if vx_leq(l, c) { assert(vx_leq(l, w@[2])); }
                        if vx_leq(l, d) { assert(vx_leq(l, w@[3])); }
                        if vx_leq(l, e) { assert(vx_leq(l, w@[4])); }
                    }
                    _ => {}
                }
            }
        } }
    }
//@ closure 0 #1: &L
    ensures vx_eq_ok::<L>() ==> b == (vx_leqr(#1, &label) || $i16~pred.acc(*#1))
//@ subst $i16~pred(__a) => vx_call_pred(&$i16~pred, __a)
//@ subst Box::new(__a) => vx_box_pred(__a)
//@ fn accepts
    ensures vx_eq_ok::<L>() ==> r == lfi_acc(*self, *$1),
//@ flag loops_optional
//@ start
    proof { if vx_eq_ok::<L>() { assert forall|x: L| #[trigger] vx_leq(*$1, x) == vx_leq(x, *$1) by { } } }
//@ loop 0
    @made invariant_except_break !$f,
    invariant
    @flag !$f ==> vx_eq_ok::<L>() ==> forall|j: int| 0 <= j < $it.index() ==> !vx_leq(*$1, #[trigger] self->Many_0@[j]),
    @flag $f ==> vx_eq_ok::<L>() ==> exists|j: int| 0 <= j < self->Many_0@.len() && vx_leq(*$1, #[trigger] self->Many_0@[j]),
        self is Many, $it.seq().len() == self->Many_0@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self->Many_0@[j],
    @made vx_eq_ok::<L>() ==> forall|j: int| 0 <= j < $it.index() ==> !vx_leq(*$1, #[trigger] self->Many_0@[j]),
    @plain vx_eq_ok::<L>() ==> forall|j: int| 0 <= j < $it.index() ==> !vx_leq(*$1, #[trigger] self->Many_0@[j]),
    @made ensures vx_eq_ok::<L>() ==> $f == exists|j: int| 0 <= j < self->Many_0@.len() && vx_leq(*$1, #[trigger] self->Many_0@[j]),
//@ loop 0 start
    proof { if vx_eq_ok::<L>() { let vx_x = self->Many_0@[$it.index() as int]; assert(vx_leq(vx_x, *$1) == vx_leq(*$1, vx_x)); } }
//@ subst __a.contains(__b) => vx_contains(__a, __b)
//@ subst $i16~pred(__a) => vx_call_pred($i16~pred, __a)
//@end
//@impl src/instruments/label_filter.rs LabelFilterInternal : Default
//@ fn default
    ensures r is AcceptAll,
//@end

//@impl src/instruments/label_filter.rs LabelFilter
//@ fn new
    ensures vx_eq_ok::<L>() ==> forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1),
//@ fn predicate
    ensures vx_total::<L, P>($1) ==> forall|l: L, b: bool| #[trigger] $1.ensures((&l,), b) ==> r.acc(l) == b,
//@ fn accept_all
    ensures forall|l: L| #[trigger] r.acc(l),
//@ fn accept_none
    ensures forall|l: L| !(#[trigger] r.acc(l)),
//@ fn accept_another
    ensures vx_eq_ok::<L>() ==> forall|l: L| #[trigger] final(self).acc(l) <==> (old(self).acc(l) || vx_leq(l, $1)),
//@ fn accepts
    ensures vx_eq_ok::<L>() ==> r == self.acc(*$1),
//@ fn create
    ensures r.internal == $1,
//@end

impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<L> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: L) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<L>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1)),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<AcceptAllLabels> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: AcceptAllLabels) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<AcceptAllLabels>
//@ fn from
    ensures forall|l: L| #[trigger] r.acc(l),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<AcceptNoLabel> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: AcceptNoLabel) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<AcceptNoLabel>
//@ fn from
    ensures forall|l: L| !(#[trigger] r.acc(l)),
//@end
impl<L: Eq + Send + 'static, P: Fn(&L) -> bool + Send + 'static> vstd::std_specs::convert::FromSpecImpl<LabelPredicate<P>> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: LabelPredicate<P>) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<LabelPredicate<P>>
//@ fn from
    ensures vx_total::<L, P>($1.0) ==> (forall|l: L, b: bool| #[trigger] $1.0.ensures((&l,), b) ==> r.acc(l) == b),
//@end
impl<L: Eq + Send + 'static, P: Fn(&L) -> bool + Send + 'static> vstd::std_specs::convert::FromSpecImpl<LP<P>> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: LP<P>) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<LP<P>>
//@ fn from
    ensures vx_total::<L, P>($1.0) ==> (forall|l: L, b: bool| #[trigger] $1.0.ensures((&l,), b) ==> r.acc(l) == b),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<AcceptOneLabel<L>> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: AcceptOneLabel<L>) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<AcceptOneLabel<L>>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1.0)),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<Vec<L>> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: Vec<L>) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<Vec<L>>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> (exists|i: int| 0 <= i < $1.len() && #[trigger] vx_leq(l, $1@[i]))),
//@ loop 0
    invariant $it.seq() == $1@, vx_eq_ok::<L>() ==> forall|l: L| #[trigger] $m0~f.acc(l) <==> (exists|i: int| 0 <= i < $it.index() && #[trigger] vx_leq(l, $1@[i])),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<(L, L)> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: (L, L)) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<(L, L)>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1.0) || vx_leq(l, $1.1)),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<(L, L, L)> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: (L, L, L)) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<(L, L, L)>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1.0) || vx_leq(l, $1.1) || vx_leq(l, $1.2)),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<(L, L, L, L)> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: (L, L, L, L)) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<(L, L, L, L)>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1.0) || vx_leq(l, $1.1) || vx_leq(l, $1.2) || vx_leq(l, $1.3)),
//@end
impl<L: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<(L, L, L, L, L)> for LabelFilter<L> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: (L, L, L, L, L)) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<(L, L, L, L, L)>
//@ fn from
    ensures vx_eq_ok::<L>() ==> (forall|l: L| #[trigger] r.acc(l) <==> vx_leq(l, $1.0) || vx_leq(l, $1.1) || vx_leq(l, $1.2) || vx_leq(l, $1.3) || vx_leq(l, $1.4)),
//@end
impl<LL: Eq + Send + 'static> vstd::std_specs::convert::FromSpecImpl<L<LL>> for LabelFilter<LL> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(o: L<LL>) -> Self; }
//@impl src/instruments/label_filter.rs LabelFilter : From<L<LL>>
//@ fn from
    ensures vx_eq_ok::<LL>() ==> (forall|l: LL| #[trigger] r.acc(l) <==> vx_leq(l, $1.0)),
//@end
//@impl src/instruments/label_filter.rs LabelFilter : Default
//@ header impl<L: Eq + Send + 'static> LabelFilter<L>
//@ fn default
    ensures forall|l: L| #[trigger] r.acc(l),
//@end
//@owner -
