// ---- putting components into snapshots ----
pub type Items = Seq<(String, ItemKind)>;
/// everything that was there is still there, in order
pub open spec fn grows(pre: Items, post: Items) -> bool { pre.len() <= post.len() && forall|i: int| 0 <= i < pre.len() ==> #[trigger] post[i] == pre[i] }
/// the string with these characters
pub uninterp spec fn vx_string(s: Seq<char>) -> String;
pub axiom fn ax_string() ensures forall|s: Seq<char>| (#[trigger] vx_string(s))@ == s, forall|a: String| #[trigger] vx_string(a@) == a;
pub open spec fn has_item(p: Items, n: Seq<char>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == n }
pub open spec fn text_item(n: Seq<char>, t: Seq<char>) -> (String, ItemKind) { (vx_string(n), ItemKind::Text(vx_string(t))) }
/// a descriptive item is added at most once and never replaces one that is already there
pub open spec fn with_text(p: Items, label: Seq<char>, text: Option<Seq<char>>) -> Items { if text is Some && !has_item(p, label) { p.push(text_item(label, text.unwrap())) } else { p } }
pub open spec fn with_descriptives(p: Items, tl: Seq<char>, dl: Seq<char>, title: Option<Seq<char>>, description: Option<Seq<char>>) -> Items { with_text(with_text(p, tl, title), dl, description) }
/// titles and descriptions only if requested
pub open spec fn described(p: Items, post: Seq<char>, title: Option<Seq<char>>, description: Option<Seq<char>>, d: bool) -> Items { if d { with_descriptives(p, "_title"@ + post, "_description"@ + post, title, description) } else { p } }
pub open spec fn view_of(a: Option<String>) -> Option<Seq<char>> { match a { Some(s) => Some(s@), None => None } }
pub open spec fn same_text(r: Option<&str>, a: Option<Seq<char>>) -> bool { match a { Some(s) => r is Some && r.unwrap()@ == s, None => r is None } }
/// the outcome of a search, asked for as an element (find, position) or as a yes (any)
pub trait VxHit { spec fn hit(&self) -> bool; }
impl<T> VxHit for Option<T> { open spec fn hit(&self) -> bool { self is Some } }
impl VxHit for bool { open spec fn hit(&self) -> bool { *self } }
//@owner C24 C25
/// declaration of the crate's trait; the implementations in use here are those of the components themselves
pub trait Descriptive {
    spec fn t(&self) -> Option<Seq<char>>;
    spec fn de(&self) -> Option<Seq<char>>;
    fn title(&self) -> (r: Option<&str>) ensures same_text(r, self.t());
    fn description(&self) -> (r: Option<&str>) ensures same_text(r, self.de());
}
//@item src/util.rs const TITLE_FIELD_LABEL
//@item src/util.rs const DESCRIPTION_FIELD_LABEL
pub proof fn lemma_label(p: Seq<char>) ensures
    ("_title"@ + "_"@) + p == "_title"@ + ("_"@ + p), ("_description"@ + "_"@) + p == "_description"@ + ("_"@ + p),
    "_title_"@ + p == "_title"@ + ("_"@ + p), "_description_"@ + p == "_description"@ + ("_"@ + p),
    "_title"@ + Seq::<char>::empty() == "_title"@, "_description"@ + Seq::<char>::empty() == "_description"@,
{
    reveal_strlit("_title"); reveal_strlit("_"); reveal_strlit("_title_"); reveal_strlit("_description"); reveal_strlit("_description_");
    assert(("_title"@ + "_"@) + p =~= "_title"@ + ("_"@ + p)); assert(("_description"@ + "_"@) + p =~= "_description"@ + ("_"@ + p));
    assert("_title_"@ =~= "_title"@ + "_"@); assert("_description_"@ =~= "_description"@ + "_"@);
    assert("_title"@ + Seq::<char>::empty() =~= "_title"@); assert("_description"@ + Seq::<char>::empty() =~= "_description"@);
}
//@fn src/util.rs put_descriptives
    ensures final($4).items@ == with_descriptives(old($4).items@, $2@, $3@, $1.t(), $1.de()), grows(old($4).items@, final($4).items@),
//@ start
    proof { ax_string(); }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    @made invariant_except_break !$f.hit(), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $2@,
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $2@,
    @flag !$f.hit() ==> forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $2@, $f.hit() ==> has_item($4.items@, $2@),
    $it.seq().len() == $4.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $4.items@[j],
    @made ensures $f.hit() == has_item($4.items@, $2@),
//@ loop 0 start
    proof { assert($4.items@[$it.index() as int].0@ == $2@ || !($4.items@[$it.index() as int].0@ == $2@)); }
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    @made invariant_except_break !$f.hit(), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $3@,
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $3@,
    @flag !$f.hit() ==> forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $4.items@[j]).0@ != $3@, $f.hit() ==> has_item($4.items@, $3@),
    $it.seq().len() == $4.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $4.items@[j],
    @made ensures $f.hit() == has_item($4.items@, $3@),
//@ loop 1 start
    proof { assert($4.items@[$it.index() as int].0@ == $3@ || !($4.items@[$it.index() as int].0@ == $3@)); }
//@end
//@fn src/util.rs put_default_descriptives
    ensures final($2).items@ == described(old($2).items@, Seq::empty(), $1.t(), $1.de(), $3), grows(old($2).items@, final($2).items@),
//@ start
    proof { lemma_label(Seq::empty()); }
//@end
//@fn src/util.rs put_postfixed_descriptives
    ensures final($3).items@ == described(old($3).items@, "_"@ + $2@, $1.t(), $1.de(), $4), grows(old($3).items@, final($3).items@),
//@ start
    proof { ax_string(); lemma_label($2@); }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    @made invariant_except_break !$f.hit(), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_title"@ + ("_"@ + $2@),
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_title"@ + ("_"@ + $2@),
    @flag !$f.hit() ==> forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_title"@ + ("_"@ + $2@), $f.hit() ==> has_item($3.items@, "_title"@ + ("_"@ + $2@)),
    $it.seq().len() == $3.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $3.items@[j],
    @made ensures $f.hit() == has_item($3.items@, "_title"@ + ("_"@ + $2@)),
//@ loop 0 start
    proof { assert($3.items@[$it.index() as int].0@ == "_title"@ + ("_"@ + $2@) || !($3.items@[$it.index() as int].0@ == "_title"@ + ("_"@ + $2@))); }
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    @made invariant_except_break !$f.hit(), forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_description"@ + ("_"@ + $2@),
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_description"@ + ("_"@ + $2@),
    @flag !$f.hit() ==> forall|j: int| 0 <= j < $it.index() ==> (#[trigger] $3.items@[j]).0@ != "_description"@ + ("_"@ + $2@), $f.hit() ==> has_item($3.items@, "_description"@ + ("_"@ + $2@)),
    $it.seq().len() == $3.items@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == $3.items@[j],
    @made ensures $f.hit() == has_item($3.items@, "_description"@ + ("_"@ + $2@)),
//@ loop 1 start
    proof { assert($3.items@[$it.index() as int].0@ == "_description"@ + ("_"@ + $2@) || !($3.items@[$it.index() as int].0@ == "_description"@ + ("_"@ + $2@))); }
//@end
//@owner -
/// What a component puts into a snapshot is its own contract, but everything that was there stays.
pub trait PutsSnapshot: Sized {
    spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool)
        ensures Self::puts(*self, old(into).items@, final(into).items@, descriptive), grows(old(into).items@, final(into).items@);
}
impl PutsSnapshot for VxSnapshooter {
    uninterp spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool;
    #[verifier::external_body] fn put_snapshot(&self, into: &mut Snapshot, d: bool) { unimplemented!() }
}
/// n components put something one after the other: t holds what was there in between
pub open spec fn trace(pre: Items, t: Seq<Items>, post: Items, n: int) -> bool { t.len() == n + 1 && t[0] == pre && t[n] == post }
pub open spec fn one<T>(x: Option<T>) -> int { if x is Some { 1 } else { 0 } }
pub open spec fn opt_puts<H: PutsSnapshot>(x: Option<H>, t: Seq<Items>, i: int, d: bool) -> bool { x matches Some(h) ==> H::puts(h, t[i], t[i + 1], d) }
pub open spec fn vec_puts<H: PutsSnapshot>(v: Seq<H>, t: Seq<Items>, i: int, d: bool) -> bool { forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> H::puts(v[j], t[i + j], t[i + j + 1], d) }
/// the nested snapshot l is appended under the name n
pub open spec fn nested(pre: Items, post: Items, n: String, l: Snapshot) -> bool { post == pre.push((n, ItemKind::Snapshot(l))) }
// ---- activity ----
/// the last activity lies no longer ago than the limit
pub open spec fn active(limit: Option<Duration>, last: Instant, now: Instant) -> bool { match limit { Some(d) => now.ns() - last.ns() <= d.ns(), None => true } }
pub open spec fn flags(p: Items, active: bool) -> Items { p.push((vx_string("_inactive"@), ItemKind::Boolean(!active))).push((vx_string("_active"@), ItemKind::Boolean(active))) }
/// The flags are shown exactly if there is a limit and they are wanted.
pub open spec fn with_flags(p: Items, limit: Option<Duration>, show: bool, active: bool) -> Items { if limit is Some && show { flags(p, active) } else { p } }
