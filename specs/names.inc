//@owner C10
// ---- components with unique names ----
pub open spec fn named(a: Option<String>, n: Seq<char>) -> bool { a is Some && a.unwrap()@ == n }
/// the elements that are kept
pub open spec fn kept<T>(s: Seq<T>, k: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 || k.len() != s.len() { Seq::empty() } else if k.last() { kept(s.drop_last(), k.drop_last()).push(s.last()) } else { kept(s.drop_last(), k.drop_last()) } }
/// Vec::retain
#[verifier::external_body]
pub fn vx_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| #[trigger] f.requires((x,)),
    ensures exists|k: Seq<bool>| k.len() == old(v)@.len() && (forall|i: int| 0 <= i < k.len() ==> f.ensures((&old(v)@[i],), #[trigger] k[i])) && final(v)@ == #[trigger] kept(old(v)@, k)
{ unimplemented!() }
pub trait VxNamed { spec fn nm(&self) -> Option<String>; }
impl<L> VxNamed for Panel<L> { open spec fn nm(&self) -> Option<String> { self.name } }
impl<L> VxNamed for Cockpit<L> { open spec fn nm(&self) -> Option<String> { self.name } }
pub open spec fn has_name<T: VxNamed>(s: Seq<T>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && named((#[trigger] s[i]).nm(), n) }
/// a component with a name that is already present is not added
pub open spec fn add_named<T: VxNamed>(s: Seq<T>, x: T) -> Seq<T> { if x.nm() is Some && has_name(s, x.nm().unwrap()@) { s } else { s.push(x) } }
/// all components of that name are removed, the others keep their order
pub open spec fn remove_named<T: VxNamed>(s: Seq<T>, n: Seq<char>) -> Seq<T> decreases s.len() { if s.len() == 0 { s } else if named(s.last().nm(), n) { remove_named(s.drop_last(), n) } else { remove_named(s.drop_last(), n).push(s.last()) } }
pub proof fn lemma_kept<T: VxNamed>(s: Seq<T>, k: Seq<bool>, n: Seq<char>)
    requires k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == !named(s[i].nm(), n)
    ensures kept(s, k) == remove_named(s, n)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] k.drop_last()[i] == !named(s.drop_last()[i].nm(), n) by { assert(k.drop_last()[i] == k[i]); }
        lemma_kept(s.drop_last(), k.drop_last(), n);
        assert(k[s.len() - 1] == !named(s[s.len() - 1].nm(), n));
    } else { assert(s =~= Seq::<T>::empty()); }
}
pub broadcast proof fn lemma_retain<T: VxNamed>(s: Seq<T>, k: Seq<bool>, n: Seq<char>)
    requires k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == !named(s[i].nm(), n)
    ensures #[trigger] kept(s, k) == #[trigger] remove_named(s, n)
{ lemma_kept(s, k, n); }
/// index of the first component of that name
pub open spec fn first<T: VxNamed>(s: Seq<T>, n: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if named(s[0].nm(), n) { 0 } else { 1 + first(s.drop_first(), n) } }
pub proof fn lemma_first<T: VxNamed>(s: Seq<T>, n: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> !named((#[trigger] s[j]).nm(), n), i < s.len() ==> named(s[i].nm(), n)
    ensures first(s, n) == i
    decreases s.len()
{
    if s.len() > 0 && i > 0 {
        let t = s.drop_first();
        assert forall|j: int| 0 <= j < i - 1 implies !named((#[trigger] t[j]).nm(), n) by { assert(t[j] == s[j + 1]); }
        if i < s.len() { assert(t[i - 1] == s[i]); }
        assert(!named(s[0].nm(), n));
        lemma_first(t, n, i - 1);
    }
}
pub axiom fn ax_asref_string() ensures forall|s: &String| #[trigger] vx_asref_spec::<String>(s) == s@;
pub open spec fn named_as(r: Option<&str>, a: Option<String>) -> bool { match a { Some(n) => r is Some && r.unwrap()@ == n@, None => r is None } }
//@impl src/instruments/panel.rs Panel
//@ fn name
    ensures named_as(r, self.name),
//@end
//@impl src/cockpit.rs Cockpit
//@ fn get_name
    ensures named_as(r, self.name),
//@ fn add_panel
    ensures final(self).panels@ == add_named(old(self).panels@, $1), *final(self) == (Cockpit { panels: final(self).panels, ..*old(self) }),
//@ start
    proof { ax_view(); }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    @made invariant_except_break !$f, forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.panels@[j]).nm(), $1.nm().unwrap()@),
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.panels@[j]).nm(), $1.nm().unwrap()@),
    @flag !$f ==> forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.panels@[j]).nm(), $1.nm().unwrap()@), $f ==> has_name(self.panels@, $1.nm().unwrap()@),
    $it.seq().len() == self.panels@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.panels@[j], $1.nm() is Some,
    @made ensures $f == has_name(self.panels@, $1.nm().unwrap()@),
//@ loop 0 start
    proof { assert(named(self.panels@[$it.index() as int].nm(), $1.nm().unwrap()@) || !(named(self.panels@[$it.index() as int].nm(), $1.nm().unwrap()@))); }
//@ fn remove_panel
    ensures final(self).panels@ == remove_named(old(self).panels@, vx_asref_spec(&$1)), *final(self) == (Cockpit { panels: final(self).panels, ..*old(self) }),
//@ start
    let ghost vx_wanted = vx_asref_spec(&$1);
    proof { ax_view(); }
    broadcast use lemma_retain;
//@ closure 0 #1: &Panel<L>
    ensures b == !named(#1.nm(), vx_wanted)
//@ subst __a.as_ref() => __a.vx_as_ref()
//@end
//@item src/processor.rs enum TelemetryMessage ; #[verifier::reject_recursive_types(L)]
//@item src/processor.rs struct TelemetryProcessor ; #[verifier::reject_recursive_types(L)]
//@type Receiver<TelemetryMessage<L>> => VxReceiver<L>
/// Stand-in for crossbeam_channel::Receiver: `polled()` is the history of everything it has answered.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct VxReceiver<L>(core::marker::PhantomData<L>);
#[derive(Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }
impl<L> VxReceiver<L> {
    pub uninterp spec fn polled(&self) -> Seq<Result<TelemetryMessage<L>, TryRecvError>>;
    /// the number of messages in the queue
    pub uninterp spec fn queued(&self) -> nat;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<TelemetryMessage<L>, TryRecvError>) ensures final(self).polled() == old(self).polled().push(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.queued() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.queued() == 0) { unimplemented!() }
}
//@impl src/processor.rs TelemetryProcessor
//@ fn add_cockpit
    ensures final(self).cockpits@ == add_named(old(self).cockpits@, $1), *final(self) == (TelemetryProcessor { cockpits: final(self).cockpits, ..*old(self) }),
//@ start
    proof { ax_view(); }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    @made invariant_except_break !$f, forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.cockpits@[j]).nm(), $1.nm().unwrap()@),
    invariant
    @plain forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.cockpits@[j]).nm(), $1.nm().unwrap()@),
    @flag !$f ==> forall|j: int| 0 <= j < $it.index() ==> !named((#[trigger] self.cockpits@[j]).nm(), $1.nm().unwrap()@), $f ==> has_name(self.cockpits@, $1.nm().unwrap()@),
    $it.seq().len() == self.cockpits@.len(), forall|j: int| 0 <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == self.cockpits@[j], $1.nm() is Some,
    @made ensures $f == has_name(self.cockpits@, $1.nm().unwrap()@),
//@ loop 0 start
    proof { assert(named(self.cockpits@[$it.index() as int].nm(), $1.nm().unwrap()@) || !(named(self.cockpits@[$it.index() as int].nm(), $1.nm().unwrap()@))); }
//@ fn remove_cockpit
    ensures final(self).cockpits@ == remove_named(old(self).cockpits@, vx_asref_spec(&$1)), *final(self) == (TelemetryProcessor { cockpits: final(self).cockpits, ..*old(self) }),
//@ start
    let ghost vx_wanted = vx_asref_spec(&$1);
    proof { ax_view(); }
    broadcast use lemma_retain;
//@ closure 0 #1: &Cockpit<L>
    ensures b == !named(#1.nm(), vx_wanted)
//@ subst __a.as_ref() => __a.vx_as_ref()
//@end
//@owner -
