//@owner C06
// ---- SecondsBuckets: a ring of one bucket per second ----
//@trait src/instruments/fundamentals/clock.rs Clock
//@ fn now
    ensures vx_is_now(r),
//@end
//@item src/instruments/fundamentals/clock.rs struct WallClock
//@impl src/instruments/fundamentals/clock.rs WallClock : Clock
//@ fn now
//@end
//@item src/instruments/fundamentals/buckets.rs struct SecondsBuckets
//@item src/instruments/fundamentals/buckets.rs struct BucketIterator
/// x is a default value of its type
pub open spec fn is_def<T: Default>(x: T) -> bool { call_ensures(T::default, (), x) }
/// ring position of the bucket of the k-th second before the current one
pub open spec fn slot(idx: int, n: int, k: int) -> int { if k <= idx { idx - k } else { idx + n - k } }
/// the ring read backwards from idx
pub open spec fn ring<T>(b: Seq<T>, idx: int) -> Seq<T> { Seq::new(b.len(), |k: int| b[slot(idx, b.len() as int, k)]) }
pub proof fn lemma_ring_update<T>(b: Seq<T>, idx: int, k: int)
    requires 0 <= idx < b.len(), 0 <= k < b.len()
    ensures forall|x: T| #[trigger] ring(b.update(slot(idx, b.len() as int, k), x), idx) == ring(b, idx).update(k, x)
{ assert forall|x: T| #[trigger] ring(b.update(slot(idx, b.len() as int, k), x), idx) == ring(b, idx).update(k, x) by { assert(ring(b.update(slot(idx, b.len() as int, k), x), idx) =~= ring(b, idx).update(k, x)); } }
pub proof fn lemma_wrap(x: int, n: int) requires 0 <= x < 2 * n ensures x % n == (if x < n { x } else { x - n }) {
    if x < n { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(x, n); vstd::arithmetic::div_mod::lemma_small_mod((x - n) as nat, n as nat); }
}
impl<T, C> SecondsBuckets<T, C> {
    pub open spec fn wf(&self) -> bool { 0 < self.buckets@.len() && self.buckets@.len() <= 0x7fff_ffff_ffff_ffff && self.current_idx < self.buckets@.len() }
    /// what is tracked, the current second first
    pub open spec fn window(&self) -> Seq<T> { ring(self.buckets@, self.current_idx as int) }
}
/// the window d seconds later
pub open spec fn is_aged<T: Default>(new: Seq<T>, old: Seq<T>, d: int) -> bool {
    &&& new.len() == old.len()
    &&& forall|k: int| 0 <= k < new.len() && k < d ==> is_def(#[trigger] new[k])
    &&& forall|k: int| 0 <= k < new.len() && k >= d ==> (#[trigger] new[k]) == old[k - d]
}
/// the clock was read and everything moved on by the whole seconds that had passed
pub open spec fn ticked<T: Default, C>(new: SecondsBuckets<T, C>, old: SecondsBuckets<T, C>, now: Instant) -> bool {
    let d = (now.ns() - old.current_time.ns()) / 1_000_000_000;
    &&& new.wf()
    &&& new.current_time.ns() == old.current_time.ns() + d * 1_000_000_000
    &&& is_aged(new.window(), old.window(), d)
}
/// one rotation is one second
pub proof fn lemma_rotate<T: Default, C>(o: SecondsBuckets<T, C>, n: SecondsBuckets<T, C>, x: T)
    ensures o.wf() && n.current_idx == (if o.current_idx + 1 < o.buckets@.len() { o.current_idx + 1 } else { 0 }) && n.buckets@ == o.buckets@.update(n.current_idx as int, x) && is_def(x) ==> n.wf() && is_aged(n.window(), o.window(), 1)
{}
pub proof fn lemma_aged_more<T: Default>(a: Seq<T>, b: Seq<T>, c: Seq<T>, i: int)
    requires is_aged(b, a, i), is_aged(c, b, 1), i >= 0
    ensures is_aged(c, a, i + 1)
{
    assert forall|k: int| 0 <= k < c.len() && k < i + 1 implies is_def(#[trigger] c[k]) by { if k >= 1 { assert(is_def(b[k - 1])); } }
    assert forall|k: int| 0 <= k < c.len() && k >= i + 1 implies (#[trigger] c[k]) == a[k - (i + 1)] by { assert(c[k] == b[k - 1]); }
}
pub open spec fn now_ok<T, C>(s: SecondsBuckets<T, C>) -> bool { forall|t: Instant| #[trigger] vx_is_now(t) ==> t.ns() >= s.current_time.ns() }
//@impl src/instruments/fundamentals/buckets.rs SecondsBuckets
//@ fn new
    requires call_requires(T::default, ()), 0 < $1 <= 0x7fff_ffff_ffff_ffff,
    ensures r.wf(), r.buckets@.len() == $1, forall|k: int| 0 <= k < r.buckets@.len() ==> is_def(#[trigger] r.window()[k]), vx_is_now(r.current_time),
//@ fn with_clock
    requires call_requires(T::default, ()), 0 < $1 <= 0x7fff_ffff_ffff_ffff,
    ensures r.wf(), r.buckets@.len() == $1, forall|k: int| 0 <= k < r.buckets@.len() ==> is_def(#[trigger] r.window()[k]), vx_is_now(r.current_time),
//@ loop 0
    @made invariant call_requires(T::default, ()), $f@.len() == $it.index(), forall|j: int| 0 <= j < $f@.len() ==> is_def(#[trigger] $f@[j]),
    @plain invariant call_requires(T::default, ()), $m0~buckets@.len() == $it.index(), forall|j: int| 0 <= j < $m0~buckets@.len() ==> is_def(#[trigger] $m0~buckets@[j]),
//@ fn initialized_with_clock
    requires $1@.len() > 0, $1@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures r.wf(), r.buckets@ == $1@, r.current_idx == $1@.len() - 1, vx_is_now(r.current_time),
//@ fn current_mut
    requires old(self).wf(), now_ok(*old(self)), call_requires(T::default, ()),
    ensures exists|now: Instant, mid: SecondsBuckets<T, C>| #[trigger] vx_is_now(now) && #[trigger] ticked(mid, *old(self), now) && *r == mid.window()[0] && final(self).wf() && final(self).window() == mid.window().update(0, *final(r)) && final(self).current_time == mid.current_time,
//@ endfn
    proof { lemma_ring_update(self.buckets@, self.current_idx as int, 0); }
//@ fn get_at_mut
    requires old(self).wf(), now_ok(*old(self)), call_requires(T::default, ()),
    ensures exists|now: Instant, mid: SecondsBuckets<T, C>| #[trigger] vx_is_now(now) && #[trigger] ticked(mid, *old(self), now) && final(self).wf() && final(self).current_time == mid.current_time && ({
        let age = mid.current_time.ns() - $1.ns();
        let k = age / 1_000_000_000;
        match r { None => (age < 0 || k >= mid.window().len()) && final(self).window() == mid.window(),
            Some(x) => age >= 0 && k < mid.window().len() && *x == mid.window()[k] && final(self).window() == mid.window().update(k, *final(x)) } }),
//@ endfn
    proof {
        let n = self.buckets@.len() as int;
        let k = (self.current_time.ns() - $1.ns()) / 1_000_000_000;
        if self.current_time.ns() >= $1.ns() && k < n {
            lemma_wrap(n + self.current_idx - k, n);
            lemma_ring_update(self.buckets@, self.current_idx as int, k);
        }
    }
//@ fn iter
    requires old(self).wf(), now_ok(*old(self)), call_requires(T::default, ()),
    ensures exists|now: Instant| #[trigger] vx_is_now(now) && ticked(*final(self), *old(self), now), r.wf(), r.rest() == final(self).window(),
//@ fn tick
    requires old(self).wf(), now_ok(*old(self)), call_requires(T::default, ()),
    ensures exists|now: Instant| #[trigger] vx_is_now(now) && ticked(*final(self), *old(self), now),
//@ start
    let ghost __o = *self;
    let ghost mut __d: int = 0;
    proof { lemma_wrap(self.current_idx + 1, self.buckets@.len() as int); }
//@ loop 0
    invariant self.wf(), call_requires(T::default, ()), self.buckets@.len() == __o.buckets@.len(), is_aged(self.window(), __o.window(), $it.index()),
//@ loop 0 start
    let ghost __s = *self;
    proof { lemma_wrap(self.current_idx + 1, self.buckets@.len() as int); }
//@ loop 0 end
    proof { lemma_rotate(__s, *self, self.buckets@[self.current_idx as int]); lemma_aged_more(__o.window(), __s.window(), self.window(), $it.index()); }
//@ loop 1
    invariant __b.len() == self.buckets@.len(), $it.seq().len() == __b.len(), call_requires(T::default, ()), forall|j: int| 0 <= j < $it.index() ==> is_def(*final(#[trigger] $it.seq()[j])),
//@ loop 1 before
    let ghost __b = self.buckets@;
//@ onreturn
    proof {
        lemma_rotate(__o, *self, self.buckets@[self.current_idx as int]);
        assert(self.buckets@ =~= __o.buckets@.update(self.current_idx as int, self.buckets@[self.current_idx as int]) || true);
    }
//@ fn len
    ensures r == self.buckets@.len(),
//@ fn idx
    requires self.buckets@.len() > 0,
    ensures r == ($1 as int) % (self.buckets@.len() as int),
//@end
impl<'a, T> BucketIterator<'a, T> {
    pub open spec fn wf(&self) -> bool { 0 < self.buckets@.len() && self.count <= self.buckets@.len() && self.idx < self.buckets@.len() }
    pub open spec fn rest(&self) -> Seq<T> { ring(self.buckets@, self.idx as int).take(self.count as int) }
}
//@impl src/instruments/fundamentals/buckets.rs BucketIterator : Iterator
//@ header impl<'a, T> BucketIterator<'a, T>
//@ fn next
//@ sig ret => Option<&'a T>
    requires old(self).wf(),
    ensures final(self).wf(), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(), old(self).rest().len() > 0 ==> (r matches Some(x) && *x == old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
//@end
//@owner -
