//@owner C07
// ---- gauge tracking: buckets and statistics ----
pub trait VxOrdT: Sized { spec fn vx_lt(self, o: Self) -> bool; }
impl VxOrdT for i64 { open spec fn vx_lt(self, o: i64) -> bool { self < o } }
impl VxOrdT for u64 { open spec fn vx_lt(self, o: u64) -> bool { self < o } }
impl VxOrdT for usize { open spec fn vx_lt(self, o: usize) -> bool { self < o } }
#[verifier::external_body] pub fn vx_min<T: VxOrdT>(a: T, b: T) -> (r: T) ensures r == (if b.vx_lt(a) { b } else { a }) { unimplemented!() }
#[verifier::external_body] pub fn vx_max<T: VxOrdT>(a: T, b: T) -> (r: T) ensures r == (if b.vx_lt(a) { a } else { b }) { unimplemented!() }
/// i64 += &i64 and u64 += &u64 are the same as adding the number referred to
pub axiom fn ax_addref() ensures
    <i64 as vstd::std_specs::ops::AddAssignSpec<&i64>>::obeys_add_assign_spec(), forall|a: i64, b: &i64| #[trigger] <i64 as vstd::std_specs::ops::AddAssignSpec<&i64>>::add_assign_req(&a, b) == (i64::MIN <= a + *b <= i64::MAX),
    forall|a: i64, b: &i64| #[trigger] <i64 as vstd::std_specs::ops::AddAssignSpec<&i64>>::add_assign_spec(&a, b) == ((a + *b) as i64),
    <u64 as vstd::std_specs::ops::AddAssignSpec<&u64>>::obeys_add_assign_spec(), forall|a: u64, b: &u64| #[trigger] <u64 as vstd::std_specs::ops::AddAssignSpec<&u64>>::add_assign_req(&a, b) == (a + *b <= u64::MAX),
    forall|a: u64, b: &u64| #[trigger] <u64 as vstd::std_specs::ops::AddAssignSpec<&u64>>::add_assign_spec(&a, b) == ((a + *b) as u64);
//@fnstart proof { ax_addref(); }
//@item src/instruments/gauge/tracking.rs struct Bucket
//@item src/instruments/gauge/tracking.rs struct BucketsStats
/// derived: all fields are their defaults
#[verifier::external_body]
pub fn vx_def_bucket() -> (r: Bucket) ensures r.sum == 0, r.count == 0 { unimplemented!() }
impl Default for Bucket { fn default() -> (r: Bucket) ensures r.sum == 0, r.count == 0 { vx_def_bucket() } }

pub open spec fn seq_sum(v: Seq<i64>) -> int decreases v.len() { if v.len() == 0 { 0 } else { seq_sum(v.drop_last()) + v.last() } }
pub open spec fn is_max(v: Seq<i64>, m: int) -> bool { (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == m) && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] <= m }
pub open spec fn is_min(v: Seq<i64>, m: int) -> bool { (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == m) && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] >= m }
/// the bucket is what recording exactly the values v since its second began makes it
pub open spec fn summarises(b: Bucket, v: Seq<i64>) -> bool {
    &&& b.count == v.len()
    &&& b.sum == seq_sum(v)
    &&& v.len() > 0 ==> is_min(v, b.min_max.0 as int) && is_max(v, b.min_max.1 as int)
}
pub proof fn lemma_record(o: Bucket, n: Bucket, v: Seq<i64>, x: i64)
    requires summarises(o, v), n.count == o.count + 1, n.sum == o.sum + x,
        n.min_max.0 == (if o.count == 0 || x < o.min_max.0 { x } else { o.min_max.0 }),
        n.min_max.1 == (if o.count == 0 || x > o.min_max.1 { x } else { o.min_max.1 }),
    ensures summarises(n, v.push(x))
{
    let w = v.push(x);
    assert(w.drop_last() =~= v);
    assert(w[v.len() as int] == x);
    if v.len() > 0 {
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == o.min_max.0; assert(w[i] == v[i]);
        let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j] == o.min_max.1; assert(w[j] == v[j]);
        assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] >= n.min_max.0 && w[k] <= n.min_max.1 by { if k < v.len() { assert(w[k] == v[k]); } }
    }
}
//@impl src/instruments/gauge/tracking.rs Bucket
//@ fn update
    requires i64::MIN <= old(self).sum + $1 <= i64::MAX, old(self).count < u64::MAX,
    ensures forall|s: Seq<i64>| summarises(*old(self), s) ==> #[trigger] summarises(*final(self), s.push($1)),
//@ start
    let ghost __o = *self;
//@ endfn
    proof { assert forall|s: Seq<i64>| summarises(__o, s) implies #[trigger] summarises(*self, s.push($1)) by { lemma_record(__o, *self, s, $1); } }
//@end

// ---- the statistics of a window w: w[k] is the bucket of the k-th second before the current one ----
pub open spec fn w_count(w: Seq<Bucket>) -> int decreases w.len() { if w.len() == 0 { 0 } else { w_count(w.drop_last()) + w.last().count } }
pub open spec fn w_sum(w: Seq<Bucket>) -> int decreases w.len() { if w.len() == 0 { 0 } else { w_sum(w.drop_last()) + (if w.last().count > 0 { w.last().sum as int } else { 0 }) } }
pub open spec fn w_maxsum(w: Seq<Bucket>) -> int decreases w.len() { if w.len() == 0 { 0 } else { w_maxsum(w.drop_last()) + (if w.last().count > 0 { w.last().min_max.1 as int } else { 0 }) } }
pub open spec fn w_minsum(w: Seq<Bucket>) -> int decreases w.len() { if w.len() == 0 { 0 } else { w_minsum(w.drop_last()) + (if w.last().count > 0 { w.last().min_max.0 as int } else { 0 }) } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// bounds every partial sum
pub open spec fn w_weight(w: Seq<Bucket>) -> int decreases w.len() { if w.len() == 0 { 0 } else { w_weight(w.drop_last()) + (if w.last().count > 0 { w.last().count + iabs(w.last().sum as int) + iabs(w.last().min_max.0 as int) + iabs(w.last().min_max.1 as int) } else { 0 }) } }
/// the smallest/largest of the per-second extremes over the seconds that saw updates
pub open spec fn maxs(w: Seq<Bucket>) -> Seq<i64> decreases w.len() { if w.len() == 0 { Seq::empty() } else if w.last().count > 0 { maxs(w.drop_last()).push(w.last().min_max.1) } else { maxs(w.drop_last()) } }
pub open spec fn mins(w: Seq<Bucket>) -> Seq<i64> decreases w.len() { if w.len() == 0 { Seq::empty() } else if w.last().count > 0 { mins(w.drop_last()).push(w.last().min_max.0) } else { mins(w.drop_last()) } }
pub open spec fn stats_of(w: Seq<Bucket>, s: BucketsStats) -> bool {
    &&& is_max(maxs(w), s.peak as int) && is_min(maxs(w), s.peak_min as int)
    &&& is_min(mins(w), s.bottom as int) && is_max(mins(w), s.bottom_max as int)
    &&& exists|x: i64, c: u64| x == w_sum(w) && c == w_count(w) && s.avg == #[trigger] vx_div_spec(vx_i64_to_f64(x), vx_u64_to_f64(c))
    &&& exists|x: i64, c: u64| x == w_maxsum(w) && c == w.len() && s.peak_avg == #[trigger] vx_div_spec(vx_i64_to_f64(x), vx_u64_to_f64(c))
    &&& exists|x: i64, c: u64| x == w_minsum(w) && c == w.len() && s.bottom_avg == #[trigger] vx_div_spec(vx_i64_to_f64(x), vx_u64_to_f64(c))
}
pub proof fn lemma_weight(w: Seq<Bucket>)
    ensures w_weight(w) >= 0, 0 <= w_count(w) <= w_weight(w), -w_weight(w) <= w_sum(w) <= w_weight(w), -w_weight(w) <= w_maxsum(w) <= w_weight(w), -w_weight(w) <= w_minsum(w) <= w_weight(w)
    decreases w.len()
{ if w.len() > 0 { lemma_weight(w.drop_last()); } }
pub proof fn lemma_weight_prefix(w: Seq<Bucket>, i: int)
    requires 0 <= i <= w.len()
    ensures w_weight(w.take(i)) <= w_weight(w)
    decreases w.len()
{
    if i < w.len() { assert(w.take(i) =~= w.drop_last().take(i)); lemma_weight_prefix(w.drop_last(), i); lemma_weight(w); }
    else { assert(w.take(i) =~= w); }
}
pub proof fn lemma_weight_aged(n: Seq<Bucket>, o: Seq<Bucket>, d: int, i: int)
    requires is_aged(n, o, d), d >= 0, 0 <= i <= n.len()
    ensures w_weight(n.take(i)) <= w_weight(o.take(if i <= d { 0 } else { i - d }))
    decreases i
{
    if i > 0 {
        lemma_weight_aged(n, o, d, i - 1);
        assert(n.take(i).drop_last() =~= n.take(i - 1));
        assert(n.take(i).last() == n[i - 1]);
        if i - 1 < d { assert(is_def(n[i - 1])); }
        else { assert(n[i - 1] == o[i - 1 - d]); assert(o.take(i - d).drop_last() =~= o.take(i - 1 - d)); assert(o.take(i - d).last() == o[i - 1 - d]); }
    }
}
pub open spec fn acc_of(w: Seq<Bucket>, ts: int, tc: int, sp: int, sb: int, peak: i64, peak_min: i64, bottom: i64, bottom_max: i64) -> bool {
    &&& ts == w_sum(w) && tc == w_count(w) && sp == w_maxsum(w) && sb == w_minsum(w)
    &&& maxs(w).len() == mins(w).len() && (w_count(w) > 0 <==> maxs(w).len() > 0)
    &&& maxs(w).len() == 0 ==> peak == i64::MIN && peak_min == i64::MAX && bottom == i64::MAX && bottom_max == i64::MIN
    &&& maxs(w).len() > 0 ==> is_max(maxs(w), peak as int) && is_min(maxs(w), peak_min as int) && is_min(mins(w), bottom as int) && is_max(mins(w), bottom_max as int)
}
pub proof fn lemma_push_max(v: Seq<i64>, x: i64, m: int, n: int)
    requires v.len() > 0 ==> is_max(v, m), n == (if v.len() == 0 || x > m { x as int } else { m })
    ensures is_max(v.push(x), n)
{ let w = v.push(x); assert(w[v.len() as int] == x); if v.len() > 0 { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == m; assert(w[i] == v[i]); }
  assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] <= n by { if k < v.len() { assert(w[k] == v[k]); } } }
pub proof fn lemma_push_min(v: Seq<i64>, x: i64, m: int, n: int)
    requires v.len() > 0 ==> is_min(v, m), n == (if v.len() == 0 || x < m { x as int } else { m })
    ensures is_min(v.push(x), n)
{ let w = v.push(x); assert(w[v.len() as int] == x); if v.len() > 0 { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == m; assert(w[i] == v[i]); }
  assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] >= n by { if k < v.len() { assert(w[k] == v[k]); } } }
//@impl src/instruments/gauge/tracking.rs BucketsStats
//@ fn from_buckets
    requires old($1).wf(), now_ok(*old($1)), w_weight(old($1).window()) <= i64::MAX,
    ensures exists|now: Instant| #[trigger] vx_is_now(now) && ticked(*final($1), *old($1), now),
        w_count(final($1).window()) >= 0,
        w_count(final($1).window()) > 0 ==> (r matches Some(s) && stats_of(final($1).window(), s)),
        w_count(final($1).window()) == 0 ==> (match $2 { None => r is None, Some(v) => r matches Some(s) && s.peak == v && s.peak_min == v && s.bottom == v && s.bottom_max == v && s.avg == vx_i64_to_f64(v) && s.peak_avg == vx_i64_to_f64(v) && s.bottom_avg == vx_i64_to_f64(v) }),
//@ flag nextloop 0
//@ loop 0 before
    let ghost __w = $it.rest();
    let ghost __g = *old($1);
    let ghost __d = choose|d: int| d >= 0 && #[trigger] is_aged(__w, __g.window(), d);
    proof {
        assert(__w.take(0) =~= Seq::<Bucket>::empty());
        assert(__w.skip(0) =~= __w);
    }
//@ loop 0
    invariant __d >= 0, is_aged(__w, __g.window(), __d), w_weight(__g.window()) <= i64::MAX, $it.wf(),
        $it.rest().len() <= __w.len(), $it.rest() == __w.skip(__w.len() - $it.rest().len()),
        acc_of(__w.take(__w.len() - $it.rest().len()), $m6~total_sum as int, $m7~total_count as int, $m5~sum_peak as int, $m4~sum_bottom as int, $m0~peak, $m1~peak_min, $m2~bottom, $m3~bottom_max),
    ensures $it.rest().len() == 0,
    decreases $it.rest().len(),
//@ loop 0 start
    let ghost __i = __w.len() - $it.rest().len();
    let ghost (__p, __pm, __b, __bm) = (peak, peak_min, bottom, bottom_max);
    proof {
        if __i < __w.len() {
            assert(__w.take(__i + 1).drop_last() =~= __w.take(__i)); assert(__w.take(__i + 1).last() == __w[__i]); assert(__w.skip(__i)[0] == __w[__i]);
            assert(__w.skip(__i).drop_first() =~= __w.skip(__i + 1));
            lemma_weight_aged(__w, __g.window(), __d, __i + 1); lemma_weight_prefix(__g.window(), if __i + 1 <= __d { 0 } else { __i + 1 - __d });
            lemma_weight(__w.take(__i)); lemma_weight(__w.take(__i + 1));
        }
    }
//@ loop 0 end
    proof {
        let x = __w[__i];
        if x.count > 0 {
            lemma_push_max(maxs(__w.take(__i)), x.min_max.1, __p as int, peak as int); lemma_push_min(maxs(__w.take(__i)), x.min_max.1, __pm as int, peak_min as int);
            lemma_push_min(mins(__w.take(__i)), x.min_max.0, __b as int, bottom as int); lemma_push_max(mins(__w.take(__i)), x.min_max.0, __bm as int, bottom_max as int);
        }
    }
//@ loop 0 after
    proof { assert(__w.take(__w.len() as int) =~= __w); lemma_weight(__w); }
//@end
//@owner -
//@owner C07
pub enum Cow<'a> { Owned(String), Borrowed(&'a str) }
pub axiom fn ax_cow() ensures
    forall|s: String| #[trigger] vx_disp_spec::<Cow<'_>>(&Cow::Owned(s)) == s@,
    forall|s: &str| #[trigger] vx_disp_spec::<Cow<'_>>(&Cow::Borrowed(s)) == s@;
pub open spec fn pfx(p: Option<&str>, n: Seq<char>) -> Seq<char> { match p { None => n, Some(s) => (s@ + seq!['_']) + n } }
/// the seven statistics under their names
pub open spec fn stat_items(s: BucketsStats, p: Option<&str>) -> Seq<(Seq<char>, ItemKind)> {
    seq![(pfx(p, "peak"@), ItemKind::Int(s.peak)), (pfx(p, "peak_min"@), ItemKind::Int(s.peak_min)), (pfx(p, "peak_avg"@), ItemKind::Float(s.peak_avg)),
         (pfx(p, "bottom"@), ItemKind::Int(s.bottom)), (pfx(p, "bottom_max"@), ItemKind::Int(s.bottom_max)), (pfx(p, "bottom_avg"@), ItemKind::Float(s.bottom_avg)),
         (pfx(p, "avg"@), ItemKind::Float(s.avg))]
}
//@impl src/instruments/gauge/tracking.rs BucketsStats
//@ fn add_to_snapshot
    ensures adds(old($1).items@, final($1).items@, stat_items(self, $2)),
//@ start
    proof { ax_cow(); ax_disp(); reveal_strlit(""); reveal_strlit("_"); }
//@ endfn
    proof {
        assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
        assert(""@ =~= Seq::<char>::empty()); assert("_"@ =~= seq!['_']);
    }
//@end
//@owner -
