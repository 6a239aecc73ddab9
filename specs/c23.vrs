#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@include f64.inc
//@include conv.inc
/// Stand-in for `Box<dyn PutsSnapshot>`
#[verifier::external_body]
pub struct VxSnapshooter(u8);
//@include puts.inc
//@include adds.inc
//@include snapfn.inc
// ---- the reservoir (dependency exponential-decay-histogram): assumed contract ----
#[verifier::external_body]
pub struct ExponentialDecayHistogram(u8);
#[verifier::external_body]
pub struct VxReservoir(u8);
/// all samples still fit the reservoir and none is too old
pub uninterp spec fn vx_all_kept(s: Seq<i64>) -> bool;
pub open spec fn least(s: Seq<i64>, m: i64) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m <= #[trigger] s[i] }
pub open spec fn greatest(s: Seq<i64>, m: i64) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> m >= #[trigger] s[i] }
impl ExponentialDecayHistogram {
    /// everything recorded since it was created
    pub uninterp spec fn samples(&self) -> Seq<i64>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.samples() == Seq::<i64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, v: i64) ensures final(self).samples() == old(self).samples().push(v) { unimplemented!() }
    #[verifier::external_body] pub fn snapshot(&self) -> (r: VxReservoir) ensures r.samples() == self.samples() { unimplemented!() }
}
impl VxReservoir {
    pub uninterp spec fn samples(&self) -> Seq<i64>;
    #[verifier::external_body] pub fn count(&self) -> (r: u64) ensures r == self.samples().len() { unimplemented!() }
    #[verifier::external_body] pub fn value(&self, q: f64) -> i64 { unimplemented!() }
    #[verifier::external_body] pub fn min(&self) -> (r: i64) ensures self.samples().len() > 0 && vx_all_kept(self.samples()) ==> least(self.samples(), r) { unimplemented!() }
    #[verifier::external_body] pub fn max(&self) -> (r: i64) ensures self.samples().len() > 0 && vx_all_kept(self.samples()) ==> greatest(self.samples(), r) { unimplemented!() }
    #[verifier::external_body] pub fn mean(&self) -> f64 { unimplemented!() }
    #[verifier::external_body] pub fn stddev(&self) -> f64 { unimplemented!() }
}
//@item src/instruments/histogram.rs struct Histogram
/// the sample an update carries
pub open spec fn sample_of(u: Update, unit: TimeUnit) -> Option<i64> { match u {
    Update::ObservationWithValue(ObservedValue::Duration(t, f), _) => Some(conv(t as int, f, unit) as i64),
    Update::ObservationWithValue(v, _) => as_i64(v),
    _ => None } }
/// a duration fits in 64 bits when converted
pub open spec fn fits(u: Update, unit: TimeUnit) -> bool { u matches Update::ObservationWithValue(ObservedValue::Duration(t, f), _) ==> conv(t as int, f, unit) <= i64::MAX }
pub open spec fn histo_config(a: Histogram, b: Histogram) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.max_inactivity_duration == b.max_inactivity_duration && a.reset_after_inactivity == b.reset_after_inactivity && a.show_activity_state == b.show_activity_state && a.display_time_unit == b.display_time_unit }
/// the samples are to be forgotten: resetting is enabled and the last recorded value is older than the limit
pub open spec fn stale(h: Histogram, now: Instant) -> bool { h.reset_after_inactivity && (h.max_inactivity_duration matches Some(d) && now.ns() - h.last_update.ns() > d.ns()) }
pub open spec fn plus(s: Seq<i64>, x: Option<i64>) -> Seq<i64> { match x { Some(v) => s.push(v), None => s } }
pub open spec fn recorded(a: Histogram, b: Histogram, u: Update, now: Instant) -> bool { b.inner_histogram.samples() == plus(if stale(a, now) { Seq::empty() } else { a.inner_histogram.samples() }, sample_of(u, a.display_time_unit)) }
//@owner C17 C23
//@impl src/instruments/histogram.rs Histogram
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.inner_histogram.samples().len() == 0, vx_is_now(r.last_update), r.max_inactivity_duration is None, r.reset_after_inactivity, r.show_activity_state, call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures r.inner_histogram.samples().len() == 0, vx_is_now(r.last_update), r.max_inactivity_duration is None, r.reset_after_inactivity, r.show_activity_state,
//@ fn set_inactivity_limit
    ensures *final(self) == (Histogram { max_inactivity_duration: Some($1), ..*old(self) }),
//@ fn inactivity_limit
    ensures r == (Histogram { max_inactivity_duration: Some($1), ..self }),
//@ fn set_reset_after_inactivity
    ensures *final(self) == (Histogram { reset_after_inactivity: $1, ..*old(self) }),
//@ fn reset_after_inactivity
    ensures r == (Histogram { reset_after_inactivity: $1, ..self }),
//@ fn set_show_activity_state
    ensures *final(self) == (Histogram { show_activity_state: $1, ..*old(self) }),
//@ fn show_activity_state
    ensures r == (Histogram { show_activity_state: $1, ..self }),
//@ fn set_display_time_unit
    ensures *final(self) == (Histogram { display_time_unit: $1, ..*old(self) }),
//@ fn display_time_unit
    ensures r == (Histogram { display_time_unit: $1, ..self }),
//@end
//@impl src/observation.rs TimeUnit : Default
//@ header impl TimeUnit
//@ fn default
    ensures true,
//@end
//@impl src/instruments/histogram.rs Histogram : Updates
//@ header impl Histogram
//@ fn update
    requires fits(*$1, old(self).display_time_unit),
    ensures histo_config(*old(self), *final(self)),
//@if C23
        exists|now: Instant| #[trigger] vx_is_now(now) && recorded(*old(self), *final(self), *$1, now),
        r == (if sample_of(*$1, old(self).display_time_unit) is Some { 1usize } else { 0 }),
//@fi
        // a recorded value counts as activity
        if sample_of(*$1, old(self).display_time_unit) is Some { vx_is_now(final(self).last_update) } else { final(self).last_update == old(self).last_update },
//@ start
    proof { ax_some_now(); }
//@end
//@owner C23
//@item src/instruments/histogram.rs struct HistogramSnapshot
pub open spec fn opt_item(n: &str, x: Option<ItemKind>) -> Seq<(Seq<char>, ItemKind)> { match x { Some(v) => seq![(n@, v)], None => seq![] } }
pub open spec fn int_item(x: Option<i64>) -> Option<ItemKind> { match x { Some(v) => Some(ItemKind::Int(v)), None => None } }
pub open spec fn flt_item(x: Option<f64>) -> Option<ItemKind> { match x { Some(v) => Some(ItemKind::Float(v)), None => None } }
pub open spec fn stat_items(h: HistogramSnapshot) -> Seq<(Seq<char>, ItemKind)> { seq![("count"@, ItemKind::UInt(h.count))] + opt_item("max", int_item(h.max)) + opt_item("min", int_item(h.min)) + opt_item("mean", flt_item(h.mean)) + opt_item("stddev", flt_item(h.stddev)) }
pub open spec fn with_quantiles(vals: Seq<(Seq<char>, ItemKind)>, l: Option<Snapshot>) -> Seq<(Seq<char>, ItemKind)> { match l { Some(q) => vals.push(("quantiles"@, ItemKind::Snapshot(q))), None => vals } }
/// the number of samples and, if there are any, the statistics of the reservoir
pub open spec fn summary(s: Seq<i64>, pre: Items, post: Items) -> bool {
    exists|h: HistogramSnapshot, l: Option<Snapshot>| adds(pre, post, #[trigger] with_quantiles(stat_items(h), l)) && h.count == s.len() && summarised(h, s)
}
pub open spec fn summarised(h: HistogramSnapshot, s: Seq<i64>) -> bool {
    if s.len() > 0 { h.min is Some && h.max is Some && (vx_all_kept(s) ==> least(s, h.min.unwrap()) && greatest(s, h.max.unwrap())) } else { h.min is None && h.max is None }
}
//@impl src/instruments/histogram.rs HistogramSnapshot : Default
//@ header impl HistogramSnapshot
//@ fn default
    ensures r.max is None, r.min is None, r.mean is None, r.stddev is None, r.count == 0, r.quantiles@.len() == 0,
//@end
//@impl src/instruments/histogram.rs HistogramSnapshot
//@ fn put_snapshot
    ensures exists|l: Option<Snapshot>| adds(old($1).items@, final($1).items@, #[trigger] with_quantiles(stat_items(*self), l)) && (l is Some <==> self.quantiles@.len() > 0),
        grows(old($1).items@, final($1).items@),
//@ endfn
    proof {
        let l = if self.quantiles@.len() > 0 { Some($1.items@.last().1->Snapshot_0) } else { None };
        assert(adds(old($1).items@, $1.items@, with_quantiles(stat_items(*self), l)));
    }
//@end
//@impl src/instruments/histogram.rs Histogram
//@ fn put_histogram_values_into_snapshot
    ensures summary(self.inner_histogram.samples(), old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@),
//@end
//@owner C17 C23 C24
/// active while the last recorded value lies less long ago than the limit
pub open spec fn histo_active(h: Histogram, now: Instant) -> bool { match h.max_inactivity_duration { Some(d) => vx_since(now.ns(), h.last_update.ns()) < d.ns(), None => true } }
pub open spec fn histo_at(h: Histogram, pre: Items, post: Items, now: Instant) -> bool {
    let m = with_flags(pre, h.max_inactivity_duration, h.show_activity_state, histo_active(h, now));
    // no values at all while inactive
    if histo_active(h, now) { summary(h.inner_histogram.samples(), m, post) } else { post == m }
}
pub open spec fn histo_values(h: Histogram, pre: Items, post: Items) -> bool { exists|now: Instant| #[trigger] vx_is_now(now) && histo_at(h, pre, post, now) }
pub open spec fn histo_puts(h: Histogram, pre: Items, post: Items, d: bool) -> bool {
    exists|l: Snapshot| #[trigger] nested(described(pre, "_"@ + h.name@, view_of(h.title), view_of(h.description), d), post, h.name, l) && histo_values(h, Seq::empty(), l.items@)
}
//@impl src/instruments/histogram.rs Histogram
//@ fn put_values_into_snapshot
    ensures histo_values(*self, old($1).items@, final($1).items@), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); ax_some_now(); }
//@ endfn
    proof {
        let now = choose|now: Instant| #[trigger] vx_is_now(now) && histo_active(*self, now) == $n0~is_active;
        assert(vx_is_now(now) && histo_at(*self, old($1).items@, $1.items@, now));
    }
//@end
//@impl src/instruments/histogram.rs Histogram : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@impl src/instruments/histogram.rs Histogram : PutsSnapshot
//@ add
    open spec fn puts(a: Self, pre: Items, post: Items, d: bool) -> bool { histo_puts(a, pre, post, d) }
//@ fn put_snapshot
//@ start
    proof { ax_string(); }
//@ endfn
    proof { assert(nested(described(old($1).items@, "_"@ + self.name@, view_of(self.title), view_of(self.description), $2), $1.items@, self.name, $1.items@.last().1->Snapshot_0)); }
//@end
//@owner -
//@include set_histogram.inc
} // verus!
fn main() {}
