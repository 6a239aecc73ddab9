// ---- Gauge ----
//@cells tracking
//@type Option<RefCell<SecondsBuckets<Bucket>>> => Option<SecondsBuckets<Bucket, WallClock>>
//@optfield BucketsStats::from_buckets*
pub struct VxBorrowError;
/// RefCell::try_borrow_mut: no borrow of a gauge's tracking data outlives the call that made it
pub trait VxCell: Sized { fn try_borrow_mut(&mut self) -> (r: Result<&mut Self, VxBorrowError>) ensures r matches Ok(x) && *x == *old(self) && *final(x) == *final(self); }
impl VxCell for SecondsBuckets<Bucket, WallClock> { #[verifier::external_body] fn try_borrow_mut(&mut self) -> (r: Result<&mut Self, VxBorrowError>) { unimplemented!() } }
//@include conv.inc
//@item src/instruments/gauge/mod.rs struct Gauge
/// the value a gauge has after an update carrying v
pub open spec fn next_of(cur: Option<i64>, v: ObservedValue, unit: TimeUnit) -> Option<i64> {
    match v {
        ObservedValue::ChangedBy(d) => match cur { None => Some(d), Some(c) => Some((c + d) as i64) },
        ObservedValue::Duration(t, u) => Some(conv(t as int, u, unit) as i64),
        _ => match as_i64(v) { Some(x) => Some(x), None => cur },
    }
}
/// deltas do not overflow the value and durations fit
pub open spec fn in_range(cur: Option<i64>, v: ObservedValue, unit: TimeUnit) -> bool {
    match v {
        ObservedValue::ChangedBy(d) => cur matches Some(c) ==> i64::MIN <= c + d <= i64::MAX,
        ObservedValue::Duration(t, u) => conv(t as int, u, unit) <= i64::MAX,
        _ => true,
    }
}
/// the tracked sums stay within 64 bits when the new value is recorded
pub open spec fn room(t: SecondsBuckets<Bucket, WallClock>, v: int) -> bool {
    t.wf() && now_ok(t) && forall|k: int| 0 <= k < t.window().len() ==> (#[trigger] t.window()[k]).count < u64::MAX && i64::MIN <= t.window()[k].sum + v <= i64::MAX
}
pub open spec fn can_track(g: Gauge, v: ObservedValue) -> bool {
    (g.tracking, next_of(g.value, v, g.display_time_unit)) matches (Some(t), Some(x)) ==> room(t, x as int) && i64::MIN <= x <= i64::MAX
}
/// x was recorded in the current second
pub open spec fn recorded(old: SecondsBuckets<Bucket, WallClock>, new: SecondsBuckets<Bucket, WallClock>, x: i64) -> bool {
    exists|now: Instant, mid: SecondsBuckets<Bucket, WallClock>| #[trigger] vx_is_now(now) && #[trigger] ticked(mid, old, now) && new.wf() && new.current_time == mid.current_time
        && new.window().len() == mid.window().len() && (forall|k: int| 1 <= k < new.window().len() ==> #[trigger] new.window()[k] == mid.window()[k])
        && forall|s: Seq<i64>| summarises(mid.window()[0], s) ==> #[trigger] summarises(new.window()[0], s.push(x))
}
pub open spec fn same_config(a: Gauge, b: Gauge) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.display_time_unit == b.display_time_unit && a.group_values == b.group_values }
pub open spec fn can_update(g: Gauge, u: Update) -> bool { u matches Update::ObservationWithValue(v, _) ==> in_range(g.value, v, g.display_time_unit) && can_track(g, v) }
/// what an update does to a gauge
pub open spec fn updated(a: Gauge, b: Gauge, u: Update, r: usize) -> bool {
    same_config(a, b) && match u { Update::ObservationWithValue(v, _) => r == 1 && b.value == next_of(a.value, v, a.display_time_unit), _ => r == 0 && b == a }
}
//@owner C04 C06
//@impl src/observation.rs TimeUnit : Default
//@ fn default
    ensures r is Microseconds,
//@end
/// tracking of the last n seconds with nothing recorded yet
pub open spec fn fresh_tracking(t: SecondsBuckets<Bucket, WallClock>, n: usize) -> bool { t.wf() && t.buckets@.len() == n && vx_is_now(t.current_time) && forall|k: int| 0 <= k < t.buckets@.len() ==> summarises(#[trigger] t.window()[k], Seq::<i64>::empty()) }
//@impl src/instruments/gauge/mod.rs Gauge
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.value is None, r.tracking is None, r.display_time_unit is Microseconds, !r.group_values,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.value is None, r.tracking is None, r.display_time_unit is Microseconds, !r.group_values,
//@ fn value
    requires call_requires(<V as Into<i64>>::into, ($1,)), forall|x: i64| #[trigger] call_ensures(<V as Into<i64>>::into, ($1,), x) ==> can_track(self, ObservedValue::SignedInteger(x)),
    ensures same_config(self, r), r.value matches Some(x) && call_ensures(<V as Into<i64>>::into, ($1,), x)
//@if C06
            && match (self.tracking, r.tracking) { (None, None) => true, (Some(a), Some(b)) => recorded(a, b, x), _ => false }
//@fi
        ,
//@ fn group_values
    ensures r == (Gauge { group_values: $1, ..self }),
//@ fn set_display_time_unit
    ensures *final(self) == (Gauge { display_time_unit: $1, ..*old(self) }),
//@ fn display_time_unit
    ensures r == (Gauge { display_time_unit: $1, ..self }),
//@ fn set_tracking
    requires $1 <= 0x7fff_ffff_ffff_ffff,
    ensures *final(self) == (Gauge { tracking: final(self).tracking, ..*old(self) }), if $1 == 0 { final(self).tracking == old(self).tracking } else { final(self).tracking matches Some(t) && fresh_tracking(t, $1) },
//@ subst RefCell::new(__a) => __a
//@ fn tracking
    requires $1 <= 0x7fff_ffff_ffff_ffff,
    ensures r == (Gauge { tracking: r.tracking, ..self }), if $1 == 0 { r.tracking == self.tracking } else { r.tracking matches Some(t) && fresh_tracking(t, $1) },
//@end
//@impl src/instruments/gauge/mod.rs Gauge
//@ fn next_value
    requires in_range($1, $2, self.display_time_unit),
    ensures r == next_of($1, $2, self.display_time_unit),
//@ fn set
    requires in_range(old(self).value, $1, old(self).display_time_unit), can_track(*old(self), $1),
    ensures same_config(*old(self), *final(self)),
        final(self).value == next_of(old(self).value, $1, old(self).display_time_unit),
//@if C06
        match (old(self).tracking, final(self).tracking) { (None, None) => true, (Some(a), Some(b)) => match next_of(old(self).value, $1, old(self).display_time_unit) { Some(x) => recorded(a, b, x), None => a == b }, _ => false },
//@fi
//@ fn get
    ensures r == self.value,
//@end
//@impl src/instruments/gauge/mod.rs Gauge : Updates
//@ header impl Gauge
//@ fn update
    requires can_update(*old(self), *$1),
    ensures updated(*old(self), *final(self), *$1, r),
//@if C06
        *$1 matches Update::ObservationWithValue(v, _) ==> match (old(self).tracking, final(self).tracking) { (None, None) => true, (Some(a), Some(b)) => match next_of(old(self).value, v, old(self).display_time_unit) { Some(x) => recorded(a, b, x), None => a == b }, _ => false },
//@fi
//@end

/// the tracked data can be summarised
pub open spec fn can_show(g: Gauge) -> bool { g.tracking matches Some(t) ==> t.wf() && now_ok(t) && w_weight(t.window()) <= i64::MAX }
/// the statistics shown for the gauge
pub open spec fn stats_shown(g: Gauge, v: i64, s: BucketsStats) -> bool {
    g.tracking matches Some(t) && if w_count(t.window()) > 0 { stats_of(t.window(), s) } else { s.peak == v && s.peak_min == v && s.bottom == v && s.bottom_max == v && s.avg == vx_i64_to_f64(v) && s.peak_avg == vx_i64_to_f64(v) && s.bottom_avg == vx_i64_to_f64(v) }
}
pub open spec fn value_item(g: Gauge, v: i64) -> Seq<(Seq<char>, ItemKind)> { seq![(if g.group_values { "current"@ } else { g.name@ }, ItemKind::Int(v))] }
pub open spec fn gauge_values(g: Gauge, pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>) -> bool {
    match g.value {
        None => post == pre,
        Some(v) => match g.tracking {
            None => adds(pre, post, value_item(g, v)),
            Some(_) => exists|mid: Seq<(String, ItemKind)>, s: BucketsStats, p: Option<&str>| #[trigger] adds(mid, post, stat_items(s, p)) && adds(pre, mid, value_item(g, v)) && stats_shown(g, v, s)
                && (if g.group_values { p is None } else { p matches Some(n) && n@ == g.name@ }),
        },
    }
}
/// the values, directly or as a group
pub open spec fn gauge_puts(g: Gauge, pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>) -> bool {
    if g.group_values { exists|e: Seq<(String, ItemKind)>, s: Snapshot| e.len() == 0 && #[trigger] gauge_values(g, e, s.items@) && adds(pre, post, seq![(g.name@, ItemKind::Snapshot(s))]) } else { gauge_values(g, pre, post) }
}
//@owner C04 C07
//@impl src/instruments/gauge/mod.rs Gauge
//@ fn put_values_into_snapshot
//@ sig self => &mut self
    requires can_show(*old(self)),
    ensures same_config(*old(self), *final(self)), final(self).value == old(self).value, old(self).tracking is None <==> final(self).tracking is None,
        gauge_values(*final(self), old($1).items@, final($1).items@),
//@ start
    proof { ax_view(); }
//@end
//@if C24
//@impl src/instruments/gauge/mod.rs Gauge : Descriptive
//@ owner C24
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
//@fi
//@impl src/instruments/gauge/mod.rs Gauge : PutsSnapshot
//@ header impl Gauge
//@ owner C04 C07 C24
//@ fn put_snapshot
//@ sig self => &mut self
    requires can_show(*old(self)),
    ensures same_config(*old(self), *final(self)), final(self).value == old(self).value, old(self).tracking is None <==> final(self).tracking is None,
        gauge_puts(*final(self), desc(old(self), old(self).name@, old($1).items@, $2), final($1).items@),
//@end
//@owner -
