//@owner C22
/// std::cell::Cell, reached through `&mut self` (interior mutability made explicit)
pub struct Cell<T> { pub v: T }
impl<T: Copy> Cell<T> {
    #[verifier::external_body] pub fn new(v: T) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> (r: T) ensures r == self.v { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, v: T) ensures final(self).v == v { unimplemented!() }
}
/// nothing counted yet; the first tick is due five seconds after construction
pub open spec fn fresh(m: StdMeter) -> bool { m.data.v.count == 0 && sound(m) && vx_is_now(m.start) && m.data.v.next_tick.ns() == m.start.ns() + 5_000_000_000 && forall|i: int| 0 <= i < 3 ==> (#[trigger] m.data.v.ewma@[i]).uncounted.v == 0 && !m.data.v.ewma@[i].init }
pub open spec fn sound(m: StdMeter) -> bool { m.data.v.ewma@.len() == 3 }
/// all due ticks, then n more observations (which enter the count and, at the next tick, the rates)
pub open spec fn counted(a: StdMeter, b: StdMeter, n: int) -> bool {
    counts(state(a.data.v), state(b.data.v), n) || (n == 0 && (state(b.data.v) == state(a.data.v) || due(state(a.data.v), state(b.data.v))))
}
/// all due ticks and nothing else
pub open spec fn read_out(a: StdMeter, b: StdMeter) -> bool { sound(b) && due(state(a.data.v), state(b.data.v)) }
//@item src/instruments/meter.rs struct MeterRate
//@item src/instruments/meter.rs struct MeterSnapshot
pub open spec fn on(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn cut(cutoff: f64, e: EWMA) -> f64 { if vx_lt_spec(shown_rate(e), cutoff) { 0.0f64 } else { shown_rate(e) } }
/// the same, asked the other way round (rates and cutoffs are numbers)
pub open spec fn cut2(cutoff: f64, e: EWMA) -> f64 { if vx_le_spec(cutoff, shown_rate(e)) { shown_rate(e) } else { 0.0f64 } }
pub open spec fn rate_of(r: Option<MeterRate>, enabled: bool, cutoff: f64, e: EWMA) -> bool { match r { Some(m) => enabled && (m.rate == cut(cutoff, e) || m.rate == cut2(cutoff, e)) && m.share is None, None => !enabled } }
pub open spec fn shows_rate(i: (String, ItemKind), n: &str, rate: f64) -> bool { i.0@ == n@ && (i.1 matches ItemKind::Snapshot(s) && s.items@.len() > 0 && s.items@[0].0@ == "rate"@ && s.items@[0].1 == ItemKind::Float(rate)) }
pub open spec fn shows_cut(i: (String, ItemKind), n: &str, cutoff: f64, e: EWMA) -> bool { shows_rate(i, n, cut(cutoff, e)) || shows_rate(i, n, cut2(cutoff, e)) }
pub open spec fn shows_opt(p: Items, i: int, n: &str, r: Option<MeterRate>) -> bool { r matches Some(m) ==> shows_rate(p[i], n, m.rate) }
//@impl src/instruments/meter.rs MeterRate
//@ fn put_snapshot
    ensures final($1).items@.len() == old($1).items@.len() + 1 + on(self.share is Some), final($1).items@[old($1).items@.len() as int].0@ == "rate"@, final($1).items@[old($1).items@.len() as int].1 == ItemKind::Float(self.rate),
//@end
//@impl src/instruments/meter.rs MeterSnapshot : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { match self.title { Some(s) => Some(s@), None => None } }
    open spec fn de(&self) -> Option<Seq<char>> { match self.description { Some(s) => Some(s@), None => None } }
//@ fn title
//@ fn description
//@end
pub open spec fn values_of(m: MeterSnapshot, p: Items) -> bool {
    &&& p.len() == 1 + on(m.one_minute is Some) + on(m.five_minutes is Some) + on(m.fifteen_minutes is Some)
    &&& p[0].0@ == "count"@ && p[0].1 == ItemKind::UInt(m.count)
    &&& shows_opt(p, 1, "one_minute", m.one_minute)
    &&& shows_opt(p, 1 + on(m.one_minute is Some), "five_minutes", m.five_minutes)
    &&& shows_opt(p, 1 + on(m.one_minute is Some) + on(m.five_minutes is Some), "fifteen_minutes", m.fifteen_minutes)
}
//@owner C22 C24
//@impl src/instruments/meter.rs MeterSnapshot
//@ fn put_snapshot
    ensures exists|l: Snapshot| #[trigger] nested(described(old($1).items@, "_"@ + self.name@, self.t(), self.de(), $2), final($1).items@, vx_string(self.name@), l)
//@if C22
        && values_of(*self, l.items@)
//@fi
        , grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); }
//@ endfn
    proof { assert(nested(described(old($1).items@, "_"@ + self.name@, self.t(), self.de(), $2), $1.items@, vx_string(self.name@), $1.items@.last().1->Snapshot_0)); }
//@end
//@owner C22
//@item src/instruments/meter.rs struct Meter
pub open spec fn meter_config(a: Meter, b: Meter) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.lower_cutoff == b.lower_cutoff && a.one_minute_rate_enabled == b.one_minute_rate_enabled && a.five_minute_rate_enabled == b.five_minute_rate_enabled && a.fifteen_minute_rate_enabled == b.fifteen_minute_rate_enabled && a.inner_meter.start == b.inner_meter.start }
//@impl src/instruments/meter.rs Meter
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh(r.inner_meter), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.one_minute_rate_enabled, !r.five_minute_rate_enabled, !r.fifteen_minute_rate_enabled,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh(r.inner_meter), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.one_minute_rate_enabled, !r.five_minute_rate_enabled, !r.fifteen_minute_rate_enabled,
//@ fn set_lower_cutoff
    ensures *final(self) == (Meter { lower_cutoff: $1, ..*old(self) }),
//@ fn lower_cutoff
    ensures r == (Meter { lower_cutoff: $1, ..self }),
//@ fn set_one_minute_rate_enabled
    ensures *final(self) == (Meter { one_minute_rate_enabled: $1, ..*old(self) }),
//@ fn one_minute_rate_enabled
    ensures r == (Meter { one_minute_rate_enabled: $1, ..self }),
//@ fn set_five_minute_rate_enabled
    ensures *final(self) == (Meter { five_minute_rate_enabled: $1, ..*old(self) }),
//@ fn five_minute_rate_enabled
    ensures r == (Meter { five_minute_rate_enabled: $1, ..self }),
//@ fn set_fifteen_minute_rate_enabled
    ensures *final(self) == (Meter { fifteen_minute_rate_enabled: $1, ..*old(self) }),
//@ fn fifteen_minute_rate_enabled
    ensures r == (Meter { fifteen_minute_rate_enabled: $1, ..self }),
//@ fn get_snapshot
//@ sig self => &mut self
    requires sound(old(self).inner_meter),
    ensures meter_config(*old(self), *final(self)), read_out(old(self).inner_meter, final(self).inner_meter),
        r.name@ == old(self).name@, same_text(r.title, view_of(old(self).title)), same_text(r.description, view_of(old(self).description)),
        r.count == final(self).inner_meter.data.v.count as u64,
        rate_of(r.one_minute, old(self).one_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[0]),
        rate_of(r.five_minutes, old(self).five_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[1]),
        rate_of(r.fifteen_minutes, old(self).fifteen_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[2]),
//@ start
    broadcast use vx_mm::lemma_due_twice;
//@end
//@impl src/instruments/meter.rs Meter : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a snapshot of the meter under its name
pub open spec fn meter_puts(a: Meter, b: Meter, pre: Items, post: Items, d: bool) -> bool {
    exists|l: Snapshot| #[trigger] nested(described(pre, "_"@ + a.name@, view_of(a.title), view_of(a.description), d), post, a.name, l)
//@if C22
        && l.items@.len() == 1 + on(a.one_minute_rate_enabled) + on(a.five_minute_rate_enabled) + on(a.fifteen_minute_rate_enabled)
        && l.items@[0].0@ == "count"@ && l.items@[0].1 == ItemKind::UInt(b.inner_meter.data.v.count as u64)
        && (a.one_minute_rate_enabled ==> shows_cut(l.items@[1], "one_minute", a.lower_cutoff, b.inner_meter.data.v.ewma@[0]))
        && (a.five_minute_rate_enabled ==> shows_cut(l.items@[1 + on(a.one_minute_rate_enabled)], "five_minutes", a.lower_cutoff, b.inner_meter.data.v.ewma@[1]))
        && (a.fifteen_minute_rate_enabled ==> shows_cut(l.items@[1 + on(a.one_minute_rate_enabled) + on(a.five_minute_rate_enabled)], "fifteen_minutes", a.lower_cutoff, b.inner_meter.data.v.ewma@[2]))
//@fi
}
//@owner C22 C24
//@impl src/instruments/meter.rs Meter : PutsSnapshot
//@ header impl Meter
//@ fn put_snapshot
//@ sig self => &mut self
    requires sound(old(self).inner_meter),
    ensures meter_config(*old(self), *final(self)), read_out(old(self).inner_meter, final(self).inner_meter), meter_puts(*old(self), *final(self), old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); }
//@end
//@owner C22
pub open spec fn meter_count(u: Update) -> int { match u { Update::Observations(n, _) => n as int, Update::Observation(_) => 1, Update::ObservationWithValue(_, _) => 1 } }
//@impl src/instruments/meter.rs Meter : Updates
//@ header impl Meter
//@ fn update
    requires room(state(old(self).inner_meter.data.v), meter_count(*$1)),
    ensures r == 1, meter_config(*old(self), *final(self)), counted(old(self).inner_meter, final(self).inner_meter, meter_count(*$1)),
//@ start
    broadcast use vx_mm::lemma_due_twice;
    proof { ax_some_now(); }
//@end
//@item src/instruments/other_instruments/value_meter.rs struct ValueMeter
pub open spec fn value_meter_config(a: ValueMeter, b: ValueMeter) -> bool { a.name == b.name && a.title == b.title && a.description == b.description && a.lower_cutoff == b.lower_cutoff && a.one_minute_rate_enabled == b.one_minute_rate_enabled && a.five_minute_rate_enabled == b.five_minute_rate_enabled && a.fifteen_minute_rate_enabled == b.fifteen_minute_rate_enabled && a.display_time_unit == b.display_time_unit && a.inner_meter.start == b.inner_meter.start }
//@impl src/instruments/other_instruments/value_meter.rs ValueMeter
//@ fn new
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh(r.inner_meter), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.one_minute_rate_enabled, !r.five_minute_rate_enabled, !r.fifteen_minute_rate_enabled,
//@ fn new_with_defaults
    requires call_requires(<T as Into<String>>::into, ($1,)),
    ensures fresh(r.inner_meter), call_ensures(<T as Into<String>>::into, ($1,), r.name), r.title is None, r.description is None, r.one_minute_rate_enabled, !r.five_minute_rate_enabled, !r.fifteen_minute_rate_enabled,
//@ fn set_lower_cutoff
    ensures *final(self) == (ValueMeter { lower_cutoff: $1, ..*old(self) }),
//@ fn lower_cutoff
    ensures r == (ValueMeter { lower_cutoff: $1, ..self }),
//@ fn set_one_minute_rate_enabled
    ensures *final(self) == (ValueMeter { one_minute_rate_enabled: $1, ..*old(self) }),
//@ fn one_minute_rate_enabled
    ensures r == (ValueMeter { one_minute_rate_enabled: $1, ..self }),
//@ fn set_five_minute_rate_enabled
    ensures *final(self) == (ValueMeter { five_minute_rate_enabled: $1, ..*old(self) }),
//@ fn five_minute_rate_enabled
    ensures r == (ValueMeter { five_minute_rate_enabled: $1, ..self }),
//@ fn set_fifteen_minute_rate_enabled
    ensures *final(self) == (ValueMeter { fifteen_minute_rate_enabled: $1, ..*old(self) }),
//@ fn fifteen_minute_rate_enabled
    ensures r == (ValueMeter { fifteen_minute_rate_enabled: $1, ..self }),
//@ fn set_display_time_unit
    ensures *final(self) == (ValueMeter { display_time_unit: $1, ..*old(self) }),
//@ fn display_time_unit
    ensures r == (ValueMeter { display_time_unit: $1, ..self }),
//@ fn get_snapshot
//@ sig self => &mut self
    requires sound(old(self).inner_meter),
    ensures value_meter_config(*old(self), *final(self)), read_out(old(self).inner_meter, final(self).inner_meter),
        r.name@ == old(self).name@, same_text(r.title, view_of(old(self).title)), same_text(r.description, view_of(old(self).description)),
        r.count == final(self).inner_meter.data.v.count as u64,
        rate_of(r.one_minute, old(self).one_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[0]),
        rate_of(r.five_minutes, old(self).five_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[1]),
        rate_of(r.fifteen_minutes, old(self).fifteen_minute_rate_enabled, old(self).lower_cutoff, final(self).inner_meter.data.v.ewma@[2]),
//@ start
    broadcast use vx_mm::lemma_due_twice;
//@end
//@impl src/instruments/other_instruments/value_meter.rs ValueMeter : Descriptive
//@ add
    open spec fn t(&self) -> Option<Seq<char>> { view_of(self.title) }
    open spec fn de(&self) -> Option<Seq<char>> { view_of(self.description) }
//@ fn title
//@ fn description
//@end
/// a snapshot of the meter under its name
pub open spec fn value_meter_puts(a: ValueMeter, b: ValueMeter, pre: Items, post: Items, d: bool) -> bool {
    exists|l: Snapshot| #[trigger] nested(described(pre, "_"@ + a.name@, view_of(a.title), view_of(a.description), d), post, a.name, l)
//@if C22
        && l.items@.len() == 1 + on(a.one_minute_rate_enabled) + on(a.five_minute_rate_enabled) + on(a.fifteen_minute_rate_enabled)
        && l.items@[0].0@ == "count"@ && l.items@[0].1 == ItemKind::UInt(b.inner_meter.data.v.count as u64)
        && (a.one_minute_rate_enabled ==> shows_cut(l.items@[1], "one_minute", a.lower_cutoff, b.inner_meter.data.v.ewma@[0]))
        && (a.five_minute_rate_enabled ==> shows_cut(l.items@[1 + on(a.one_minute_rate_enabled)], "five_minutes", a.lower_cutoff, b.inner_meter.data.v.ewma@[1]))
        && (a.fifteen_minute_rate_enabled ==> shows_cut(l.items@[1 + on(a.one_minute_rate_enabled) + on(a.five_minute_rate_enabled)], "fifteen_minutes", a.lower_cutoff, b.inner_meter.data.v.ewma@[2]))
//@fi
}
//@owner C22 C24
//@impl src/instruments/other_instruments/value_meter.rs ValueMeter : PutsSnapshot
//@ header impl ValueMeter
//@ fn put_snapshot
//@ sig self => &mut self
    requires sound(old(self).inner_meter),
    ensures value_meter_config(*old(self), *final(self)), read_out(old(self).inner_meter, final(self).inner_meter), value_meter_puts(*old(self), *final(self), old($1).items@, final($1).items@, $2), grows(old($1).items@, final($1).items@),
//@ start
    proof { ax_string(); }
//@end
//@owner C22
/// the whole number an update carries
pub open spec fn meter_value(u: Update, unit: TimeUnit) -> Option<int> { match u {
    Update::ObservationWithValue(ObservedValue::Duration(t, f), _) => Some(conv(t as int, f, unit)),
    Update::ObservationWithValue(v, _) => match as_i64(v) { Some(x) => Some(x as int), None => None },
    _ => None } }
//@impl src/instruments/other_instruments/value_meter.rs ValueMeter : Updates
//@ header impl ValueMeter
//@ fn update
    requires meter_value(*$1, old(self).display_time_unit) matches Some(n) ==> 0 <= n && room(state(old(self).inner_meter.data.v), n),
    ensures value_meter_config(*old(self), *final(self)),
        match meter_value(*$1, old(self).display_time_unit) { Some(n) => r == 1 && counted(old(self).inner_meter, final(self).inner_meter, n), None => r == 0 && final(self).inner_meter == old(self).inner_meter },
//@ start
    broadcast use vx_mm::lemma_due_twice;
    proof { ax_some_now(); }
//@end
//@owner -
