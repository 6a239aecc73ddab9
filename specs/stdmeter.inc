//@floats rates
// ---- the moving averages ----
pub mod vx_mm { use super::*; verus! {
broadcast use {vx_time::ax_instant, vx_time::ax_duration, vx_time::ax_duration_range};
//@type Mutex<StdMeterData> => Mutex<StdMeterData>
//@type [EWMA; 3] => Vec<EWMA>
pub enum Ordering { SeqCst }
/// std::sync::atomic::AtomicUsize, reached through `&mut self` (interior mutability made explicit)
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize {
    #[verifier::external_body] pub fn new(v: usize) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body] pub fn swap(&mut self, v: usize, o: Ordering) -> (r: usize) ensures r == old(self).v, final(self).v == v { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.v { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: usize, o: Ordering) ensures final(self).v == v { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize) ensures r == old(self).v, final(self).v as int == (old(self).v + n) % 0x1_0000_0000_0000_0000 { unimplemented!() }
}
/// std::sync::Mutex: the guard becomes the content, taken out when it is locked and put back when the guard goes out
/// of scope (a poisoned mutex makes the real code panic)
pub struct Mutex<T> { pub v: T }
impl<T> Mutex<T> {
    #[verifier::external_body] pub fn new(v: T) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body] pub fn vx_take(&mut self) -> (r: T) ensures r == old(self).v { unimplemented!() }
    #[verifier::external_body] pub fn vx_put(&mut self, v: T) ensures final(self).v == v { unimplemented!() }
}
//@owner C22
//@item src/instruments/fundamentals/metrics_meter.rs const NANOS_PER_SEC
//@item src/instruments/fundamentals/metrics_meter.rs const TICK_RATE_SECS
//@item src/instruments/fundamentals/metrics_meter.rs const WINDOW
//@item src/instruments/fundamentals/metrics_meter.rs struct EWMA
//@item src/instruments/fundamentals/metrics_meter.rs struct StdMeterData
//@item src/instruments/fundamentals/metrics_meter.rs struct StdMeter
//@item src/instruments/fundamentals/metrics_meter.rs struct MeterSnapshot
/// one tick: what was pending enters the rate, and nothing is pending any more
pub open spec fn instant_rate(n: usize) -> f64 { vx_div_spec(vx_u64_to_f64(n as u64), vx_u64_to_f64(5_000_000_000)) }
pub open spec fn ticked1(e: EWMA) -> EWMA { EWMA { uncounted: AtomicUsize { v: 0 }, alpha: e.alpha, init: true,
    rate: if e.init { vx_add_spec(e.rate, vx_mul_spec(e.alpha, vx_sub_spec(instant_rate(e.uncounted.v), e.rate))) } else { instant_rate(e.uncounted.v) } } }
pub open spec fn plus1(e: EWMA, n: int) -> EWMA { EWMA { uncounted: AtomicUsize { v: (e.uncounted.v + n) as usize }, ..e } }
pub open spec fn shown_rate(e: EWMA) -> f64 { vx_mul_spec(e.rate, vx_u64_to_f64(1_000_000_000)) }
/// the state of a meter: its count, its averages, when the next tick is due
pub struct State { pub count: int, pub e: Seq<EWMA>, pub next: int }
pub open spec fn state(d: StdMeterData) -> State { State { count: d.count as int, e: d.ewma@, next: d.next_tick.ns() } }
pub open spec fn tick_all(e: Seq<EWMA>) -> Seq<EWMA> { Seq::new(e.len(), |i: int| ticked1(e[i])) }
/// all ticks that are due at a time
pub open spec fn ticked(s: State, now: int) -> State decreases now - s.next + 5_000_000_000 { if s.next <= now { ticked(State { e: tick_all(s.e), next: s.next + 5_000_000_000, ..s }, now) } else { s } }
pub open spec fn marked(s: State, n: int) -> State { State { count: s.count + n, e: Seq::new(s.e.len(), |i: int| plus1(s.e[i], n)), ..s } }
/// the count stays, and no more is pending than before
pub open spec fn calm(a: StdMeterData, b: StdMeterData) -> bool { b.ewma@.len() == a.ewma@.len() && b.count == a.count && forall|i: int| 0 <= i < a.ewma@.len() ==> (#[trigger] b.ewma@[i]).uncounted.v <= a.ewma@[i].uncounted.v }
/// room for n more
pub open spec fn room(s: State, n: int) -> bool { s.e.len() == 3 && 0 <= n <= i64::MAX && i64::MIN <= s.count + n <= i64::MAX && forall|i: int| 0 <= i < 3 ==> (#[trigger] s.e[i]).uncounted.v + n <= usize::MAX }
pub proof fn lemma_ticked(s: State, now: int)
    ensures ticked(s, now).count == s.count, ticked(s, now).e.len() == s.e.len(),
        forall|i: int| 0 <= i < s.e.len() ==> (#[trigger] ticked(s, now).e[i]).uncounted.v <= s.e[i].uncounted.v,
        ticked(s, now).next > now, ticked(s, now).next - 5_000_000_000 <= now || ticked(s, now).next == s.next,
        (ticked(s, now).next - s.next) % 5_000_000_000 == 0, ticked(s, now).next >= s.next,
    decreases now - s.next + 5_000_000_000
{ if s.next <= now { let t = State { e: tick_all(s.e), next: s.next + 5_000_000_000, ..s }; lemma_ticked(t, now); assert forall|i: int| 0 <= i < s.e.len() implies (#[trigger] ticked(s, now).e[i]).uncounted.v <= s.e[i].uncounted.v by { assert(ticked(t, now).e[i].uncounted.v <= t.e[i].uncounted.v); } } }
/// ticking twice is ticking up to the later time
pub proof fn lemma_ticked_twice(s: State, a: int, b: int)
    ensures ticked(ticked(s, a), b) == ticked(s, if a >= b { a } else { b })
    decreases a - s.next + 5_000_000_000
{
    if s.next <= a { let t = State { e: tick_all(s.e), next: s.next + 5_000_000_000, ..s }; lemma_ticked_twice(t, a, b); }
    if a >= b { lemma_ticked(s, a); }
}
/// exactly the ticks due at some reading of the clock
#[verifier::opaque]
pub open spec fn due(a: State, b: State) -> bool { exists|now: Instant| #[trigger] vx_is_now(now) && b == ticked(a, now.ns()) }
pub open spec fn counts(a: State, b: State, n: int) -> bool { exists|m: State| #[trigger] due(a, m) && b == marked(m, n) }
pub proof fn lemma_due(a: State, b: State, now: Instant) requires vx_is_now(now), b == ticked(a, now.ns()) ensures due(a, b) { reveal(due); }
pub broadcast proof fn lemma_due_twice(a: State, b: State, c: State) requires #[trigger] due(a, b), #[trigger] due(b, c) ensures due(a, c) {
    reveal(due);
    let x = choose|now: Instant| #[trigger] vx_is_now(now) && b == ticked(a, now.ns());
    let y = choose|now: Instant| #[trigger] vx_is_now(now) && c == ticked(b, now.ns());
    lemma_ticked_twice(a, x.ns(), y.ns());
    if x.ns() >= y.ns() { assert(vx_is_now(x) && c == ticked(a, x.ns())); } else { assert(vx_is_now(y) && c == ticked(a, y.ns())); }
}
/// ticks are due exactly every five seconds counted from construction: after the due ticks as many have been made as
/// full five seconds have passed
pub open spec fn on_schedule(s: State, start: int) -> bool { s.next > start && (s.next - start) % 5_000_000_000 == 0 }
pub open spec fn ticks_made(s: State, start: int) -> int { (s.next - start) / 5_000_000_000 - 1 }
pub proof fn lemma_schedule(s: State, start: int, now: int)
    requires on_schedule(s, start), now >= s.next - 5_000_000_000
    ensures on_schedule(ticked(s, now), start), ticks_made(ticked(s, now), start) == (now - start) / 5_000_000_000
    decreases now - s.next + 5_000_000_000
{ if s.next <= now { lemma_schedule(State { e: tick_all(s.e), next: s.next + 5_000_000_000, ..s }, start, now); } }
/// a history of updates: whatever ticks come in between, the count is the sum of what was counted
pub open spec fn sum(n: Seq<int>) -> int decreases n.len() { if n.len() == 0 { 0 } else { sum(n.drop_last()) + n.last() } }
pub open spec fn history(t: Seq<State>, n: Seq<int>) -> bool { t.len() == n.len() + 1 && forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> counts(t[i], t[i + 1], n[i]) || (n[i] == 0 && (t[i + 1] == t[i] || due(t[i], t[i + 1]))) }
pub proof fn lemma_history(t: Seq<State>, n: Seq<int>) requires history(t, n) ensures t.last().count == t[0].count + sum(n) decreases n.len()
{
    if n.len() > 0 {
        let (u, m) = (t.drop_last(), n.drop_last());
        assert(history(u, m)) by { assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies counts(u[i], u[i + 1], m[i]) || (m[i] == 0 && (u[i + 1] == u[i] || due(u[i], u[i + 1]))) by { assert(n[i] == m[i]); } }
        lemma_history(u, m);
        let k = n.len() - 1;
        assert(n[k] == n.last());
        reveal(due);
        if counts(t[k], t[k + 1], n[k]) {
            let x = choose|x: State| #[trigger] due(t[k], x) && t[k + 1] == marked(x, n[k]);
            let now = choose|now: Instant| #[trigger] vx_is_now(now) && x == ticked(t[k], now.ns());
            lemma_ticked(t[k], now.ns());
        } else if t[k + 1] != t[k] {
            let now = choose|now: Instant| #[trigger] vx_is_now(now) && t[k + 1] == ticked(t[k], now.ns());
            lemma_ticked(t[k], now.ns());
        }
    }
}
//@impl src/instruments/fundamentals/metrics_meter.rs EWMA
//@ fn rate
    ensures r == shown_rate(*self),
//@ fn tick
    ensures *final(self) == ticked1(*old(self)),
//@ fn update
//@ sig self => &mut self
    requires old(self).uncounted.v + $1 <= usize::MAX,
    ensures *final(self) == plus1(*old(self), $1 as int),
//@ fn new_by_alpha
    ensures r.uncounted.v == 0, !r.init, r.alpha == $1,
//@ fn new
    ensures r.uncounted.v == 0, !r.init,
//@end
//@impl src/instruments/fundamentals/metrics_meter.rs StdMeter
//@ fn tick_inner
    ensures due(state(*old($1)), state(*final($1))),
        calm(*old($1), *final($1)),
//@ endfn
    proof { lemma_due(state(*old($1)), state(*$1), $n0~now); lemma_ticked(state(*old($1)), $n0~now.ns()); assert forall|i: int| 0 <= i < old($1).ewma@.len() implies (#[trigger] $1.ewma@[i]).uncounted.v <= old($1).ewma@[i].uncounted.v by { assert(ticked(state(*old($1)), $n0~now.ns()).e[i] == $1.ewma@[i]); } }
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant vx_is_now($n0~now), ticked(state(*$1), $n0~now.ns()) == ticked(state(*old($1)), $n0~now.ns()),
    decreases $n0~now.ns() - $1.next_tick.ns() + 5_000_000_000,
//@ loop 0 start
    let ghost vx_s = state(*$1);
//@ loop 0 end
    proof { assert($1.ewma@ =~= tick_all(vx_s.e)); assert(state(*$1) == State { e: tick_all(vx_s.e), next: vx_s.next + 5_000_000_000, ..vx_s }); }
//@ loop 1 attr
    #[verifier::loop_isolation(false)]
//@ loop 1
    invariant $it.seq().len() == vx_s.e.len(), forall|j: int| $it.index() <= j < $it.seq().len() ==> *(#[trigger] $it.seq()[j]) == vx_s.e[j],
        forall|j: int| 0 <= j < $it.index() ==> *final(#[trigger] $it.seq()[j]) == ticked1(vx_s.e[j]),
//@ fn mean_inner
//@ assumed
//@end
//@impl src/instruments/fundamentals/metrics_meter.rs StdMeter : Meter
//@ header impl StdMeter
//@ fn snapshot
//@ flag pub
//@ sig self => &mut self
//@ subst self.data.lock().unwrap() => self.data.vx_take()
    requires old(self).data.v.ewma@.len() == 3,
    ensures calm(old(self).data.v, final(self).data.v), final(self).start == old(self).start, due(state(old(self).data.v), state(final(self).data.v)),
        r.count == final(self).data.v.count, forall|i: int| 0 <= i < 3 ==> #[trigger] r.rates[i] == shown_rate(final(self).data.v.ewma@[i]),
//@ onreturn
    self.data.vx_put($m0);
    let ghost _vx = $r;
//@ fn mark
//@ flag pub
//@ sig self => &mut self
//@ subst self.data.lock().unwrap() => self.data.vx_take()
//@ flag asindex 0
    requires room(state(old(self).data.v), $1 as int),
    ensures final(self).start == old(self).start, counts(state(old(self).data.v), state(final(self).data.v), $1 as int),
//@ loop 0 before
    let ghost vx_e = $m0.ewma@;
//@ loop 0 attr
    #[verifier::loop_isolation(false)]
//@ loop 0
    invariant $m0.ewma@.len() == 3, forall|i: int| 0 <= i < $it.index() ==> #[trigger] $m0.ewma@[i] == plus1(vx_e[i], $1 as int), forall|i: int| $it.index() <= i < 3 ==> #[trigger] $m0.ewma@[i] == vx_e[i],
//@ onreturn
    self.data.vx_put($m0);
    proof { assert($m0.ewma@ =~= Seq::new(vx_e.len(), |i: int| plus1(vx_e[i], $1 as int))); }
//@ fn tick
//@ flag pub
//@ sig self => &mut self
//@ subst self.data.lock().unwrap() => self.data.vx_take()
    ensures calm(old(self).data.v, final(self).data.v), final(self).start == old(self).start, due(state(old(self).data.v), state(final(self).data.v)),
//@ onreturn
    self.data.vx_put($m0);
//@ fn count
//@ sig self => &mut self
//@ subst self.data.lock().unwrap() => self.data.vx_take()
    ensures r == old(self).data.v.count, *final(self) == *old(self),
//@ onreturn
    self.data.vx_put($n0);
    let ghost _vx = $r;
//@end
//@impl src/instruments/fundamentals/metrics_meter.rs StdMeter : Default
//@ header impl StdMeter
//@ fn default
//@ flag pub
    ensures r.data.v.count == 0, r.data.v.ewma@.len() == 3, forall|i: int| 0 <= i < 3 ==> (#[trigger] r.data.v.ewma@[i]).uncounted.v == 0 && !r.data.v.ewma@[i].init,
        vx_is_now(r.start), r.data.v.next_tick.ns() == r.start.ns() + 5_000_000_000,
//@ subst [__a, __b, __c] => vec![__a, __b, __c]
//@end
} }
pub use vx_mm::{StdMeter, EWMA, State, state, ticked, marked, room, shown_rate, due, counts};
