#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std.inc
//@include str.inc
//@include num.inc
//@include time.inc
//@include obs.inc
//@if C13
/// what a display value must be
pub open spec fn conv(t: int, from: TimeUnit, to: TimeUnit) -> int { (t * per(from)) / per(to) }
pub open spec fn rank(u: TimeUnit) -> int { match u { TimeUnit::Nanoseconds => 0, TimeUnit::Microseconds => 1, TimeUnit::Milliseconds => 2, TimeUnit::Seconds => 3 } }
/// 1000 to the power of n
pub open spec fn kilo(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 1_000 } else if n == 2 { 1_000_000 } else { 1_000_000_000 } }
pub proof fn lemma_per(a: TimeUnit, b: TimeUnit)
    ensures rank(a) >= rank(b) ==> per(a) == kilo(rank(a) - rank(b)) * per(b), rank(a) <= rank(b) ==> per(b) == kilo(rank(b) - rank(a)) * per(a),
{
    match a { TimeUnit::Nanoseconds => (), TimeUnit::Microseconds => (), TimeUnit::Milliseconds => (), TimeUnit::Seconds => () }
    match b { TimeUnit::Nanoseconds => (), TimeUnit::Microseconds => (), TimeUnit::Milliseconds => (), TimeUnit::Seconds => () }
}
proof fn lemma_mul_div(k: int, m: int)
    requires m > 0
    ensures (k * m) / m == k
{
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, m);
    assert(k * m == m * k) by (nonlinear_arith);
}
/// a conversion multiplies or divides by one power of 1000
pub proof fn lemma_conv_pair(t: int, a: TimeUnit, b: TimeUnit)
    requires t >= 0
    ensures rank(a) >= rank(b) ==> conv(t, a, b) == t * kilo(rank(a) - rank(b)), rank(a) <= rank(b) ==> conv(t, a, b) == t / kilo(rank(b) - rank(a)),
{
    lemma_per(a, b);
    if rank(a) >= rank(b) {
        let q = kilo(rank(a) - rank(b));
        assert(t * per(a) == (t * q) * per(b)) by (nonlinear_arith) requires per(a) == q * per(b);
        lemma_mul_div(t * q, per(b));
    }
    if rank(a) <= rank(b) {
        let q = kilo(rank(b) - rank(a));
        assert(per(b) == per(a) * q) by (nonlinear_arith) requires per(b) == q * per(a);
        vstd::arithmetic::div_mod::lemma_div_denominator(t * per(a), per(a), q);
        lemma_mul_div(t, per(a));
    }
}
/// converting to a finer (or the same) unit is exact
pub proof fn lemma_conv_exact(t: int, from: TimeUnit, to: TimeUnit)
    requires t >= 0, per(from) >= per(to)
    ensures conv(t, from, to) * per(to) == t * per(from)
{
    lemma_per(from, to);
    lemma_conv_pair(t, from, to);
    let q = kilo(rank(from) - rank(to));
    assert(t * per(from) == (t * q) * per(to)) by (nonlinear_arith) requires per(from) == q * per(to);
}
/// converting to a coarser unit rounds down
pub proof fn lemma_conv_floor(t: int, from: TimeUnit, to: TimeUnit)
    requires t >= 0
    ensures conv(t, from, to) * per(to) <= t * per(from) < (conv(t, from, to) + 1) * per(to)
{
    let x = t * per(from); let m = per(to);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, m);
    assert((x / m + 1) * m == m * (x / m) + m) by (nonlinear_arith);
    assert((x / m) * m == m * (x / m)) by (nonlinear_arith);
}
//@fn src/instruments/mod.rs duration_to_display_value
    requires conv($1 as int, $2, $3) <= u64::MAX,
    ensures r == conv($1 as int, $2, $3),
//@ start
    proof { lemma_conv_pair($1 as int, $2, $3); }
//@end
//@fi
//@if C14
//@include f64.inc
pub open spec fn fits_i64(r: f64) -> bool { vx_le_spec(vx_i64_to_f64(i64::MIN), r) && vx_lt_spec(r, vx_i64_to_f64(i64::MAX)) }
//@impl src/observation.rs ObservedValue
//@ fn to_item_kind
    ensures r == (match *self {
        ObservedValue::SignedInteger(v) => Some(ItemKind::Int(v)),
        ObservedValue::UnsignedInteger(v) => Some(ItemKind::UInt(v)),
        ObservedValue::Float(v) => Some(ItemKind::Float(v)),
        ObservedValue::Bool(v) => Some(ItemKind::Boolean(v)),
        _ => None }),
//@ fn is_delta
    ensures r == (self is ChangedBy),
//@ fn convert_to_i64
    ensures match *self {
        ObservedValue::SignedInteger(v) => r == Some(v),
        ObservedValue::UnsignedInteger(v) => r == (if v <= i64::MAX { Some(v as i64) } else { None }),
        ObservedValue::Float(_) => true, // floats: decided bit-exactly by the Kani contract
        _ => r is None },
//@ flag substs_optional
//@ subst __v.round() => vx_round(__v)
//@ subst __v.round() as i64 => vx_as_i64(vx_round(__v))
//@ subst __v as i64 => vx_as_i64(__v)
//@ fn convert_to_u64
    ensures match *self {
        ObservedValue::SignedInteger(v) => r == (if v >= 0 { Some(v as u64) } else { None }),
        ObservedValue::UnsignedInteger(v) => r == Some(v),
        ObservedValue::Float(_) => true, // floats: decided bit-exactly by the Kani contract
        _ => r is None },
//@ flag substs_optional
//@ subst __v.round() => vx_round(__v)
//@ subst __v.round() as u64 => vx_as_u64(vx_round(__v))
//@ subst __v as u64 => vx_as_u64(__v)
//@ subst __v >= 0.0 => vx_f64_le(0.0f64, __v)
//@ fn convert_to_bool
    ensures r == (match *self {
        ObservedValue::SignedInteger(v) => Some(v != 0),
        ObservedValue::UnsignedInteger(v) => Some(v != 0),
        ObservedValue::Bool(v) => Some(v),
        _ => None }),
//@end
//@impl src/snapshot.rs Option<ItemKind> : From<ObservedValue>
//@ header impl VxFrom<ObservedValue> for Option<ItemKind>
//@ add
    open spec fn vx_pre(v: ObservedValue) -> bool { true }
    open spec fn vx_post(v: ObservedValue, r: Self) -> bool { r == (match v {
        ObservedValue::SignedInteger(v) => Some(ItemKind::Int(v)),
        ObservedValue::UnsignedInteger(v) => Some(ItemKind::UInt(v)),
        ObservedValue::Float(v) => Some(ItemKind::Float(v)),
        ObservedValue::Bool(v) => Some(ItemKind::Boolean(v)),
        _ => None }) }
//@ fn from
//@end
//@impl src/observation.rs Observation : ObservationLike
//@ header impl<L> Observation<L>
//@ fn is_delta
    ensures r == (self is ObservedOneValue && self->value is ChangedBy),
//@end
//@fi
} // verus!
fn main() {}
