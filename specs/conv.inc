// ---- converted values ----
//@owner C13
pub open spec fn conv(t: int, from: TimeUnit, to: TimeUnit) -> int { (t * per(from)) / per(to) }
//@fn src/instruments/mod.rs duration_to_display_value
    requires conv($1 as int, $2, $3) <= u64::MAX,
    ensures r == conv($1 as int, $2, $3),
//@end
//@owner C14
/// a float rounded to the nearest signed integer, or nothing: decided bit-exactly by C14
pub uninterp spec fn vx_float_i64(f: f64) -> Option<i64>;
pub open spec fn as_i64(v: ObservedValue) -> Option<i64> { match v {
    ObservedValue::SignedInteger(v) => Some(v),
    ObservedValue::UnsignedInteger(v) => if v <= i64::MAX { Some(v as i64) } else { None },
    ObservedValue::Float(f) => vx_float_i64(f),
    _ => None } }
//@impl src/observation.rs ObservedValue
//@ fn convert_to_i64
    ensures r == as_i64(*self),
//@end
//@owner -
