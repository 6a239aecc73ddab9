// ---- f64: uninterpreted (decided by the bit-exact Kani / native contracts) ----
pub trait VxNum: Sized { spec fn vx_f(self) -> f64; spec fn vx_i64(self) -> i64; spec fn vx_u64(self) -> u64; }
pub uninterp spec fn vx_u64_to_f64(v: u64) -> f64;
pub uninterp spec fn vx_i64_to_f64(v: i64) -> f64;
pub uninterp spec fn vx_f64_to_i64(v: f64) -> i64;
pub uninterp spec fn vx_f64_to_u64(v: f64) -> u64;
impl VxNum for u64 { open spec fn vx_f(self) -> f64 { vx_u64_to_f64(self) } open spec fn vx_i64(self) -> i64 { self as i64 } open spec fn vx_u64(self) -> u64 { self } }
impl VxNum for i64 { open spec fn vx_f(self) -> f64 { vx_i64_to_f64(self) } open spec fn vx_i64(self) -> i64 { self } open spec fn vx_u64(self) -> u64 { self as u64 } }
impl VxNum for u32 { open spec fn vx_f(self) -> f64 { vx_u64_to_f64(self as u64) } open spec fn vx_i64(self) -> i64 { self as i64 } open spec fn vx_u64(self) -> u64 { self as u64 } }
impl VxNum for usize { open spec fn vx_f(self) -> f64 { vx_u64_to_f64(self as u64) } open spec fn vx_i64(self) -> i64 { self as i64 } open spec fn vx_u64(self) -> u64 { self as u64 } }
impl VxNum for f64 { open spec fn vx_f(self) -> f64 { self } open spec fn vx_i64(self) -> i64 { vx_f64_to_i64(self) } open spec fn vx_u64(self) -> u64 { vx_f64_to_u64(self) } }
#[verifier::external_body] pub fn vx_as_f64<T: VxNum>(v: T) -> (r: f64) ensures r == v.vx_f() { unimplemented!() }
#[verifier::external_body] pub fn vx_as_i64<T: VxNum>(v: T) -> (r: i64) ensures r == v.vx_i64() { unimplemented!() }
#[verifier::external_body] pub fn vx_as_u64<T: VxNum>(v: T) -> (r: u64) ensures r == v.vx_u64() { unimplemented!() }
pub uninterp spec fn vx_round_spec(v: f64) -> f64;
pub uninterp spec fn vx_div_spec(a: f64, b: f64) -> f64;
pub uninterp spec fn vx_mul_spec(a: f64, b: f64) -> f64;
pub uninterp spec fn vx_add_spec(a: f64, b: f64) -> f64;
pub uninterp spec fn vx_sub_spec(a: f64, b: f64) -> f64;
pub uninterp spec fn vx_le_spec(a: f64, b: f64) -> bool;
pub uninterp spec fn vx_lt_spec(a: f64, b: f64) -> bool;
#[verifier::external_body] pub fn vx_round(v: f64) -> (r: f64) ensures r == vx_round_spec(v) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_div(a: f64, b: f64) -> (r: f64) ensures r == vx_div_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_mul(a: f64, b: f64) -> (r: f64) ensures r == vx_mul_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_add(a: f64, b: f64) -> (r: f64) ensures r == vx_add_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_sub(a: f64, b: f64) -> (r: f64) ensures r == vx_sub_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_le(a: f64, b: f64) -> (r: bool) ensures r == vx_le_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_lt(a: f64, b: f64) -> (r: bool) ensures r == vx_lt_spec(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_ge(a: f64, b: f64) -> (r: bool) ensures r == vx_le_spec(b, a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_gt(a: f64, b: f64) -> (r: bool) ensures r == vx_lt_spec(b, a) { unimplemented!() }
pub uninterp spec fn vx_neg_spec(a: f64) -> f64;
pub uninterp spec fn vx_exp_spec(a: f64) -> f64;
#[verifier::external_body] pub fn vx_f64_neg(a: f64) -> (r: f64) ensures r == vx_neg_spec(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_exp(a: f64) -> (r: f64) ensures r == vx_exp_spec(a) { unimplemented!() }
