//! Contracts decided bit-exactly by Kani (loop-free: every input, no bound).
#[cfg(kani)]
mod c14 {
    use metrix::ObservedValue;
    /// the number nearest to v, ties away from zero, as an exact i128 (|v| < 2^64)
    fn nearest(v: f64) -> i128 {
        let t = v as i128; // exact truncation
        let frac = v - (t as f64); // exact: |v| >= 2^53 has no fraction
        if frac >= 0.5 { t + 1 } else if frac <= -0.5 { t - 1 } else { t }
    }
    #[kani::proof]
    fn float_to_i64() {
        let v: f64 = f64::from_bits(kani::any());
        let r = ObservedValue::Float(v).convert_to_i64();
        if v.is_nan() || v >= 9223372036854775808.0 || v < -9223372036854775808.0 { assert!(r.is_none()); }
        else {
            let n = nearest(v);
            if n >= i64::MIN as i128 && n <= i64::MAX as i128 { assert!(r == Some(n as i64)); } else { assert!(r.is_none()); }
        }
    }
    #[kani::proof]
    fn float_to_u64() {
        let v: f64 = f64::from_bits(kani::any());
        let r = ObservedValue::Float(v).convert_to_u64();
        if v.is_nan() || v >= 18446744073709551616.0 || v < -1.0 { assert!(r.is_none()); }
        else {
            let n = nearest(v);
            if n >= 0 && n <= u64::MAX as i128 { assert!(r == Some(n as u64)); } else { assert!(r.is_none()); }
        }
    }
}
