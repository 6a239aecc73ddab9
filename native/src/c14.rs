//! C14: observed values convert without changing the number.
use crate::{util::*, *};
use metrix::snapshot::ItemKind;
use metrix::*;

macro_rules! f { ($v:expr, $w:expr) => {{ let v = $v; let g: ObservedValue = v.into(); let w = $w; must!(veq(&g, &w), "From<{}>({:?}): got {:?}, expected {:?}", std::any::type_name_of_val(&v), v, g, w); }} }
fn into_value(c: &mut Case) {
    let r = &mut c.rng;
    let (i, u, f) = (r.i64b(), r.u64b(), r.f64b());
    c.log(format!("{} {} {}", i, u, f));
    use ObservedValue::*;
    f!(i, SignedInteger(i)); f!(i as i32, SignedInteger(i as i32 as i64)); f!(i as i16, SignedInteger(i as i16 as i64)); f!(i as i8, SignedInteger(i as i8 as i64));
    f!(u, UnsignedInteger(u)); f!(u as u32, UnsignedInteger(u as u32 as u64)); f!(u as u16, UnsignedInteger(u as u16 as u64)); f!(u as u8, UnsignedInteger(u as u8 as u64)); f!(u as usize, UnsignedInteger(u));
    f!(f, Float(f)); f!(true, Bool(true)); f!(false, Bool(false));
    f!(Increment, ChangedBy(1)); f!(Decrement, ChangedBy(-1));
    f!(IncrementBy(u as u32), ChangedBy(u as u32 as i64)); f!(DecrementBy(u as u32), ChangedBy(-(u as u32 as i64))); f!(ChangeBy(i), ChangedBy(i));
    // items
    macro_rules! k { ($v:expr, $w:expr) => {{ let v = $v; let g: ItemKind = v.into(); must!(ieq(&g, &$w), "ItemKind::from({:?}): got {:?}", v, g); }} }
    k!(i, ItemKind::Int(i)); k!(i as i32, ItemKind::Int(i as i32 as i64)); k!(i as i16, ItemKind::Int(i as i16 as i64)); k!(i as i8, ItemKind::Int(i as i8 as i64)); k!(i as isize, ItemKind::Int(i));
    k!(u, ItemKind::UInt(u)); k!(u as u32, ItemKind::UInt(u as u32 as u64)); k!(u as u16, ItemKind::UInt(u as u16 as u64)); k!(u as u8, ItemKind::UInt(u as u8 as u64)); k!(u as usize, ItemKind::UInt(u));
    k!(f, ItemKind::Float(f)); k!(f as f32, ItemKind::Float(f as f32 as f64)); k!(true, ItemKind::Boolean(true)); k!(false, ItemKind::Boolean(false)); k!("x", ItemKind::Text("x".into()));
}
fn out_of_value(c: &mut Case) {
    let v = value(&mut c.rng);
    c.log(format!("{:?}", v));
    must_eq!(v.convert_to_i64(), as_i64(&v), "convert_to_i64 of {:?}", v);
    must_eq!(v.convert_to_u64(), as_u64(&v), "convert_to_u64 of {:?}", v);
    must_eq!(v.convert_to_bool(), as_bool(&v), "convert_to_bool of {:?}", v);
    let delta = matches!(v, ObservedValue::ChangedBy(_));
    must_eq!(v.is_delta(), delta, "is_delta of {:?}", v);
    let item = match v { ObservedValue::SignedInteger(v) => Some(ItemKind::Int(v)), ObservedValue::UnsignedInteger(v) => Some(ItemKind::UInt(v)), ObservedValue::Float(v) => Some(ItemKind::Float(v)), ObservedValue::Bool(v) => Some(ItemKind::Boolean(v)), _ => None };
    for (w, g) in [("to_item_kind", v.to_item_kind()), ("Option<ItemKind>::from", Option::<ItemKind>::from(v))] {
        must!(match (&g, &item) { (None, None) => true, (Some(a), Some(b)) => ieq(a, b), _ => false }, "{} of {:?}: got {:?}", w, v, g);
    }
    let o = obs(&mut c.rng, 1u8, v);
    let od = matches!(o, Observation::ObservedOneValue { value: ObservedValue::ChangedBy(_), .. });
    must_eq!(ObservationLike::is_delta(&o), od, "is_delta of {:?}", o);
}
pub const CONTRACTS: &[Contract] = &[("into_value", into_value), ("out_of_value", out_of_value)];
