//! C08: numeric key-value values convert exactly or not at all; the lossy
//! conversions saturate or wrap exactly as documented.
use crate::util::*;
use bonsaidb_core::keyvalue::Numeric;
use sym::*;

fn num() -> (u8, Numeric) { match below(3) { 0 => (0, Numeric::Integer(any())), 1 => (1, Numeric::UnsignedInteger(any())), _ => (2, Numeric::Float(f64::from_bits(any()))) } }
/// The mathematical integer a float denotes, from its bits, if it is one of magnitude < 2^64.
fn exact(v: f64) -> Option<i128> {
    let b = v.to_bits(); let neg = b >> 63 == 1; let e = ((b >> 52) & 0x7ff) as i32; let m = b & ((1 << 52) - 1);
    if e == 0x7ff { return None; }
    if e == 0 { return if m == 0 { Some(0) } else { None }; }
    let m = (m | 1 << 52) as u128; let sh = e - 1075;
    let a = if sh >= 0 { if sh > 11 { return None; } m << sh } else { let k = -sh; if k > 52 { return None; } if m & ((1u128 << k) - 1) != 0 { return None; } m >> k };
    Some(if neg { -(a as i128) } else { a as i128 })
}
/// Truncation toward zero, saturated to `lo..=hi` (NaN is zero).
fn sat(v: f64, lo: i128, hi: i128) -> i128 {
    if v.is_nan() { return 0; }
    let b = v.to_bits(); let neg = b >> 63 == 1; let e = ((b >> 52) & 0x7ff) as i32; let m = b & ((1 << 52) - 1);
    let a: i128 = if e < 1023 { 0 } else if e > 1023 + 64 { 1 << 100 } else { let m = (m | 1 << 52) as i128; let sh = e - 1075; if sh >= 0 { m << sh } else { m >> -sh } };
    let a = if neg { -a } else { a };
    if a < lo { lo } else if a > hi { hi } else { a }
}

harnesses! {
    c08_i64_int [4] { let v: i64 = any(); assert!(Numeric::Integer(v).as_i64() == Some(v)); assert!(Numeric::Integer(v).as_u64() == if v < 0 { None } else { Some(v as u64) }); }
    c08_u64_uint [4] { let v: u64 = any(); assert!(Numeric::UnsignedInteger(v).as_u64() == Some(v)); assert!(Numeric::UnsignedInteger(v).as_i64() == if v >> 63 == 1 { None } else { Some(v as i64) }); }
    c08_i64_float [4] { let v = f64::from_bits(any()); let want = match exact(v) { Some(x) if x >= -(1 << 63) && x < 1 << 63 => Some(x as i64), _ => None }; assert!(Numeric::Float(v).as_i64() == want, "exact or None"); }
    c08_u64_float [4] { let v = f64::from_bits(any()); let want = match exact(v) { Some(x) if x >= 0 && x < 1 << 64 => Some(x as u64), _ => None }; assert!(Numeric::Float(v).as_u64() == want, "exact or None"); }
    c08_f64_int [10] { let v: i64 = any(); match Numeric::Integer(v).as_f64() { Some(f) => assert!(exact(f) == Some(v as i128), "exact"), None => assert!(v > 1 << 53 || v < -(1 << 53), "exactly representable") } }
    c08_f64_uint [10] { let v: u64 = any(); match Numeric::UnsignedInteger(v).as_f64() { Some(f) => assert!(exact(f) == Some(v as i128), "exact"), None => assert!(v > 1 << 53, "exactly representable") } }
    c08_f64_float [4] { let b: u64 = any(); assert!(Numeric::Float(f64::from_bits(b)).as_f64().map(f64::to_bits) == Some(b)); assert!(Numeric::Float(f64::from_bits(b)).as_f64_lossy().to_bits() == b); }
    c08_lossy_i64_saturating [4] { let (k, n) = num(); let r = n.as_i64_lossy(true) as i128; match n { Numeric::Integer(v) => assert!(r == v as i128), Numeric::UnsignedInteger(v) => assert!(r == (v as i128).min(i64::MAX as i128), "saturates"), Numeric::Float(v) => assert!(r == sat(v, i64::MIN as i128, i64::MAX as i128), "saturates") } let _ = k; }
    c08_lossy_u64_saturating [4] { let (_, n) = num(); let r = n.as_u64_lossy(true) as i128; match n { Numeric::Integer(v) => assert!(r == (v as i128).max(0), "saturates"), Numeric::UnsignedInteger(v) => assert!(r == v as i128), Numeric::Float(v) => assert!(r == sat(v, 0, u64::MAX as i128), "saturates") } }
    c08_lossy_wrapping [4] { let (_, n) = num(); let (i, u) = (n.as_i64_lossy(false), n.as_u64_lossy(false)); match n { Numeric::Integer(v) => assert!(i == v && u == v as u64, "wraps"), Numeric::UnsignedInteger(v) => assert!(i == v as i64 && u == v, "wraps"), Numeric::Float(v) => assert!(i as i128 == sat(v, i64::MIN as i128, i64::MAX as i128) && u as i128 == sat(v, 0, u64::MAX as i128)) } }
    c08_validate [4] { let (_, n) = num(); let nan = matches!(n, Numeric::Float(f) if f.is_nan()); let r = n.clone().validate(); let o = r.is_ok(); if let Ok(m) = &r { match (n, m.clone()) { (Numeric::Integer(a), Numeric::Integer(b)) => assert!(a == b), (Numeric::UnsignedInteger(a), Numeric::UnsignedInteger(b)) => assert!(a == b), (Numeric::Float(a), Numeric::Float(b)) => assert!(a.to_bits() == b.to_bits()), _ => assert!(false, "same kind") } } std::mem::forget(r); assert!(o == !nan, "rejects exactly NaN"); }
    c08_try_from [4] { let (k, n) = num(); assert!(i64::try_from(n.clone()).is_ok() == (k == 0)); assert!(u64::try_from(n.clone()).is_ok() == (k == 1)); assert!(f64::try_from(n).is_ok() == (k == 2));
        let i: i64 = any(); assert!(i64::try_from(Numeric::from(i)).ok() == Some(i)); let u: u64 = any(); assert!(u64::try_from(Numeric::from(u)).ok() == Some(u)); let f: u64 = any(); assert!(f64::try_from(Numeric::from(f64::from_bits(f))).ok().map(f64::to_bits) == Some(f)); }
    c08_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}
bounded! {
    c08_b_float [20000] { let v = match below(4) { 0 => f64::from_bits(any()), 1 => any::<i64>() as f64, 2 => any::<u64>() as f64, _ => (any::<i64>() >> below(64)) as f64 + [0.0, 0.5, -0.5, 1e-9][below(4)] }; let e = exact(v); assert!(Numeric::Float(v).as_i64().map(i128::from) == e.filter(|x| i64::try_from(*x).is_ok()), "{v}"); assert!(Numeric::Float(v).as_u64().map(i128::from) == e.filter(|x| u64::try_from(*x).is_ok()), "{v}"); }
    c08_b_lossy [20000] { let i: i64 = any(); assert!(Numeric::Integer(i).as_f64_lossy() == i as f64); let u: u64 = any(); assert!(Numeric::UnsignedInteger(u).as_f64_lossy() == u as f64); }
}
