//! C02: byte order of encodings == order of values.
use crate::types::*;
use crate::util::*;
use bonsaidb_core::key::*;
use std::num::*;
use std::time::Duration;
use sym::*;

macro_rules! ord { ($e:expr) => {{ let x = $e; let y = $e; ordered(&x, &y); }} }
macro_rules! nz { ($t:ident, $p:ty, $nonneg:expr) => {{
    let a: $p = any(); let b: $p = any(); assume(a != 0 && b != 0);
    // KNOWN-FINDING C02-signed-fixed: both-negative/non-negative pairs only.
    if $nonneg { assume((a < (0 as $p)) == (b < (0 as $p))); }
    if let (Some(x), Some(y)) = ($t::new(a), $t::new(b)) { ordered(&x, &y); }
}} }
macro_rules! same_sign { ($t:ty) => {{
    let a: $t = any(); let b: $t = any();
    // KNOWN-FINDING C02-signed-fixed: order is only claimed within one sign.
    assume((a < 0) == (b < 0));
    ordered(&a, &b);
}} }

harnesses! {
    c02_u8 [20] { ord!(any::<u8>()) }
    c02_u16 [20] { ord!(any::<u16>()) }
    c02_u32 [20] { ord!(any::<u32>()) }
    c02_u64 [20] { ord!(any::<u64>()) }
    c02_u128 [20] { ord!(any::<u128>()) }
    c02_i8 [20] { same_sign!(i8) }
    c02_i16 [20] { same_sign!(i16) }
    c02_i32 [20] { same_sign!(i32) }
    c02_i64 [20] { same_sign!(i64) }
    c02_i128 [20] { same_sign!(i128) }
    c02_nz_small [20] { nz!(NonZeroU8, u8, false); nz!(NonZeroI8, i8, true); nz!(NonZeroU16, u16, false); nz!(NonZeroI16, i16, true); }
    c02_nz_32 [20] { nz!(NonZeroU32, u32, false); nz!(NonZeroI32, i32, true) }
    c02_nz_64 [20] { nz!(NonZeroU64, u64, false); nz!(NonZeroI64, i64, true) }
    c02_nz_128 [20] { nz!(NonZeroU128, u128, false); nz!(NonZeroI128, i128, true) }
    c02_bool [20] { ord!(any::<bool>()) }
    c02_array [20] { ord!(arr::<6>()) }
    c02_usize [12] { ord!(any::<usize>()) }
    c02_isize [12] { ord!(any::<isize>()) }
    c02_varint_u8 [6] { ord!(VarInt(any::<u8>())) }
    c02_varint_i8 [6] { ord!(VarInt(any::<i8>())) }
    c02_varint_u16 [6] { ord!(VarInt(any::<u16>())) }
    #[cfg(feature = "deep")]
    c02_varint_i16 [6] { ord!(VarInt(any::<i16>())) }
    #[cfg(feature = "deep")]
    c02_varint_u32 [8] { ord!(VarInt(any::<u32>())) }
    #[cfg(feature = "deep")]
    c02_varint_i32 [8] { ord!(VarInt(any::<i32>())) }
    c02_varint_u64 [12] { ord!(VarInt(any::<u64>())) }
    c02_varint_i64 [12] { ord!(VarInt(any::<i64>())) }
    c02_derive_enum [12] { ord!(plain()) }
    c02_derive_enum_fixed [12] { ord!(fixed()) }
    c02_derive_enum_repr [12] { ord!(repr()) }
    c02_enum_key [20] { ord!(EnumKey(Num(any()))) }
    c02_duration [20] { let f = || { let s: u64 = any(); let n: u32 = any(); assume(n < 1_000_000_000); Duration::new(s, n) }; let (x, y) = (f(), f()); ordered(&x, &y); }
    c02_option_some [20] { let x = Some(any::<u32>()); let y = Some(any::<u32>()); ordered(&x, &y); }
    c02_option_none [20] { let x: Option<u32> = None; let y = Some(any::<u32>()); ordered(&x, &y); ordered(&y, &x); ordered(&x, &x); }
    c02_option_bytes [20] { let x = Some(bytes::<2>()); let y = Some(bytes::<3>()); ordered(&x, &y); std::mem::forget((x, y)); }
    c02_option_bytes_none [20] { let x: Option<Vec<u8>> = None; let y = Some(bytes::<0>()); ordered(&x, &y); std::mem::forget((x, y)); }
    c02_result_ok_err [20] { let x: Result<u32, u32> = Ok(any()); let y: Result<u32, u32> = Err(any()); ordered(&x, &y); ordered(&y, &x); }
    c02_result_ok [20] { let x: Result<u32, u32> = Ok(any()); let y: Result<u32, u32> = Ok(any()); ordered(&x, &y); }
    c02_result_err [20] { let x: Result<u32, u32> = Err(any()); let y: Result<u32, u32> = Err(any()); ordered(&x, &y); }
    c02_bytes_eq_len [12] { let (x, y) = (bytes::<4>(), bytes::<4>()); ordered(&x, &y); std::mem::forget((x, y)); }
    c02_bytes_diff_len [12] { let (x, y) = (bytes::<2>(), bytes::<5>()); ordered(&x, &y); ordered(&y, &x); std::mem::forget((x, y)); }
    c02_bytes_empty [12] { let (x, y) = (bytes::<0>(), bytes::<1>()); ordered(&x, &y); std::mem::forget((x, y)); }
    c02_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

/// Obligations that take long; thorough tier only.
#[cfg(any(feature = "deep", not(kani)))]
pub mod deep {
    use super::*;
    harnesses! {
        #[cfg(feature = "deep")]
        c02_nz_usize [12] { let a: usize = any(); let b: usize = any(); assume(a != 0 && b != 0); if let (Some(x), Some(y)) = (NonZeroUsize::new(a), NonZeroUsize::new(b)) { ordered(&x, &y) } }
        #[cfg(feature = "deep")]
        c02_nz_isize [12] { let a: isize = any(); let b: isize = any(); assume(a != 0 && b != 0); if let (Some(x), Some(y)) = (NonZeroIsize::new(a), NonZeroIsize::new(b)) { ordered(&x, &y) } }
        #[cfg(feature = "deep")]
        c02_string [12] { let (x, y) = (text::<3>(), text::<4>()); ordered(&x, &y); std::mem::forget((x, y)); }
    }
}


bounded! {
    c02_k_signed_fixed [0] { ordered(&-1i32, &1i32) }
    c02_b_bytes [20000] { let a = noise(below(40)); let mut b = if any() { a.clone() } else { noise(below(40)) }; if any() && !b.is_empty() { let i = below(b.len()); b[i] = any(); } if any() { b.extend(noise(below(4))); } if any() { let n = below(b.len() + 1); b.truncate(n); } ordered(&a, &b); ordered(&b, &a); ordered(&Some(a.clone()), &Some(b.clone())); ordered(&Result::<Vec<u8>, Vec<u8>>::Ok(a), &Result::<Vec<u8>, Vec<u8>>::Ok(b)); }
    c02_b_text [20000] { let p = chars(below(6)); let a = format!("{p}{}", chars(below(4))); let b = format!("{p}{}", chars(below(4))); ordered(&a, &b); ordered(&b, &a); }
    c02_b_varint_128 [20000] { let x: u128 = any::<u128>() >> 4; let y: u128 = if any() { x ^ (1 << below(124)) } else { any::<u128>() >> 4 }; ordered(&VarInt(x), &VarInt(y)); let a = (any::<i128>()) >> 4; let b = if any() { a.wrapping_neg().clamp(-(1 << 123), (1 << 123) - 1) } else { any::<i128>() >> 4 }; ordered(&VarInt(a), &VarInt(b)); }
    c02_b_system_time [20000] { let f = || std::time::UNIX_EPOCH.checked_add(Duration::new(any::<u64>(), any::<u32>() % 1_000_000_000)); if let (Some(a), Some(b)) = (f(), f()) { ordered(&a, &b); } }
}
