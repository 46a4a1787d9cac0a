//! C01: decode(encode(k)) == k for every built-in key type.
use crate::types::*;
use crate::util::*;
use bonsaidb_core::arc_bytes::serde::{Bytes as ArcSerdeBytes, CowBytes};
use bonsaidb_core::arc_bytes::ArcBytes;
use bonsaidb_core::key::*;
use std::borrow::Cow;
use std::num::*;
use sym::*;

macro_rules! both { ($e:expr) => {{ let v = $e; round_trip(&v); round_trip_owned(&v); }} }
macro_rules! nz { ($t:ident, $p:ty) => {{ let v: $p = any(); assume(v != 0); let k = match $t::new(v) { Some(k) => k, None => return }; round_trip(&k); round_trip_owned(&k); }} }

harnesses! {
    c01_u8 [20] { both!(any::<u8>()) }
    c01_i8 [20] { both!(any::<i8>()) }
    c01_u16 [20] { both!(any::<u16>()) }
    c01_i16 [20] { both!(any::<i16>()) }
    c01_u32 [20] { both!(any::<u32>()) }
    c01_i32 [20] { both!(any::<i32>()) }
    c01_u64 [20] { both!(any::<u64>()) }
    c01_i64 [20] { both!(any::<i64>()) }
    c01_u128 [20] { both!(any::<u128>()) }
    c01_i128 [20] { both!(any::<i128>()) }
    c01_nz_8 [20] { nz!(NonZeroU8, u8); nz!(NonZeroI8, i8) }
    c01_nz_16 [20] { nz!(NonZeroU16, u16); nz!(NonZeroI16, i16) }
    c01_nz_32 [20] { nz!(NonZeroU32, u32); nz!(NonZeroI32, i32) }
    c01_nz_64 [20] { nz!(NonZeroU64, u64); nz!(NonZeroI64, i64) }
    c01_nz_128 [20] { nz!(NonZeroU128, u128); nz!(NonZeroI128, i128) }
    c01_bool [20] { both!(any::<bool>()) }
    c01_unit [20] { both!(()) }
    c01_array [20] { both!(arr::<0>()); both!(arr::<5>()); both!(arr::<16>()) }
    c01_isize [12] { round_trip(&any::<isize>()) }
    c01_usize [12] { round_trip(&any::<usize>()) }
    #[cfg(feature = "deep")]
    c01_nz_usize [12] { let v: usize = any(); assume(v != 0); if let Some(k) = NonZeroUsize::new(v) { round_trip(&k) } }
    c01_varint_u8 [6] { round_trip(&VarInt(any::<u8>())) }
    #[cfg(feature = "deep")]
    c01_varint_u16 [6] { round_trip(&VarInt(any::<u16>())) }
    #[cfg(feature = "deep")]
    c01_varint_u32 [8] { round_trip(&VarInt(any::<u32>())) }
    #[cfg(feature = "deep")]
    c01_varint_u64 [12] { round_trip(&VarInt(any::<u64>())) }
    #[cfg(feature = "deep")]
    c01_varint_usize [12] { round_trip(&VarInt(any::<usize>())) }
    #[cfg(feature = "deep")]
    c01_varint_i8 [6] { round_trip(&VarInt(any::<i8>())) }
    c01_varint_i16 [6] { round_trip(&VarInt(any::<i16>())) }
    #[cfg(feature = "deep")]
    c01_varint_i32 [8] { round_trip(&VarInt(any::<i32>())) }
    c01_varint_i64 [12] { round_trip(&VarInt(any::<i64>())) }
    #[cfg(feature = "deep")]
    c01_varint_isize [12] { round_trip(&VarInt(any::<isize>())) }
    c01_enum_key [20] { let k = EnumKey(Num(any())); let b = ok(k.as_ord_bytes()); let r = ok(EnumKey::<Num>::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(r == k); std::mem::forget(b); }
    c01_derive_enum [12] { round_trip(&plain()) }
    c01_derive_enum_fixed [12] { both!(fixed()) }
    c01_option_u32 [12] { let v = if any() { Some(any::<u32>()) } else { None }; let b = ok(v.as_ord_bytes()); let r = ok(Option::<u32>::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == v); }
    c01_option_bool_owned [12] { let v = if any() { Some(any::<bool>()) } else { None }; round_trip_owned(&v); }
    c01_option_bytes [12] { let v = Some(arr::<3>().to_vec()); round_trip(&v); std::mem::forget(v); }
    c01_option_bytes_owned [12] { let v = Some(arr::<2>().to_vec()); let mut b = Vec::with_capacity(3); b.push(1u8); b.extend_from_slice(v.as_ref().unwrap());
        let r = ok(Option::<Vec<u8>>::from_ord_bytes(ByteSource::Owned(b))); assert!(r == v); std::mem::forget(r); std::mem::forget(v); }
    c01_option_bytes_none [12] { let v: Option<Vec<u8>> = None; round_trip(&v); round_trip_owned(&v); }
    c01_option_option_1 [12] { let v: Option<Option<u8>> = Some(Some(any())); round_trip(&v); }
    c01_option_option_2 [12] { let v: Option<Option<u8>> = Some(None); let b = ok(v.as_ord_bytes()); let r = ok(Option::<Option<u8>>::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == v); }
    c01_option_option_3 [12] { let v: Option<Option<u8>> = None; let b = ok(v.as_ord_bytes()); let r = ok(Option::<Option<u8>>::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == v); }
    c01_result [12] { let v: Result<u32, u32> = if any() { Ok(any()) } else { Err(any()) }; both!(v) }
    c01_bytes_0 [12] { both!(arr::<0>().to_vec()) }
    c01_bytes_1 [12] { both!(arr::<1>().to_vec()) }
    c01_bytes_4 [12] { both!(arr::<4>().to_vec()) }
    c01_bytes_9 [12] { both!(arr::<9>().to_vec()) }
    c01_cow_bytes [12] { let v = arr::<4>(); let k: Cow<'static, [u8]> = Cow::Owned(v.to_vec()); let b = ok(k.as_ord_bytes());
        let r = ok(<Cow<'_, [u8]>>::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(*r == v);
        let r2 = ok(<Cow<'_, [u8]>>::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(*r2 == v); }
    c01_arc_bytes [12] { let v = arr::<4>(); let k = ArcBytes::from(v.to_vec()); let b = ok(k.as_ord_bytes());
        let r = ok(ArcBytes::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(*r == v); std::mem::forget(r);
        let r = ok(ArcBytes::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(*r == v); std::mem::forget(r); }
    c01_serde_bytes [12] { let v = arr::<4>(); let k = ArcSerdeBytes::from(v.to_vec()); let b = ok(k.as_ord_bytes());
        let r = ok(ArcSerdeBytes::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(*r == v); std::mem::forget(r);
        let r = ok(ArcSerdeBytes::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(*r == v); std::mem::forget(r); }
    c01_serde_cow_bytes [12] { let v = arr::<4>(); let k = CowBytes(Cow::Borrowed(&v)); let b = ok(k.as_ord_bytes());
        let r = ok(CowBytes::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(*r.0 == v); std::mem::forget(r);
        let r = ok(CowBytes::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(*r.0 == v); std::mem::forget(r); }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c01_string_0 [12] { both!(text::<0>()) }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c01_string_1 [12] { both!(text::<1>()) }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c01_string_2 [12] { round_trip(&text::<2>()) }
    #[cfg(feature = "deep")]
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    #[kani::stub(std::str::from_utf8, stubs::str_from_utf8)]
    c01_cow_str [12] { let s = text::<1>(); let k: Cow<'static, str> = Cow::Owned(s.clone()); let b = ok(k.as_ord_bytes());
        let r = ok(<Cow<'_, str>>::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(*r == *s);
        let r2 = ok(<Cow<'_, str>>::from_ord_bytes(ByteSource::Ephemeral(&b))); assert!(*r2 == *s);
        std::mem::forget(r); std::mem::forget(r2); }
    c01_option_first [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

/// Obligations that take long; thorough tier only.
#[cfg(any(feature = "deep", not(kani)))]
pub mod deep {
    use super::*;
    harnesses! {
        c01_nz_isize [12] { let v: isize = any(); assume(v != 0); if let Some(k) = NonZeroIsize::new(v) { round_trip(&k) } }
        c01_varint_u128 [20] { let v: u128 = any(); assume(v < 1 << 124); round_trip(&VarInt(v)) }
        c01_varint_i128 [20] { let v: i128 = any(); assume(v < 1 << 123 && v >= -(1 << 123)); round_trip(&VarInt(v)) }
    }
}


/// Every borrowed/ephemeral/owned path for one value.
#[cfg(not(kani))]
fn every_path<K: for<'k> Key<'k> + PartialEq>(k: &K) { round_trip(k); round_trip_owned(k); }

/// For key types that borrow from the encoded bytes.
#[cfg(not(kani))]
macro_rules! lent { ($t:ty, $k:expr, $as:expr, $want:expr) => {{
    let k = $k; let b = ok(k.as_ord_bytes()); let f = $as;
    for mode in 0..3 {
        let src = match mode { 0 => ByteSource::Borrowed(&b[..]), 1 => ByteSource::Ephemeral(&b[..]), _ => ByteSource::Owned(b.to_vec()) };
        let r = ok(<$t>::from_ord_bytes(src)); assert!(f(&r) == $want, "round trip of a borrowing key");
    }
}} }

bounded! {
    // Exhaustive over every Unicode scalar value as a one-character text key.
    c01_b_every_char [1] { for c in '\0'..=char::MAX { let s = c.to_string(); round_trip(&s); lent!(Cow<'_, str>, Cow::Borrowed(&s[..]), |r: &Cow<'_, str>| r.to_string(), s); } }
    c01_b_bytes [4000] { let n = below(300); let v = noise(n); every_path(&v); lent!(ArcBytes<'_>, ArcBytes::from(v.clone()), |r: &ArcBytes<'_>| r.to_vec(), v); every_path(&ArcSerdeBytes::from(v.clone())); lent!(CowBytes<'_>, CowBytes::from(v.clone()), |r: &CowBytes<'_>| r.0.to_vec(), v); lent!(Cow<'_, [u8]>, Cow::Borrowed(&v[..]), |r: &Cow<'_, [u8]>| r.to_vec(), v); every_path(&Some(v.clone())); every_path(&Result::<Vec<u8>, Vec<u8>>::Ok(v)); }
    c01_b_bytes_long [40] { let n = [127, 128, 16383, 16384, 65535, 65536][below(6)] + below(3); let v = noise(n); every_path(&v); every_path(&Some(v)); }
    c01_b_text [4000] { let s = chars(below(12)); every_path(&s); every_path(&Some(s.clone())); every_path(&Result::<String, String>::Err(s.clone())); lent!(Cow<'_, str>, Cow::Borrowed(&s[..]), |r: &Cow<'_, str>| r.to_string(), s); }
    c01_b_signed [20000] { let s: i128 = any(); if let Ok(v) = i64::try_from(s) { let k = ordered_varint::Signed::from(v); let b = ok(k.as_ord_bytes()); assert!(ok(ordered_varint::Signed::from_ord_bytes(ByteSource::Borrowed(&b))) == k); } let k = ordered_varint::Unsigned::from(any::<u64>()); let b = ok(k.as_ord_bytes()); assert!(ok(ordered_varint::Unsigned::from_ord_bytes(ByteSource::Borrowed(&b))) == k); }
    c01_b_nested [20000] { let v: Option<Option<Result<Vec<u8>, Vec<u8>>>> = match below(4) { 0 => None, 1 => Some(None), 2 => Some(Some(Ok(noise(below(6))))), _ => Some(Some(Err(noise(below(6))))) }; every_path(&v); }
    c01_b_time [20000] { let d = std::time::Duration::new(any(), any::<u32>() % 1_000_000_000); every_path(&d); if let Some(t) = std::time::UNIX_EPOCH.checked_add(d) { every_path(&t); } }
}
