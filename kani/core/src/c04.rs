//! C04: decoding arbitrary (corrupt, truncated, foreign) bytes returns Ok or
//! Err, never panics or reads out of bounds; fixed-width decoders accept
//! exactly their own width.
use crate::types::*;
use crate::util::*;
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::time::limited::*;
use bonsaidb_core::key::*;
use bonsaidb_core::keyvalue::Timestamp;
use std::borrow::Cow;
use std::num::*;
use std::time::{Duration, SystemTime};
use sym::*;

/// Decode and discard (no panic is the obligation; CBMC adds bounds/overflow).
fn dec<K: for<'k> Key<'k>>(b: &[u8]) -> bool {
    let r = K::from_ord_bytes(ByteSource::Borrowed(b));
    let o = r.is_ok();
    std::mem::forget(r);
    o
}
fn dec_all<K: for<'k> Key<'k>>(b: &[u8]) -> bool {
    let o = dec::<K>(b);
    let r = K::from_ord_bytes(ByteSource::Ephemeral(b));
    assert!(r.is_ok() == o);
    std::mem::forget(r);
    let r = K::from_ord_bytes(ByteSource::Owned(b.to_vec()));
    assert!(r.is_ok() == o);
    std::mem::forget(r);
    o
}
macro_rules! width { ($t:ty, $n:literal) => {{
    assert!(dec_all::<$t>(&arr::<$n>()));
    assert!(!dec_all::<$t>(&arr::<{ $n - 1 }>()));
    assert!(!dec_all::<$t>(&arr::<{ $n + 1 }>()));
    assert!(!dec::<$t>(&[]) || $n == 0);
}} }
macro_rules! nz { ($t:ty, $n:literal) => {{
    let a = arr::<$n>(); let mut zero = true; let mut i = 0; while i < $n { if a[i] != 0 { zero = false; } i += 1; }
    assert!(dec::<$t>(&a) == !zero);
    assert!(!dec::<$t>(&arr::<{ $n - 1 }>()));
    assert!(!dec::<$t>(&arr::<{ $n + 1 }>()));
}} }
macro_rules! free { ($t:ty; $($n:literal)*) => {{ $( dec::<$t>(&arr::<$n>()); )* }} }

harnesses! {
    c04_u8_u16 [20] { assert!(dec_all::<u8>(&arr::<1>())); assert!(!dec_all::<u8>(&arr::<0>())); assert!(!dec_all::<u8>(&arr::<2>())); width!(u16, 2); }
    c04_i8_i16 [20] { assert!(dec_all::<i8>(&arr::<1>())); assert!(!dec_all::<i8>(&arr::<0>())); assert!(!dec_all::<i8>(&arr::<2>())); width!(i16, 2); }
    c04_32 [20] { width!(u32, 4); width!(i32, 4); }
    c04_64 [20] { width!(u64, 8); width!(i64, 8); }
    c04_128 [20] { width!(u128, 16); width!(i128, 16); }
    c04_nz [20] { nz!(NonZeroU8, 1); nz!(NonZeroI8, 1); nz!(NonZeroU32, 4); nz!(NonZeroI32, 4); }
    c04_nz_wide [20] { nz!(NonZeroU16, 2); nz!(NonZeroI16, 2); nz!(NonZeroU64, 8); nz!(NonZeroI64, 8); }
    c04_nz_128 [20] { nz!(NonZeroU128, 16); nz!(NonZeroI128, 16); }
    c04_bool_unit [8] { free!(bool; 0 1 2); free!((); 0 1 2); }
    c04_array [20] { assert!(dec_all::<[u8; 6]>(&arr::<6>())); assert!(!dec_all::<[u8; 6]>(&arr::<5>())); assert!(!dec_all::<[u8; 6]>(&arr::<7>())); assert!(!dec::<[u8; 6]>(&[])); }
    c04_timestamp [20] { width!(Timestamp, 12); }
    c04_varint_u64_short [20] { free!(VarInt<u64>; 0 1 2 3) }
    c04_varint_u64_long [20] { free!(VarInt<u64>; 8 9 10) }
    c04_varint_i64_short [20] { free!(VarInt<i64>; 0 1 2 3) }
    #[cfg(feature = "deep")]
    c04_varint_i64_long [20] { free!(VarInt<i64>; 8 9 10) }
    c04_varint_u128 [20] { free!(VarInt<u128>; 0 1 15 16 17) }
    #[cfg(feature = "deep")]
    c04_varint_i128 [20] { free!(VarInt<i128>; 0 1 15 16 17) }
    c04_varint_small [20] { free!(VarInt<u8>; 0 1 2 3); free!(VarInt<i8>; 0 1 2 3); }
    c04_isize [20] { free!(isize; 0 1 9); free!(usize; 0 1 9); }
    c04_enum [20] { free!(Plain; 0 1 2); free!(Repr; 0 1 2); }
    c04_enum_fixed [20] { free!(Fixed; 0 1 2 3); }
    c04_duration [20] { free!(Duration; 0 1 5) }
    c04_duration_max [20] { free!(Duration; 12 13) }
    c04_system_time [20] { free!(SystemTime; 0 1 9) }
    c04_system_time_max [20] { free!(SystemTime; 12 13) }
    #[cfg(feature = "deep")]
    c04_limited [20] { free!(LimitedResolutionDuration<Milliseconds>; 0 1 9); free!(LimitedResolutionTimestamp<Days, UnixEpoch>; 0 1 5); }
    c04_option [20] { free!(Option<u16>; 0 1 2 3); free!(Option<bool>; 0 1 2); }
    c04_option_owned [20] { let b = bytes::<3>(); let r = Option::<u16>::from_ord_bytes(ByteSource::Owned(b)); std::mem::forget(r); }
    c04_result [20] { type R = Result<u16, u16>; free!(R; 0 1 3); }
    c04_docid [20] { free!(DocumentId; 0 1 4); }
    c04_bytes [20] { assert!(dec_all::<Vec<u8>>(&arr::<4>())); }
    #[cfg(feature = "deep")]
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c04_string [12] { let a = arr::<3>(); assert!(dec::<String>(&a) == utf8_ok(&a)); }
    #[cfg(feature = "deep")]
    #[kani::stub(std::str::from_utf8, stubs::str_from_utf8)]
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c04_cow_str [12] { let a = arr::<3>(); let r = <Cow<'_, str>>::from_ord_bytes(ByteSource::Borrowed(&a)); let o = r.is_ok(); std::mem::forget(r); assert!(o == utf8_ok(&a)); }
    c04_tuple_fixed_ok [20] { assert!(dec::<(u16, u8)>(&arr::<3>())); }
    c04_tuple_fixed_short [20] { assert!(!dec::<(u16, u8)>(&arr::<2>())); }
    c04_tuple_fixed_long [20] { assert!(!dec::<(u16, u8)>(&arr::<4>())); }
    c04_composite_allow_1 [12] { free!(Allow; 0 1) }
    c04_composite_allow_2 [12] { free!(Allow; 2) }
    c04_composite_allow_4 [12] { free!(Allow; 4) }
    c04_composite_allow_6 [12] { free!(Allow; 6) }
    c04_lengths [20] { let b = arr::<5>(); let mut d = CompositeKeyDecoder::allowing_null_bytes(ByteSource::Borrowed(&b));
        let r = d.decode::<Cow<'_, [u8]>>(); let go = r.is_ok(); std::mem::forget(r);
        if go { let r = d.decode::<Cow<'_, [u8]>>(); std::mem::forget(r); } std::mem::forget(d); }
    c04_nulls [12] { let b = arr::<3>(); let r = EscapeNullBytes.decode_nulls_if_needed(ByteSource::Borrowed(&b)); std::mem::forget(r); }
    c04_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

#[cfg(not(kani))]
#[allow(deprecated)]
fn all_types(b: &[u8]) {
    dec::<(Vec<u8>, u16)>(b); dec::<(String, String)>(b); dec::<(u8, Vec<u8>, Option<u32>)>(b); dec::<((u8, Vec<u8>), String)>(b);
    dec::<Mixed>(b); dec::<Allow>(b); dec::<Deny>(b); dec::<Flat>(b); dec::<Pair>(b); dec::<Payload>(b); dec::<Plain>(b); dec::<Fixed>(b); dec::<Repr>(b);
    dec::<String>(b); dec::<Option<String>>(b); dec::<Result<(u16, String), (u8, Vec<u8>)>>(b); dec::<Option<Option<(u16, String)>>>(b); let _ = <Cow<'_, str>>::from_ord_bytes(ByteSource::Borrowed(b));
    dec::<Duration>(b); dec::<SystemTime>(b); dec::<Timestamp>(b); dec::<LimitedResolutionDuration<Nanoseconds>>(b); dec::<LimitedResolutionTimestamp<Weeks, BonsaiEpoch>>(b);
    dec::<VarInt<u64>>(b); dec::<VarInt<i128>>(b); dec::<isize>(b); dec::<NonZeroUsize>(b); dec::<EnumKey<Num>>(b); dec::<DocumentId>(b);
    dec::<ordered_varint::Signed>(b); dec::<ordered_varint::Unsigned>(b);
    dec::<TupleEncodingV1<(Vec<u8>, u16)>>(b); dec::<TupleEncodingV1<(String, String, u8)>>(b); dec::<OptionKeyV1<String>>(b);
}

bounded! {
    c04_b_noise [20000] { all_types(&noise(below(40))) }
    c04_b_short_exhaustive [1] { for a in 0..=255u8 { all_types(&[a]); for b in 0..=255u8 { all_types(&[a, b]); } } all_types(&[]); }
    // Valid composite encodings with one byte changed, cut or appended.
    c04_b_mutated [20000] { let k = (noise(below(8)), chars(below(4)), any::<u16>(), noise(below(200))); let mut b = ok(k.as_ord_bytes()).to_vec(); match below(3) { 0 => { let i = below(b.len()); b[i] = any() } 1 => { let n = below(b.len()); b.truncate(n) } _ => b.push(any()) } dec::<(Vec<u8>, String, u16, Vec<u8>)>(&b); all_types(&b); }
    c04_b_huge_lengths [6000] { let mut b = noise(below(6)); let tail = 1 + below(20); for _ in 0..tail { b.push(0xff); } b.extend(noise(below(4))); all_types(&b); }
}
