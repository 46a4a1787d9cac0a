//! C03: composite keys (tuples, derived structs/enums) round-trip and keep the
//! lexicographic order of their fields.
use crate::types::*;
use crate::util::*;
use bonsaidb_core::key::*;
use std::borrow::Cow;
use sym::*;

/// Contract of `EscapeNullBytes::{handle_nulls, decode_nulls_if_needed}` on
/// fields without nul bytes: identity.  The bodies are proved against this
/// contract (for every length, nul bytes included) by the Verus obligations of
/// this property; here it replaces them at the call site.
#[cfg(kani)]
mod contract {
    use super::*;
    pub fn handle(_s: &EscapeNullBytes, b: &mut Cow<'_, [u8]>) -> Result<(), CompositeKeyError> {
        let mut i = 0;
        while i < b.len() {
            assert!(b[i] != 0, "precondition: no nul bytes");
            i += 1;
        }
        Ok(())
    }
    pub fn deny(_s: &DenyNullBytes, b: &mut Cow<'_, [u8]>) -> Result<(), CompositeKeyError> {
        let mut i = 0;
        while i < b.len() {
            assert!(b[i] != 0, "precondition: no nul bytes");
            i += 1;
        }
        Ok(())
    }
    pub fn decode<'b, 'e>(
        _s: &EscapeNullBytes,
        b: ByteSource<'b, 'e>,
    ) -> Result<ByteSource<'b, 'e>, CompositeKeyError> {
        let mut i = 0;
        while i < b.as_ref().len() {
            assert!(b.as_ref()[i] != 0, "precondition: no nul bytes");
            i += 1;
        }
        Ok(b)
    }
}

macro_rules! rt { ($e:expr) => {{ let k = $e; round_trip(&k); std::mem::forget(k); }} }
macro_rules! ord { ($e:expr) => {{ let x = $e; let y = $e; ordered(&x, &y); std::mem::forget((x, y)); }} }
macro_rules! ord2 { ($x:expr, $y:expr) => {{ let x = $x; let y = $y; ordered(&x, &y); ordered(&y, &x); std::mem::forget((x, y)); }} }

harnesses! {
    c03_rt_fixed_2 [20] { rt!((any::<u16>(), any::<i32>())) }
    c03_rt_fixed_3 [20] { rt!((any::<u16>(), any::<bool>(), any::<u64>())) }
    c03_rt_fixed_1 [20] { rt!((any::<u64>(),)) }
    c03_ord_fixed_2 [20] { ord!((any::<u16>(), any::<u32>())) }
    #[cfg(feature = "deep")]
    c03_ord_fixed_3 [20] { ord!((any::<u16>(), any::<bool>(), any::<u64>())) }
    c03_rt_option_some [20] { rt!((Some(any::<u8>()), any::<u16>())) }
    c03_rt_option_none [20] { rt!((Option::<u32>::None, any::<u16>())) }
    c03_rt_option_none_last [20] { rt!((any::<u16>(), Option::<u32>::None)) }
    c03_ord_option_ss [20] { ord!((Some(any::<u16>()), any::<u16>())) }
    c03_ord_option_nn [20] { ord!((Option::<u16>::None, any::<u16>())) }
    c03_ord_option_ns [20] { ord2!((Option::<u16>::None, any::<u16>()), (Some(any::<u16>()), any::<u16>())) }
    c03_rt_derive_flat [20] { rt!(flat()) }
    c03_rt_derive_pair [20] { rt!(Pair(any(), any())) }
    c03_ord_derive_pair [20] { ord!(Pair(any(), any())) }
    c03_rt_derive_allow [20] { rt!(Allow { a: bytes::<3>(), b: any() }) }
    c03_rt_derive_allow_empty [20] { rt!(Allow { a: bytes::<0>(), b: any() }) }
    #[kani::stub(<DenyNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::deny)]
    c03_rt_derive_deny [20] { rt!(Deny { a: nonul::<3>(), b: any() }) }
    #[kani::stub(<DenyNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::deny)]
    c03_ord_derive_deny [20] { ord!(Deny { a: nonul::<2>(), b: any() }) }
    #[kani::stub(<DenyNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::deny)]
    c03_ord_derive_deny_len [20] { ord2!(Deny { a: nonul::<1>(), b: any() }, Deny { a: nonul::<3>(), b: any() }) }
    c03_deny_handler_ok [8] { let a = nonul::<3>(); let mut c = Cow::Borrowed(&a[..]); let r = DenyNullBytes.handle_nulls(&mut c); let good = r.is_ok(); std::mem::forget(r); assert!(good); assert!(*c == *a); std::mem::forget(c); std::mem::forget(a); }
    c03_deny_handler_nul [8] { let a = arr::<3>(); assume(a[0] == 0 || a[1] == 0 || a[2] == 0);
        let mut c = Cow::Borrowed(&a[..]); let r = DenyNullBytes.handle_nulls(&mut c); let bad = r.is_ok(); std::mem::forget(r); std::mem::forget(c); assert!(!bad, "nul byte accepted by null_handling = deny"); }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::decode_nulls_if_needed, contract::decode)]
    c03_rt_var_fixed [20] { rt!((nonul::<3>(), any::<u16>())) }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::decode_nulls_if_needed, contract::decode)]
    c03_rt_fixed_var [20] { rt!((any::<u16>(), nonul::<3>())) }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::decode_nulls_if_needed, contract::decode)]
    c03_rt_var_var [20] { rt!((nonul::<3>(), nonul::<2>())) }
    #[cfg(feature = "deep")]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::decode_nulls_if_needed, contract::decode)]
    c03_rt_var_empty_var [20] { rt!((nonul::<1>(), nonul::<0>(), nonul::<2>())) }
    #[cfg(feature = "deep")]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::decode_nulls_if_needed, contract::decode)]
    c03_rt_mixed [20] { rt!(Mixed { a: any(), b: nonul::<2>(), c: any() }) }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    c03_ord_var_fixed_eq [20] { ord!((nonul::<2>(), any::<u16>())) }
    #[cfg(feature = "deep")]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    c03_ord_var_fixed_1 [20] { ord2!((nonul::<1>(), any::<u16>()), (nonul::<3>(), any::<u16>())) }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    c03_ord_var_fixed_0 [20] { ord2!((nonul::<0>(), any::<u16>()), (nonul::<2>(), any::<u16>())) }
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    c03_ord_var_var [20] { ord2!((nonul::<2>(), nonul::<1>()), (nonul::<1>(), nonul::<3>())) }
    #[cfg(feature = "deep")]
    #[kani::stub(<EscapeNullBytes as CompositeKeyNullHandler>::handle_nulls, contract::handle)]
    c03_ord_mixed [20] { ord2!(Mixed { a: any(), b: nonul::<2>(), c: any() }, Mixed { a: any(), b: nonul::<1>(), c: any() }) }
    #[cfg(feature = "deep")]
    c03_rt_payload_unit [20] { let k = Payload::Unit; let b = ok(k.as_ord_bytes()); let r = ok(Payload::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == k); std::mem::forget(b); }
    c03_rt_payload_tuple [20] { let k = Payload::Tuple(any(), any()); let b = ok(k.as_ord_bytes()); let r = ok(Payload::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == k); std::mem::forget(b); }
    #[cfg(feature = "deep")]
    c03_rt_payload_named [20] { let k = Payload::Named { x: any() }; let b = ok(k.as_ord_bytes()); let r = ok(Payload::from_ord_bytes(ByteSource::Borrowed(&b))); assert!(r == k); std::mem::forget(b); }
    #[cfg(feature = "deep")]
    c03_ord_payload_unit [20] { ord2!(Payload::Unit, Payload::Tuple(any(), any())) }
    #[cfg(feature = "deep")]
    c03_ord_payload_tuple [20] { ord!(Payload::Tuple(any(), any())) }
    #[cfg(feature = "deep")]
    c03_ord_payload_named [20] { ord2!(Payload::Tuple(any(), any()), Payload::Named { x: any() }) }
    c03_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

/// Obligations that take long; thorough tier only.
#[cfg(any(feature = "deep", not(kani)))]
pub mod deep {
    use super::*;
    harnesses! {
        c03_rt_fixed_8 [20] { rt!((any::<u8>(), any::<u8>(), any::<u16>(), any::<bool>(), any::<u8>(), any::<i8>(), any::<u32>(), any::<u8>())) }
        c03_ord_fixed_5 [20] { ord!((any::<u8>(), any::<u8>(), any::<u16>(), any::<bool>(), any::<u8>())) }
        c03_ord_derive_flat [20] { ord!(flat()) }
    }
}


#[cfg(not(kani))]
fn nonul_vec(n: usize) -> Vec<u8> { let mut v = noise(n); v.iter_mut().for_each(|b| if *b == 0 { *b = 1 }); v }
#[cfg(not(kani))]
fn mutate(v: &[u8]) -> Vec<u8> { let mut b = v.to_vec(); match below(4) { 0 => {} 1 => { let n = below(b.len() + 1); b.truncate(n) } 2 => b.extend(nonul_vec(below(3))), _ => if !b.is_empty() { let i = below(b.len()); b[i] = any::<u8>().max(1) } } b }

bounded! {
    c03_k_nul_order [0] { ordered(&("a".to_string(), "b".to_string()), &("a\0".to_string(), "a".to_string())) }
    c03_b_rt_two [6000] { let k = (noise(below(24)), noise(below(24))); round_trip(&k); }
    c03_b_rt_many [6000] { let k = (noise(below(9)), any::<u32>(), chars(below(5)), Option::<u16>::None, noise(below(5)), any::<bool>(), Some(any::<u64>()), chars(below(4))); round_trip(&k); }
    c03_b_rt_long [24] { let n = [127, 128, 129, 16383, 16384, 16385][below(6)]; let m = [0, 1, 127, 128, 16384][below(5)]; round_trip(&(noise(n), noise(m), any::<u8>(), noise(below(3)))); round_trip(&Allow { a: noise(n), b: any() }); round_trip(&Mixed { a: any(), b: noise(n), c: any() }); }
    c03_b_rt_nested [6000] { let k = ((noise(below(6)), any::<u8>()), (chars(below(4)), Some(noise(below(5))))); round_trip(&k); }
    c03_b_rt_derive [6000] { round_trip(&Mixed { a: any(), b: noise(below(9)), c: any() }); round_trip(&Allow { a: noise(below(9)), b: any() }); round_trip(&Deny { a: nonul_vec(below(9)), b: any() }); round_trip(&flat()); }
    // Nul-free fields only: KNOWN-FINDING C03-nul-order.
    c03_b_ord_two [20000] { let a = nonul_vec(below(6)); let b = mutate(&a); let c = nonul_vec(below(6)); let d = if any() { c.clone() } else { mutate(&c) }; let (x, y) = ((a, c), (b, d)); ordered(&x, &y); ordered(&y, &x); }
    c03_b_ord_mixed [20000] { let a = nonul_vec(below(6)); let b = mutate(&a); let (p, q): (u16, u16) = (any(), any()); ordered(&(p, a.clone(), q), &(if any() { p } else { q }, b.clone(), p)); ordered(&Mixed { a: 1, b: a.clone(), c: p }, &Mixed { a: 1, b: b.clone(), c: q }); ordered(&Deny { a: a.clone(), b: p }, &Deny { a: b.clone(), b: q }); let (x, y) = ((Option::<u16>::None, a.clone(), p), (Some(q), b.clone(), q)); ordered(&x, &y); ordered(&y, &x); }
    c03_b_ord_text [20000] { let f = || chars(below(4)).replace('\0', "x"); let s = f(); let (x, y) = ((format!("{s}{}", f()), any::<u8>(), f()), (format!("{s}{}", f()), any::<u8>(), f())); ordered(&x, &y); ordered(&y, &x); }
    c03_b_deny [6000] { let mut v = noise(1 + below(200)); let i = below(v.len()); v[i] = 0; assert!(Deny { a: v, b: 1 }.as_ord_bytes().is_err(), "nul byte accepted by null_handling = deny"); }
    c03_b_escape [6000] { let v = noise(below(64)); let mut c = Cow::Borrowed(&v[..]); assert!(EscapeNullBytes.handle_nulls(&mut c).is_ok()); let r = EscapeNullBytes.decode_nulls_if_needed(ByteSource::Borrowed(&c)); match r { Ok(b) => assert!(b.as_ref() == &v[..], "unescape(escape(x)) == x"), Err(_) => panic!("escape output rejected") } }
}
