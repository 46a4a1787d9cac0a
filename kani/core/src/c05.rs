//! C05: prefix ranges contain exactly the keys with that prefix, and
//! first/next values advance strictly in key order without wrapping.
use crate::util::*;
use bonsaidb_core::arc_bytes::serde::{Bytes as SerdeBytes, CowBytes};
use bonsaidb_core::arc_bytes::ArcBytes;
use bonsaidb_core::key::*;
use std::borrow::Cow;
use std::num::*;
use std::ops::RangeBounds;
use sym::*;

fn starts(k: &[u8], p: &[u8]) -> bool {
    if k.len() < p.len() { return false; }
    let mut i = 0;
    while i < p.len() { if k[i] != p[i] { return false; } i += 1; }
    true
}
macro_rules! pre_vec { ($p:literal, $k:literal) => {{
    let p = arr::<$p>().to_vec(); let k = arr::<$k>().to_vec();
    let r = p.to_prefix_range(); let c = r.contains(&k); assert!(c == starts(&k, &p), "prefix range");
    std::mem::forget(r); std::mem::forget((p, k));
}} }
macro_rules! pre_of { ($mk:expr, $p:literal, $k:literal) => {{
    let (pa, ka) = (arr::<$p>(), arr::<$k>()); let f = $mk; let p = f(pa.to_vec()); let k = f(ka.to_vec());
    let r = p.to_prefix_range(); let c = r.contains(&k); assert!(c == starts(&ka, &pa), "prefix range");
    std::mem::forget(r); std::mem::forget(p); std::mem::forget(k);
}} }
macro_rules! pre_str { ($p:literal, $k:literal) => {{
    let p = text::<$p>(); let k = text::<$k>();
    let r = p.to_prefix_range(); let c = r.contains(&k); assert!(c == starts(k.as_bytes(), p.as_bytes()), "prefix range");
    std::mem::forget(r);
    let r = IntoPrefixRange::<String>::to_prefix_range(p.as_str()); let c = RangeBounds::<str>::contains(&r, k.as_str()); assert!(c == starts(k.as_bytes(), p.as_bytes()), "prefix range (str)");
    std::mem::forget(r);
    std::mem::forget((p, k));
}} }
/// One-character prefix against an arbitrary key of N bytes.
fn chr(c: char) -> String { let mut b = [0; 4]; c.encode_utf8(&mut b).to_string() }

macro_rules! next { ($t:ty) => {{
    let f = ok(<$t>::first_value()); assert!(f == 0);
    let v: $t = any();
    match v.next_value() { Ok(n) => assert!(v != <$t>::MAX && n == v + 1, "next is the successor"), Err(e) => { assert!(matches!(e, NextValueError::WouldWrap) && v == <$t>::MAX, "only MAX has no successor") } }
}} }
macro_rules! next_nz { ($n:ident, $t:ty) => {{
    assert!(ok($n::first_value()).get() == 1);
    let v: $t = any(); assume(v != 0);
    if let Some(k) = $n::new(v) {
        match k.next_value() {
            Ok(n) => { let e = if v.wrapping_add(1) == 0 { 1 } else { v.wrapping_add(1) }; assert!(v != <$t>::MAX && n.get() == e, "next is the successor") }
            Err(e) => assert!(matches!(e, NextValueError::WouldWrap) && v == <$t>::MAX, "only MAX has no successor"),
        }
    }
}} }

harnesses! {
    c05_vec_0 [8] { pre_vec!(0, 0); pre_vec!(0, 2); }
    c05_vec_1 [8] { pre_vec!(1, 0); pre_vec!(1, 1); pre_vec!(1, 3); }
    c05_vec_2 [8] { pre_vec!(2, 1); pre_vec!(2, 2); pre_vec!(2, 4); }
    c05_vec_3 [8] { pre_vec!(3, 2); pre_vec!(3, 3); pre_vec!(3, 5); }
    c05_cow [8] { pre_of!(|v| -> Cow<'static, [u8]> { Cow::Owned(v) }, 2, 3); pre_of!(|v| -> Cow<'static, [u8]> { Cow::Owned(v) }, 2, 1); }
    c05_arc [8] { pre_of!(|v: Vec<u8>| ArcBytes::from(v), 2, 3); pre_of!(|v: Vec<u8>| ArcBytes::from(v), 2, 1); }
    c05_cowbytes [8] { pre_of!(|v: Vec<u8>| CowBytes::from(v), 2, 3); pre_of!(|v: Vec<u8>| CowBytes::from(v), 2, 1); }
    c05_bytes [8] { pre_of!(|v: Vec<u8>| SerdeBytes::from(v), 2, 3); pre_of!(|v: Vec<u8>| SerdeBytes::from(v), 2, 1); }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c05_str_empty [8] { pre_str!(0, 0); pre_str!(0, 2); }
    c05_next_8 [4] { next!(u8); next!(i8); }
    c05_next_16 [4] { next!(u16); next!(i16); }
    c05_next_32 [4] { next!(u32); next!(i32); }
    c05_next_64 [4] { next!(u64); next!(i64); }
    c05_next_128 [4] { next!(u128); next!(i128); }
    c05_next_size [4] { next!(usize); next!(isize); }
    c05_next_nz_u [4] { next_nz!(NonZeroU8, u8); next_nz!(NonZeroU16, u16); next_nz!(NonZeroU32, u32); next_nz!(NonZeroU64, u64); next_nz!(NonZeroU128, u128); next_nz!(NonZeroUsize, usize); }
    c05_next_nz_i [4] { next_nz!(NonZeroI8, i8); next_nz!(NonZeroI16, i16); next_nz!(NonZeroI32, i32); next_nz!(NonZeroI64, i64); next_nz!(NonZeroI128, i128); next_nz!(NonZeroIsize, isize); }
    c05_next_option [4] { let v = Some(any::<u32>()); match v.next_value() { Ok(n) => assert!(n > v && v.unwrap() != u32::MAX), Err(e) => assert!(matches!(e, NextValueError::WouldWrap) && v == Some(u32::MAX)) } assert!(ok(Option::<u32>::first_value()) == Some(0)); }
    c05_next_result [4] { type R = Result<u32, u32>; let v: R = if any() { Ok(any()) } else { Err(any()) }; match v.next_value() { Ok(n) => assert!(n > v && n.is_ok() == v.is_ok()), Err(e) => assert!(matches!(e, NextValueError::WouldWrap)) } assert!(ok(R::first_value()) == Ok(0)); }
    c05_next_unsupported [4] { assert!(matches!(bool::first_value(), Err(NextValueError::Unsupported))); assert!(matches!(any::<bool>().next_value(), Err(NextValueError::Unsupported))); }
    c05_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

#[cfg(not(kani))]
fn prefix_text(p: &str, k: &str) {
    let want = starts(k.as_bytes(), p.as_bytes());
    let (ps, ks) = (p.to_string(), k.to_string());
    assert!(ps.to_prefix_range().contains(&ks) == want, "prefix range (String)");
    assert!(RangeBounds::<str>::contains(&IntoPrefixRange::<String>::to_prefix_range(p), k) == want, "prefix range (str)");
    let (pc, kc): (Cow<'_, str>, Cow<'_, str>) = (Cow::Borrowed(p), Cow::Borrowed(k));
    assert!(pc.to_prefix_range().contains(&kc) == want, "prefix range (Cow<str>)");
}
#[cfg(not(kani))]
fn prefix_bytes(p: &[u8], k: &[u8]) {
    let want = starts(k, p);
    let (pv, kv) = (p.to_vec(), k.to_vec());
    assert!(pv.to_prefix_range().contains(&kv) == want, "prefix range (Vec)");
    assert!(ArcBytes::from(pv.clone()).to_prefix_range().contains(&ArcBytes::from(kv.clone())) == want, "prefix range (ArcBytes)");
    assert!(SerdeBytes::from(pv.clone()).to_prefix_range().contains(&SerdeBytes::from(kv.clone())) == want, "prefix range (Bytes)");
    assert!(CowBytes::from(pv).to_prefix_range().contains(&CowBytes::from(kv)) == want, "prefix range (CowBytes)");
}

bounded! {
    // Every scalar value as the last character of a prefix, against the keys
    // adjacent to both ends of its range.
    c05_b_every_char [1] { for c in '\0'..=char::MAX { for head in ["", "\u{10ffff}"] {
        let p = format!("{head}{c}"); prefix_text(&p, &p); prefix_text(&p, &format!("{p}\0")); prefix_text(&p, &format!("{p}\u{10ffff}\u{10ffff}")); prefix_text(&p, head);
        let next = char::from_u32(c as u32 + 1).or(if c == '\u{d7ff}' { Some('\u{e000}') } else { None }); if let Some(n) = next { prefix_text(&p, &format!("{head}{n}")); prefix_text(&p, &format!("{head}{n}x")); }
        let prev = if c == '\0' { None } else { char::from_u32(c as u32 - 1).or(Some('\u{d7ff}')) }; if let Some(n) = prev { prefix_text(&p, &format!("{head}{n}\u{10ffff}")); }
    } } }
    c05_b_text [20000] { let p = chars(below(5)); let tail = chars(below(3)); prefix_text(&p, &format!("{p}{tail}")); prefix_text(&p, &chars(below(6))); let mut q: Vec<char> = p.chars().collect(); if !q.is_empty() { let i = below(q.len()); q[i] = any_char(); let q: String = q.into_iter().collect(); prefix_text(&p, &q); prefix_text(&p, &format!("{q}{tail}")); } }
    c05_b_text_max [20000] { let p: String = (0..1 + below(6)).map(|_| ['a', '\u{7f}', '\u{7ff}', '\u{d7ff}', '\u{ffff}', '\u{10ffff}'][below(6)]).collect(); let k: String = (0..below(8)).map(|_| ['a', 'b', '\u{80}', '\u{800}', '\u{e000}', '\u{10000}', '\u{10ffff}'][below(7)]).collect(); prefix_text(&p, &k); prefix_text(&p, &format!("{p}{k}")); }
    c05_b_bytes [20000] { let p = noise(below(8)); let mut k = p.clone(); match below(5) { 0 => {} 1 => k.extend(noise(below(4))), 2 => if !k.is_empty() { let i = below(k.len()); k[i] = k[i].wrapping_add(1); k.extend(noise(below(2))) } 3 => { let n = below(k.len() + 1); k.truncate(n) } _ => k = noise(below(9)) } prefix_bytes(&p, &k); }
    c05_b_bytes_ff [20000] { let p: Vec<u8> = (0..below(6)).map(|_| [0xff, 0xfe, 0, 1][below(4)]).collect(); let k: Vec<u8> = (0..below(7)).map(|_| [0xff, 0xfe, 0, 1][below(4)]).collect(); prefix_bytes(&p, &k); prefix_bytes(&p, &[&p[..], &k[..]].concat()); }
}
