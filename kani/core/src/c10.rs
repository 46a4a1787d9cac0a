//! C10: schema, collection and view names survive encoding; encodings are
//! injective and contain only safe characters.
use crate::util::*;
use bonsaidb_core::schema::{CollectionName, InvalidNameError, Name, Qualified, QualifiedName, SchemaName, ViewName};
use sym::*;

fn hexval(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), _ => None } }
/// Parse exactly `N` encoded bytes; the result must be the specification's decoding.
#[allow(clippy::needless_range_loop)]
fn parse<const N: usize>() {
    let e = text::<N>(); let b = e.as_bytes();
    let mut out = [0u8; N]; let (mut n, mut i, mut good) = (0, 0, true);
    while i < N { if b[i] == b'_' { if i + 2 < N + 0 && i + 2 <= N - 1 { match (hexval(b[i + 1]), hexval(b[i + 2])) { (Some(h), Some(l)) => { out[n] = h * 16 + l; n += 1; i += 3; } _ => { good = false; break; } } } else { good = false; break; } } else { out[n] = b[i]; n += 1; i += 1; } }
    let good = good && utf8_ok(&out[..n]);
    let r = Name::parse_encoded(&e);
    assert!(r.is_ok() == good, "accepts exactly well-formed encodings");
    if let Ok(name) = &r { let s = name.as_ref().as_bytes(); assert!(s.len() == n); let mut k = 0; while k < n { assert!(s[k] == out[k], "decoded byte"); k += 1; } }
    std::mem::forget(r); std::mem::forget(e);
}

fn assert_err(r: Result<Name, InvalidNameError>) { let e = r.is_err(); std::mem::forget(r); assert!(e, "truncated escape accepted") }

harnesses! {
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c10_parse_1 [8] { parse::<1>() }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c10_parse_2 [8] { parse::<2>() }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c10_parse_escape [8] { let (h, l): (u8, u8) = (any(), any()); assume(h < 128 && l < 128); let e = [b'_', h, l]; let r = Name::parse_encoded(unsafe { std::str::from_utf8_unchecked(&e) });
        match (hexval(h), hexval(l)) { (Some(x), Some(y)) if x < 8 => match &r { Ok(n) => assert!(n.as_ref().len() == 1 && n.as_ref().as_bytes()[0] == x * 16 + y, "decoded byte"), Err(_) => assert!(false, "well-formed escape rejected") }, _ => assert!(r.is_err(), "malformed escape accepted") } std::mem::forget(r); }
    #[kani::stub(std::string::String::from_utf8, stubs::string_from_utf8)]
    c10_parse_truncated [8] { let c: u8 = any(); assume(c < 128); let e = [c, b'_']; assert_err(Name::parse_encoded(unsafe { std::str::from_utf8_unchecked(&e) })); let e = [b'_', c]; assert_err(Name::parse_encoded(unsafe { std::str::from_utf8_unchecked(&e) })); }
    c10_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

#[cfg(not(kani))]
fn name(s: &str) -> Name { Name::new(s.to_string()) }
/// Independent encoder.
#[cfg(not(kani))]
fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b == b'-' { (b as char).to_string() } else { format!("_{b:02x}") }).collect() }
#[cfg(not(kani))]
fn check(s: &str) {
    let n = name(s); let e = n.encoded();
    assert!(e == enc(s), "encoding of {s:?}"); assert!(e.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_'), "safe characters");
    let back = Name::parse_encoded(&e).unwrap(); assert!(back == n && back.as_ref() == s, "{s:?} parses back"); assert!(n.to_string() == s);
    let j: Name = pot::from_slice(&pot::to_vec(&n).unwrap()).unwrap(); assert!(j == n && j.encoded() == e, "survives serialization");
}
#[cfg(not(kani))]
fn qualified<Q: Qualified + PartialEq + std::str::FromStr + std::fmt::Debug>(a: &str, n: &str) where Q::Err: std::fmt::Debug {
    let q = Q::new(a.to_string(), n.to_string()); let e = q.encoded(); assert!(e == format!("{}.{}", enc(a), enc(n)));
    assert!(Q::parse_encoded(&e).unwrap() == q); assert!(e.parse::<Q>().unwrap() == q); assert!(q.to_string() == format!("{a}.{n}"));
    for bad in [format!("{e}.x"), enc(a), format!("{e}_"), format!("{e}_g0")] { assert!(Q::parse_encoded(&bad).is_err(), "{bad}") }
}
bounded! {
    c10_b_every_char [1] { for c in '\0'..=char::MAX { if (c as u32) < 0x3000 || c as u32 % 17 == 0 { check(&c.to_string()); } } for a in 0..128u8 { for b in 0..128u8 { check(&format!("{}{}", a as char, b as char)); } } }
    c10_b_text [20000] { check(&chars(below(9))) }
    c10_b_parse [20000] { let n = below(9); let alphabet = b"_0189afgAFz-.\xc3"; let v: Vec<u8> = noise(n).iter().map(|b| alphabet[*b as usize % 12]).collect(); let s = String::from_utf8(v).unwrap();
        if let Ok(n) = Name::parse_encoded(&s) { assert!(Name::parse_encoded(&n.encoded()).unwrap() == n); }
        if let Ok(q) = QualifiedName::parse_encoded(&s) { assert!(s.matches('.').count() == 1); assert!(QualifiedName::parse_encoded(&q.encoded()).unwrap() == q); } else { assert!(s.matches('.').count() != 1 || s.split('.').any(|p| Name::parse_encoded(p).is_err())) } }
    c10_b_qualified [6000] { let (a, n) = (chars(below(5)), chars(below(5))); qualified::<QualifiedName>(&a, &n); qualified::<SchemaName>(&a, &n); qualified::<CollectionName>(&a, &n); }
    c10_b_view [6000] { let (a, c, v) = (chars(below(4)), chars(below(4)), chars(below(4))); let vn = ViewName { collection: CollectionName::new(a.clone(), c.clone()), name: name(&v) }; let e = format!("{vn:#}"); assert!(e.parse::<ViewName>().unwrap() == vn, "{e}"); assert!(e == format!("{}.{}.{}", enc(&a), enc(&c), enc(&v))); assert!(vn.to_string() == format!("{a}.{c}.{v}")); }
    c10_b_injective [20000] { let (a, b, c, d) = (chars(below(3)), chars(below(3)), chars(below(3)), chars(below(3))); let (p, q) = (QualifiedName::new(a.clone(), b.clone()), QualifiedName::new(c.clone(), d.clone())); assert!((p.encoded() == q.encoded()) == (p == q)); assert!((p == q) == (a == c && b == d)); }
}
