//! C11: document ids: limit enforced, text form parses back, key round-trip.
use crate::util::*;
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::*;
use std::str::FromStr;
use sym::*;

harnesses! {
    c11_u64 [20] { let v: u64 = any(); let id = DocumentId::from_u64(v); assert!(id.len() == 8); let back: u64 = ok(id.deserialize()); assert!(back == v); let k = ok(DocumentId::new(&v)); assert!(k == id, "id of a key is its encoding"); }
    c11_u32 [20] { let v: u32 = any(); let id = DocumentId::from_u32(v); let back: u32 = ok(id.deserialize()); assert!(back == v); }
    c11_order [20] { let (a, b): (u64, u64) = (any(), any()); assert!(DocumentId::from_u64(a).cmp(&DocumentId::from_u64(b)) == a.cmp(&b), "ids order like their keys"); }
    c11_bytes [20] { let a = arr::<5>(); let id = ok(DocumentId::try_from(&a[..])); assert!(id[..] == a[..]); }
    c11_parse_hex [8] { let (h, l): (u8, u8) = (any(), any()); assume(h < 128 && l < 128); let s = [b'$', h, l]; let r = DocumentId::from_str(unsafe { std::str::from_utf8_unchecked(&s) });
        let nib = |c: u8| match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None };
        match r { Ok(id) => match (nib(h), nib(l)) { (Some(x), Some(y)) => assert!(id.len() == 1 && id[0] == x * 16 + y, "hexadecimal value"), _ => assert!(false, "not hexadecimal") }, Err(e) => { std::mem::forget(e); assert!(nib(h).is_none() || nib(l).is_none()) } } }
    c11_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}
#[cfg(not(kani))]
fn check(b: &[u8]) {
    let id = DocumentId::try_from(b).unwrap(); assert!(&id[..] == b);
    let s = id.to_string(); let back = DocumentId::from_str(&s).unwrap_or_else(|e| panic!("{s:?} does not parse: {e}")); assert!(back == id, "{b:?} displays as {s:?}, which parses as {:?}", &back[..]);
    assert!(s.chars().all(|c| !c.is_control() || c == '\u{7f}'), "printable");
    round_trip(&id);
    let j: DocumentId = pot::from_slice(&pot::to_vec(&id).unwrap()).unwrap(); assert!(j == id, "survives serialization");
}
bounded! {
    c11_b_short_exhaustive [1] { check(&[]); for a in 0..=255u8 { check(&[a]); for b in 0..=255u8 { check(&[a, b]); check(&[0, a, b]); check(&[b'a', a, b]); } } }
    c11_b_bytes [20000] { let mut v = vec![0; if any() { 0 } else { below(40) }]; v.extend(noise(below(40))); check(&v); }
    c11_b_text [20000] { let n = below(12); let v: Vec<u8> = noise(n).iter().map(|b| b"$09afAF x~z"[*b as usize % 11]).collect(); check(&v); let s = String::from_utf8(v).unwrap(); if let Ok(id) = DocumentId::from_str(&s) { assert!(DocumentId::from_str(&id.to_string()).unwrap() == id) } }
    c11_b_parse_noise [20000] { let s = chars(below(10)); let _ = DocumentId::from_str(&s); let t = format!("{}${}", ["", "0", "f", "ff", "ffff", "10000", "fffff", "xyz"][below(8)], chars(below(6))); let _ = DocumentId::from_str(&t); }
    c11_b_limit [60] { let n = [65534usize, 65535, 65536, 65537, 70000][below(5)]; let fits = n <= DocumentId::MAX_LENGTH; let v = noise(n);
        assert!(DocumentId::try_from(&v[..]).is_ok() == fits, "limit on bytes"); assert!(DocumentId::new(&v).is_ok() == fits, "limit on keys"); if fits { check(&v) }
        let t = "a".repeat(n); assert!(DocumentId::from_str(&t).is_ok() == fits, "limit on text"); assert!(DocumentId::from_str(&format!("${}", "11".repeat(n))).is_ok() == fits, "limit on hexadecimal");
        let z = below(70000); let m = below(70000); assert!(DocumentId::from_str(&format!("{z:x}${}", "11".repeat(m))).is_ok() == (z + m <= DocumentId::MAX_LENGTH), "limit with leading zeroes");
        assert!(DocumentId::from_ord_bytes(ByteSource::Borrowed(&v)).is_ok() == fits); let b = pot::to_vec(&bonsaidb_core::arc_bytes::serde::Bytes::from(v)).unwrap(); assert!(pot::from_slice::<DocumentId>(&b).is_ok() == fits, "limit on the wire"); }
    c11_b_order [20000] { let (a, b) = (noise(below(20)), noise(below(20))); assert!(DocumentId::try_from(&a[..]).unwrap().cmp(&DocumentId::try_from(&b[..]).unwrap()) == memcmp(&a, &b)); }
    c11_b_keys [6000] { let k = (noise(below(9)), any::<u32>(), chars(below(4))); let id = DocumentId::new(&k).unwrap(); assert!(id.deserialize::<(Vec<u8>, u32, String)>().unwrap() == k); }
}
