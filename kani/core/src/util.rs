use bonsaidb_core::key::{ByteSource, Key, KeyEncoding};
use std::borrow::Cow;

pub fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            std::mem::forget(e);
            panic!("unexpected Err")
        }
    }
}

/// memcmp order, written independently of slice::cmp.
pub fn memcmp(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let mut i = 0;
    loop {
        if i == a.len() {
            return if i == b.len() { Equal } else { Less };
        }
        if i == b.len() {
            return Greater;
        }
        if a[i] != b[i] {
            return if a[i] < b[i] { Less } else { Greater };
        }
        i += 1;
    }
}

/// Contract: decode(encode(k)) == k, and the declared fixed length is honoured.
pub fn round_trip<K>(k: &K)
where
    K: for<'k> Key<'k> + PartialEq,
{
    let b = ok(k.as_ord_bytes());
    if let Some(n) = <K as KeyEncoding<K>>::LENGTH {
        assert!(b.len() == n, "declared LENGTH");
    }
    let r = ok(K::from_ord_bytes(ByteSource::Borrowed(&b)));
    assert!(r == *k, "round trip (borrowed)");
    std::mem::forget(r);
    std::mem::forget(b);
}

/// As `round_trip`, for the two other ways bytes reach a decoder.
pub fn round_trip_owned<K>(k: &K)
where
    K: for<'k> Key<'k> + PartialEq,
{
    let b = ok(k.as_ord_bytes());
    let r = ok(K::from_ord_bytes(ByteSource::Ephemeral(&b)));
    assert!(r == *k, "round trip (ephemeral)");
    std::mem::forget(r);
    let v: Vec<u8> = match b {
        Cow::Borrowed(b) => b.to_vec(),
        Cow::Owned(b) => b,
    };
    let r = ok(K::from_ord_bytes(ByteSource::Owned(v)));
    assert!(r == *k, "round trip (owned)");
    std::mem::forget(r);
}

/// Contract: memcmp order of encodings == Ord of the values.
pub fn ordered<K>(x: &K, y: &K)
where
    K: for<'k> Key<'k> + Ord,
{
    let a = ok(x.as_ord_bytes());
    let b = ok(y.as_ord_bytes());
    assert!(memcmp(&a, &b) == x.cmp(y), "encoding preserves order");
    std::mem::forget(a);
    std::mem::forget(b);
}

/// Well-formed UTF-8 (Unicode 15, table 3-7), independent of core::str.
pub fn utf8_ok(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    while i < n {
        let x = b[i];
        if x < 0x80 {
            i += 1;
            continue;
        }
        let (w, lo, hi) = if x < 0xC2 {
            return false;
        } else if x <= 0xDF {
            (2, 0x80, 0xBF)
        } else if x == 0xE0 {
            (3, 0xA0, 0xBF)
        } else if x == 0xED {
            (3, 0x80, 0x9F)
        } else if x <= 0xEF {
            (3, 0x80, 0xBF)
        } else if x == 0xF0 {
            (4, 0x90, 0xBF)
        } else if x <= 0xF3 {
            (4, 0x80, 0xBF)
        } else if x == 0xF4 {
            (4, 0x80, 0x8F)
        } else {
            return false;
        };
        if i + w > n || b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        let mut k = 2;
        while k < w {
            if b[i + k] < 0x80 || b[i + k] > 0xBF {
                return false;
            }
            k += 1;
        }
        i += w;
    }
    true
}

/// Arbitrary text of exactly `N` bytes.
pub fn text<const N: usize>() -> String {
    let a = sym::arr::<N>();
    sym::assume(utf8_ok(&a));
    // SAFETY: just checked.
    unsafe { String::from_utf8_unchecked(a.to_vec()) }
}

/// Assumed contracts of std / dependency functions whose optimised bodies are
/// out of the verifier's reach (listed as assumptions in the evidence).
#[cfg(kani)]
pub mod stubs {
    use super::utf8_ok;

    pub fn string_from_utf8(b: Vec<u8>) -> Result<String, std::string::FromUtf8Error> {
        if utf8_ok(&b) {
            Ok(unsafe { String::from_utf8_unchecked(b) })
        } else {
            // `String::from_utf8` of a fixed invalid string yields a genuine error value.
            Err(unsafe { std::mem::transmute::<(Vec<u8>, [u64; 2]), _>((b, [0, 0])) })
        }
    }

    pub fn str_from_utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
        if utf8_ok(b) {
            Ok(unsafe { std::str::from_utf8_unchecked(b) })
        } else {
            Err(unsafe { std::mem::transmute::<[u64; 2], _>([0, 0]) })
        }
    }

    pub fn bytecount(h: &[u8], n: u8) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < h.len() {
            if h[i] == n {
                c += 1;
            }
            i += 1;
        }
        c
    }
}
