//! C09: key ranges keep exactly their members through construction,
//! conversion and (de)serialization.
use crate::types::*;
use crate::util::*;
use bonsaidb_core::arc_bytes::serde::Bytes as SerdeBytes;
use bonsaidb_core::connection::{Bound, BoundRef, MaybeOwned, QueryKey, Range, RangeRef, SerializedQueryKey};
use bonsaidb_core::key::*;
use std::ops::RangeBounds;
use sym::*;

fn bound<T: Sym>(k: usize) -> Bound<T> { match k { 0 => Bound::Unbounded, 1 => Bound::Included(any()), _ => Bound::Excluded(any()) } }
fn range<T: Sym>() -> Range<T> { Range { start: bound(below(3)), end: bound(below(3)) } }
/// Independent membership.
fn member<T: Ord>(r: &Range<T>, v: &T) -> bool {
    (match &r.start { Bound::Unbounded => true, Bound::Included(s) => *v >= *s, Bound::Excluded(s) => *v > *s }) && (match &r.end { Bound::Unbounded => true, Bound::Included(e) => *v <= *e, Bound::Excluded(e) => *v < *e })
}
macro_rules! std_range { ($r:expr, $v:ident) => {{ let r = $r; let w = std::ops::RangeBounds::contains(&r, &$v); assert!(Range::from(r.clone()).contains(&$v) == w, "Range::from"); assert!(RangeRef::<'_, u32>::from(r).contains(&$v) == w, "RangeRef::from"); }} }
/// Serialize, deserialize: the same bounds come back.
fn ser<K: for<'k> Key<'k> + Sym + PartialEq>(r: Range<K>) {
    let rr = RangeRef::<'_, K>::owned(Range { start: r.start, end: r.end });
    let b = ok(rr.as_ord_bytes()); let back: Range<K> = ok(b.deserialize());
    assert!(same(&back.start, &r.start) && same(&back.end, &r.end), "bounds survive");
    std::mem::forget(b);
}
fn same<K: PartialEq>(a: &Bound<K>, b: &Bound<K>) -> bool { match (a, b) { (Bound::Unbounded, Bound::Unbounded) => true, (Bound::Included(x), Bound::Included(y)) => x == y, (Bound::Excluded(x), Bound::Excluded(y)) => x == y, _ => false } }

harnesses! {
    c09_contains [4] { let r = range::<u32>(); let v: u32 = any(); assert!(r.contains(&v) == member(&r, &v), "membership"); }
    c09_contains_ref [4] { let r = range::<u32>(); let v: u32 = any(); let w = member(&r, &v); assert!(RangeRef::<'_, u32>::owned(r).contains(&v) == w); let b = r.map_ref(|x| x); assert!(RangeRef::<'_, u32>::borrowed(b).contains(&v) == w); }
    c09_builders [4] { let r = range::<u32>(); let (a, v): (u32, u32) = (any(), any());
        assert!(r.after(a).contains(&v) == (v > a && member(&Range { start: Bound::Unbounded, end: r.end }, &v)), "after");
        assert!(r.start_at(a).contains(&v) == (v >= a && member(&Range { start: Bound::Unbounded, end: r.end }, &v)), "start_at");
        assert!(r.before(a).contains(&v) == (v < a && member(&Range { start: r.start, end: Bound::Unbounded }, &v)), "before");
        assert!(r.end_at(a).contains(&v) == (v <= a && member(&Range { start: r.start, end: Bound::Unbounded }, &v)), "end_at"); }
    c09_from_half_open [4] { let (a, b, v): (u32, u32, u32) = (any(), any(), any()); std_range!(a..b, v); }
    c09_from_inclusive [4] { let (a, b, v): (u32, u32, u32) = (any(), any(), any()); std_range!(a..=b, v); }
    c09_from_from [4] { let (a, v): (u32, u32) = (any(), any()); std_range!(a.., v); }
    c09_from_to [4] { let (b, v): (u32, u32) = (any(), any()); std_range!(..b, v); }
    c09_from_to_inclusive [4] { let (b, v): (u32, u32) = (any(), any()); let w = v <= b; assert!(Range::from(..=b).contains(&v) == w); assert!(RangeRef::<'_, u32>::from(..=&b).contains(&v) == w); }
    c09_from_full [4] { let v: u32 = any(); assert!(Range::<u32>::from(..).contains(&v)); assert!(RangeRef::<'_, u32>::from(..).contains(&v)); assert!(Range::<u32>::default().contains(&v)); }
    c09_from_borrowed [4] { let (a, b, v): (u32, u32, u32) = (any(), any(), any()); let h = v >= a && v < b;
        assert!(RangeRef::<'_, u32>::from(&(&a..&b)).contains(&v) == h); assert!(RangeRef::<'_, u32>::from(&(&a..)).contains(&v) == (v >= a)); assert!(RangeRef::<'_, u32>::from(&(..&b)).contains(&v) == (v < b)); assert!(RangeRef::<'_, u32>::from(&(&a..=&b)).contains(&v) == (v >= a && v <= b)); }
    c09_map [4] { let r = range::<u32>(); let m = r.map(|x| x as u64 + 1); let v: u32 = any(); assert!(member(&m, &(v as u64 + 1)) == member(&r, &v), "map keeps bounds in place"); }
    c09_map_result [4] { let r = range::<u32>(); let bad: u32 = any(); let m = r.map_result(|x| if x == bad { Err(()) } else { Ok(x) }); let hit = |b: &Bound<u32>| matches!(b, Bound::Included(x) | Bound::Excluded(x) if *x == bad); match m { Ok(m) => assert!(same(&m.start, &r.start) && same(&m.end, &r.end)), Err(()) => assert!(hit(&r.start) || hit(&r.end)) } if hit(&r.start) || hit(&r.end) { assert!(m.is_err()) } }
    c09_ser_u32 [20] { ser::<u32>(Range { start: bound(1), end: bound(2) }) }
    c09_ser_u32_2 [20] { ser::<u32>(Range { start: bound(2), end: bound(1) }) }
    c09_ser_u64_open [20] { ser::<u64>(Range { start: bound(0), end: bound(1) }); ser::<u64>(Range { start: bound(1), end: bound(0) }); }
    c09_ser_bool [20] { ser::<bool>(Range { start: bound(2), end: bound(2) }); ser::<bool>(Range { start: bound(1), end: bound(1) }); ser::<bool>(Range { start: bound(0), end: bound(0) }); }
    c09_query_matches [20] { let k: u32 = any(); let q = QueryKey::<'_, u32>::Matches(MaybeOwned::Owned(k)); let s = ok(q.serialized()); let back = ok(s.deserialized::<u32>()); match &back { QueryKey::Matches(v) => assert!(**v == k), _ => assert!(false, "same kind of query") } std::mem::forget((q, s, back)); }
    c09_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}
#[cfg(not(kani))]
fn any_bound<K>(f: &dyn Fn() -> K) -> Bound<K> { match below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(f()), _ => Bound::Excluded(f()) } }
#[cfg(not(kani))]
fn ser_any<K: for<'k> Key<'k> + Clone + Ord + std::fmt::Debug + 'static>(f: &dyn Fn() -> K) where <K as KeyEncoding<K>>::Error: std::fmt::Debug {
    let r = Range { start: any_bound(f), end: any_bound(f) };
    let back: Range<K> = RangeRef::<'_, K>::owned(r.clone()).as_ord_bytes().unwrap().deserialize().unwrap();
    assert!(back == r, "range bounds survive serialization");
    // Byte-wise membership of the serialized range == membership of the key.
    let b = RangeRef::<'_, K>::owned(r.clone()).as_ord_bytes().unwrap(); let v = f(); let vb = SerdeBytes::from(v.as_ord_bytes().unwrap().to_vec());
    assert!(b.contains(&vb) == member(&r, &v), "serialized range selects the same keys");
    let ks: Vec<K> = (0..below(4)).map(|_| f()).collect();
    let q = QueryKey::<'_, K>::Multiple(ks.iter().cloned().map(MaybeOwned::Owned).collect());
    match q.serialized().unwrap().deserialized::<K>().unwrap() { QueryKey::Multiple(v) => assert!(v.len() == ks.len() && v.iter().zip(&ks).all(|(a, b)| **a == *b), "every key, in order"), _ => panic!("same kind of query") }
    match QueryKey::<'_, K>::Range(RangeRef::owned(r.clone())).serialized().unwrap().deserialized::<K>().unwrap() { QueryKey::Range(x) => assert!(x.contains(&v) == member(&r, &v)), _ => panic!("same kind of query") }
    let j = pot::to_vec(&b).unwrap(); let w: Range<SerdeBytes> = pot::from_slice(&j).unwrap(); assert!(w == b, "ranges survive the wire");
}
bounded! {
    c09_b_keys [6000] { ser_any::<u64>(&|| any()); ser_any::<Vec<u8>>(&|| noise(below(6))); ser_any::<String>(&|| chars(below(4))); ser_any::<Option<u16>>(&|| if any() { Some(any()) } else { None }); ser_any::<(u8, String)>(&|| (any(), chars(below(3)).replace('\0', "x"))); }
}
