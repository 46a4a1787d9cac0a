//! C17 (parts in bonsaidb-core): a map function's emitted mappings are kept
//! completely, in order, each with the header of its document.
use crate::util::*;
use bonsaidb_core::document::{CollectionHeader, DocumentId, Emit, Header, Revision};
use bonsaidb_core::schema::view::map::{Map, Mappings};
use sym::*;

type Emitted = (u64, u32, u32);
fn header(id: u64) -> Header {
    Header { id: DocumentId::from_u64(id), revision: Revision { id: any(), sha256: arr::<32>() } }
}
fn same_id(a: &DocumentId, id: u64) -> bool {
    let id = id.to_be_bytes();
    let mut same = a.len() == 8;
    let mut i = 0;
    while same && i < 8 { same = a[i] == id[i]; i += 1; }
    same
}
fn mapping(e: &mut Emitted) -> Map<u32, u32> {
    *e = (any(), any(), any());
    Map::new(Header { id: DocumentId::from_u64(e.0), revision: Revision { id: 0, sha256: [0; 32] } }, e.1, e.2)
}
fn is(m: &Map<u32, u32>, e: &Emitted) -> bool { same_id(&m.source.id, e.0) && m.key == e.1 && m.value == e.2 }
/// `m` contains exactly `e`, in order, however it is read.
fn exactly<const N: usize>(m: Mappings<u32, u32>, e: &[Emitted; N]) {
    assert!(m.len() == N && m.is_empty() == (N == 0), "number of mappings");
    let mut it = m.iter();
    let mut i = 0;
    while i < N { assert!(is(it.next().unwrap(), &e[i]), "mapping by reference"); i += 1; }
    assert!(it.next().is_none(), "no other mapping");
    let mut it = m.into_iter();
    i = 0;
    while i < N { assert!(is(&it.next().unwrap(), &e[i]), "mapping by value"); i += 1; }
    assert!(it.next().is_none() && it.next().is_none(), "no other mapping by value");
    std::mem::forget(it);
}
fn pushed<const N: usize>(e: &mut [Emitted; N]) -> Mappings<u32, u32> {
    let mut m = Mappings::none();
    let mut i = 0;
    while i < N { m.push(mapping(&mut e[i])); i += 1; }
    m
}
fn push<const N: usize>() {
    let mut e = [(0, 0, 0); N];
    let m = pushed(&mut e);
    exactly(m, &e);
}
/// Collecting mappings, or collections of mappings, keeps all of them.
fn joined<const A: usize, const B: usize, const N: usize>(collect: bool) {
    let (mut a, mut b) = ([(0, 0, 0); A], [(0, 0, 0); B]);
    let (x, y) = (pushed(&mut a), pushed(&mut b));
    let m: Mappings<u32, u32> = if collect {
        [x, y].into_iter().collect()
    } else {
        let mut m = x;
        m.extend(y);
        m
    };
    let mut e = [(0, 0, 0); N];
    let mut i = 0;
    while i < A { e[i] = a[i]; i += 1; }
    while i < N { e[i] = b[i - A]; i += 1; }
    exactly(m, &e);
}
fn one<K: PartialEq, V: PartialEq>(m: Mappings<K, V>, id: u64, h: &Header, k: K, v: V) {
    assert!(m.len() == 1, "one mapping");
    let m = m.into_iter().next().unwrap();
    assert!(same_id(&m.source.id, id) && m.source.revision.id == h.revision.id && m.source.revision.sha256[7] == h.revision.sha256[7] && m.key == k && m.value == v, "emitted with its document");
}
harnesses! {
    c17_push_0 [10] { push::<0>() }
    c17_push_1 [10] { push::<1>() }
    c17_push_2 [10] { push::<2>() }
    #[cfg(feature = "deep")]
    c17_push_3 [10] { push::<3>() }
    c17_collect_0_1 [10] { joined::<0, 1, 1>(true) }
    c17_collect_1_1 [10] { joined::<1, 1, 2>(true) }
    #[cfg(feature = "deep")]
    c17_collect_2_1 [10] { joined::<2, 1, 3>(true) }
    c17_extend_0_1 [10] { joined::<0, 1, 1>(false) }
    c17_extend_1_1 [10] { joined::<1, 1, 2>(false) }
    #[cfg(feature = "deep")]
    c17_extend_2_1 [10] { joined::<2, 1, 3>(false) }
    c17_emit [34] {
        let id: u64 = any();
        let h = header(id);
        let (k, v): (u64, i32) = (any(), any());
        one(ok(h.emit_key_and_value(k, v)), id, &h, k, v);
        one(ok(h.emit_key(k)), id, &h, k, ());
        one(ok(h.emit_value(v)), id, &h, (), v);
        let some: bool = any();
        let m = ok(h.emit_if(some));
        assert!(m.len() == usize::from(some), "emitted if the condition holds");
        let c = CollectionHeader { id, revision: h.revision };
        one(ok(c.emit_key_and_value(k, v)), id, &h, k, v);
    }
}
bounded! {
    c17_b_mappings [2000] {
        let n = below(6);
        let mut all = Vec::new();
        let groups: Vec<Mappings<u32, u32>> = (0..n).map(|_| (0..below(5)).map(|_| { let mut e = (0, 0, 0); let m = mapping(&mut e); all.push(e); m }).collect()).collect();
        let m: Mappings<u32, u32> = groups.into_iter().collect();
        assert!(m.len() == all.len() && m.iter().zip(&all).all(|(m, e)| is(m, e)), "collected mappings");
        assert!(m.into_iter().map(|m| (m.key, m.value)).eq(all.iter().map(|e| (e.1, e.2))), "collected mappings by value");
    }
}
