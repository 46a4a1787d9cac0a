//! C18: the changes of a transaction are enumerated completely and in order,
//! each with the collection it belongs to.
use crate::util::*;
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_core::transaction::{ChangedDocument, DocumentChanges};
use sym::*;

const NAMES: [&str; 3] = ["a", "b", "c"];
/// Any `N` changes of `C` collections.
fn changes<const C: usize, const N: usize>() -> (DocumentChanges, [(u16, u64, bool); N]) {
    let mut c = DocumentChanges { collections: Vec::with_capacity(C), documents: Vec::with_capacity(N) };
    let mut i = 0;
    while i < C { c.collections.push(CollectionName::private(NAMES[i])); i += 1; }
    let mut of = [(0, 0, false); N];
    i = 0;
    while i < N {
        of[i] = (any(), any(), any());
        assume((of[i].0 as usize) < C);
        c.documents.push(ChangedDocument { collection: of[i].0, id: DocumentId::from_u64(of[i].1), deleted: of[i].2 });
        i += 1;
    }
    (c, of)
}
fn is(c: &DocumentChanges, got: (&CollectionName, &ChangedDocument), want: &(u16, u64, bool)) -> bool {
    let id: [u8; 8] = want.1.to_be_bytes();
    std::ptr::eq(got.0, &c.collections[want.0 as usize]) && got.1.deleted == want.2 && got.1.collection == want.0 && got.1.id.len() == 8 && { let mut same = true; let mut i = 0; while i < 8 { same &= got.1.id[i] == id[i]; i += 1; } same }
}
fn enumerated<const C: usize, const N: usize>() {
    let (c, of) = changes::<C, N>();
    assert!(c.len() == N && c.is_empty() == (N == 0), "number of changes");
    let mut it = c.iter();
    let mut i = 0;
    while i < N {
        assert!(is(&c, it.next().unwrap(), &of[i]), "change in order");
        assert!(is(&c, c.get(i).unwrap(), &of[i]), "change by index");
        i += 1;
    }
    assert!(it.next().is_none() && it.next().is_none(), "ends after the last change");
    let beyond: usize = any();
    assume(beyond >= N);
    assert!(c.get(beyond).is_none(), "no change beyond the last");
    std::mem::forget(c);
}
harnesses! {
    c18_changes_1_0 [10] { enumerated::<1, 0>() }
    c18_changes_1_1 [10] { enumerated::<1, 1>() }
    c18_changes_2_2 [10] { enumerated::<2, 2>() }
    #[cfg(feature = "deep")]
    c18_changes_3_3 [10] { enumerated::<3, 3>() }
}
bounded! {
    c18_b_changes [20000] {
        let n = below(2 + below(300));
        let names: Vec<_> = (0..1 + below(40)).map(|i| CollectionName::new("x", format!("c{i}"))).collect();
        let c = DocumentChanges { documents: (0..n).map(|_| ChangedDocument { collection: below(names.len()) as u16, id: DocumentId::from_u64(any()), deleted: any() }).collect(), collections: names };
        let want: Vec<_> = c.documents.iter().map(|d| (c.collections[d.collection as usize].clone(), d.id.clone(), d.deleted)).collect();
        assert!(c.iter().map(|(n, d)| (n.clone(), d.id.clone(), d.deleted)).eq(want.iter().cloned()), "by reference");
        assert!((&c).into_iter().count() == n && c.len() == n && c.is_empty() == (n == 0));
        let sent: DocumentChanges = pot::from_slice(&pot::to_vec(&c).unwrap()).unwrap();
        assert!(c.into_iter().map(|(n, d)| (n, d.id, d.deleted)).eq(want.iter().cloned()), "by value");
        assert!(sent.into_iter().map(|(n, d)| (n, d.id, d.deleted)).eq(want), "after serialization");
    }
}
