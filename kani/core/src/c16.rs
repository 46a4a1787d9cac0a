//! C16 (parts in bonsaidb-core): an operation says what its constructor was
//! asked for, and document headers convert without loss.
use crate::util::*;
use bonsaidb_core::document::{BorrowedDocument, CollectionHeader, DocumentId, Header, Revision};
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_core::transaction::{Command, Operation, Transaction};
use sym::*;

fn name() -> CollectionName { CollectionName::private("a") }
fn same_id(a: &DocumentId, id: u64) -> bool {
    let id = id.to_be_bytes();
    let mut same = a.len() == 8;
    let mut i = 0;
    while same && i < 8 { same = a[i] == id[i]; i += 1; }
    same
}
fn header(id: u64, r: &Revision) -> Header { Header { id: DocumentId::from_u64(id), revision: *r } }
fn revision() -> Revision { Revision { id: any(), sha256: arr::<32>() } }
fn same_revision(a: &Revision, b: &Revision) -> bool {
    let mut same = a.id == b.id;
    let mut i = 0;
    while same && i < 32 { same = a.sha256[i] == b.sha256[i]; i += 1; }
    same
}
fn contents() -> Vec<u8> { let mut v = Vec::with_capacity(2); v.push(any()); v.push(any()); v }
fn same_contents(a: &[u8], b: &[u8]) -> bool { a.len() == 2 && b.len() == 2 && a[0] == b[0] && a[1] == b[1] }
fn only(t: Transaction) -> Operation {
    let mut t = t;
    assert!(t.operations.len() == 1, "one operation");
    let op = t.operations.pop().unwrap();
    assert!(op.collection == name(), "of its collection");
    op
}
harnesses! {
    c16_insert [34] {
        let (id, c): (u64, Vec<u8>) = (any(), contents());
        let given: bool = any();
        let op = only(if any() { Transaction::insert(name(), given.then(|| DocumentId::from_u64(id)), c.clone()) } else { Transaction::from(Operation::insert(name(), given.then(|| DocumentId::from_u64(id)), c.clone())) });
        match &op.command {
            Command::Insert { id: i, contents } => assert!(i.is_some() == given && i.as_ref().map_or(true, |i| same_id(i, id)) && same_contents(contents, &c), "inserts what was given"),
            _ => panic!("not an insert"),
        }
        std::mem::forget((op, c));
    }
    c16_update [34] {
        let (id, r, c): (u64, Revision, Vec<u8>) = (any(), revision(), contents());
        let op = only(if any() { Transaction::update(name(), header(id, &r), c.clone()) } else { Transaction::new().with(Operation::update(name(), header(id, &r), c.clone())) });
        match &op.command {
            Command::Update { header, contents } => assert!(same_id(&header.id, id) && same_revision(&header.revision, &r) && same_contents(contents, &c), "updates what was given"),
            _ => panic!("not an update"),
        }
        std::mem::forget((op, c));
    }
    c16_overwrite [34] {
        let (id, c): (u64, Vec<u8>) = (any(), contents());
        let op = only(if any() { Transaction::overwrite(name(), DocumentId::from_u64(id), c.clone()) } else { Operation::overwrite(name(), DocumentId::from_u64(id), c.clone()).into() });
        match &op.command {
            Command::Overwrite { id: i, contents } => assert!(same_id(i, id) && same_contents(contents, &c), "overwrites what was given"),
            _ => panic!("not an overwrite"),
        }
        std::mem::forget((op, c));
    }
    c16_delete [34] {
        let (id, r): (u64, Revision) = (any(), revision());
        let op = only(if any() { Transaction::delete(name(), header(id, &r)) } else { Operation::delete(name(), header(id, &r)).into() });
        match &op.command {
            Command::Delete { header } => assert!(same_id(&header.id, id) && same_revision(&header.revision, &r), "deletes what was given"),
            _ => panic!("not a delete"),
        }
        std::mem::forget(op);
    }
    c16_check [34] {
        let id: u64 = any();
        let op = only(Operation::check_document_id_exists(name(), DocumentId::from_u64(id)).into());
        match &op.command {
            Command::Check { id: i, revision } => assert!(same_id(i, id) && revision.is_none(), "checks what was given"),
            _ => panic!("not a check"),
        }
        std::mem::forget(op);
    }
    c16_push [34] {
        let (a, b): (u64, u64) = (any(), any());
        let mut t = Transaction::new().with(Operation::check_document_id_exists(name(), DocumentId::from_u64(a)));
        t.push(Operation::overwrite(name(), DocumentId::from_u64(b), contents()));
        assert!(t.operations.len() == 2, "both operations");
        assert!(matches!(&t.operations[0].command, Command::Check { id, .. } if same_id(id, a)) && matches!(&t.operations[1].command, Command::Overwrite { id, .. } if same_id(id, b)), "in the order they were added");
        std::mem::forget(t);
    }
    c16_header [34] {
        let (id, r): (u64, Revision) = (any(), revision());
        let c: CollectionHeader<u64> = ok(CollectionHeader::try_from(&header(id, &r)));
        assert!(c.id == id && same_revision(&c.revision, &r), "collection header of a header");
        let c: CollectionHeader<u64> = ok(CollectionHeader::try_from(header(id, &r)));
        assert!(c.id == id && same_revision(&c.revision, &r), "collection header of a header by value");
        let h = ok(Header::try_from(c));
        assert!(same_id(&h.id, id) && same_revision(&h.revision, &r), "and back");
    }
    c16_document [34] {
        let (id, r, c): (u64, Revision, Vec<u8>) = (any(), revision(), contents());
        let d = BorrowedDocument { header: header(id, &r), contents: bonsaidb_core::arc_bytes::serde::CowBytes::from(&c[..]) };
        let o = d.into_owned();
        assert!(same_id(&o.header.id, id) && same_revision(&o.header.revision, &r) && same_contents(&o.contents, &c), "owned document");
        std::mem::forget((o, c));
    }
}
bounded! {}
