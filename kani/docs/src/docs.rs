//! Random histories of document operations on a real database, compared with
//! a map from ids to documents (native only).
use crate::scratch::Scratch;
use bonsaidb_core::connection::*;
use bonsaidb_core::document::*;
use bonsaidb_core::schema::{Collection, CollectionName, Nameable, Qualified, Schema, SchemaName, Schematic, SerializedCollection};
use bonsaidb_core::transaction::{Changes, Command, Operation, OperationResult, Transaction};
use bonsaidb_core::transmog_pot::Pot;
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{AsyncDatabase, Database};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use sym::*;

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
pub fn wait<F: std::future::Future>(f: F) -> F::Output { runtime().block_on(f) }

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct Item { pub emits: Vec<(u8, u32)>, pub unique: Option<u8>, pub note: Vec<u8> }
impl Item {
    pub fn random() -> Self {
        Item {
            emits: (0..below(4)).map(|_| (below(10) as u8, any::<u32>() >> 8)).collect(),
            unique: if below(3) == 0 { Some(below(6) as u8) } else { None },
            note: noise(if below(40) == 0 { 20_000 } else { below(5) * below(40) }),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Plain;
#[derive(Debug, Clone)]
pub struct Viewed;
pub const NAMES: [(&str, &str); 2] = [("vk", "plain"), ("vk", "viewed")];
impl Collection for Plain {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new(NAMES[0].0, NAMES[0].1) }
    fn define_views(_: &mut Schematic) -> Result<(), Error> { Ok(()) }
}
impl Collection for Viewed {
    type PrimaryKey = u64;
    fn collection_name() -> CollectionName { CollectionName::new(NAMES[1].0, NAMES[1].1) }
    fn define_views(s: &mut Schematic) -> Result<(), Error> { crate::views::define(s) }
}
impl SerializedCollection for Plain {
    type Contents = Item;
    type Format = Pot;
    fn format() -> Pot { Pot::default() }
    fn natural_id(item: &Item) -> Option<u64> { item.unique.map(u64::from) }
}
impl SerializedCollection for Viewed {
    type Contents = Item;
    type Format = Pot;
    fn format() -> Pot { Pot::default() }
}
#[derive(Debug)]
pub struct World_;
impl Schema for World_ {
    fn schema_name() -> SchemaName { SchemaName::new("vk", "world") }
    fn define_collections(s: &mut Schematic) -> Result<(), Error> {
        s.define_collection::<Plain>()?;
        s.define_collection::<Viewed>()
    }
}
pub fn name(c: usize) -> CollectionName { CollectionName::new(NAMES[c].0, NAMES[c].1) }
pub fn bytes(i: &Item) -> Vec<u8> { Plain::serialize(i).unwrap() }

pub type Docs = BTreeMap<u64, (Revision, Item)>;
#[derive(Clone, Debug, Default)]
pub struct State { pub docs: [Docs; 2], pub highest: [u64; 2] }
#[derive(Clone, Debug)]
pub enum Cmd { Insert(Option<u64>, Item), Update(u64, Revision, Item), Overwrite(u64, Item), Delete(u64, Revision), Check(u64, Option<Revision>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Done { Updated(u64, Revision), Deleted(u64), Checked }
#[derive(Clone, Debug, PartialEq)]
pub enum Fail { Conflict(usize, u64, Revision), Missing(usize, u64), Unique(u64, u64), NoId }
pub fn id(i: u64) -> DocumentId { DocumentId::new(&i).unwrap() }
pub fn header(i: u64, r: Revision) -> Header { Header { id: id(i), revision: r } }

impl State {
    fn unique_clash(&self, c: usize, i: u64, item: &Item) -> Result<(), Fail> {
        if c != 1 { return Ok(()); }
        if let Some(u) = item.unique {
            if let Some((other, _)) = self.docs[1].iter().find(|(o, (_, x))| **o != i && x.unique == Some(u)) { return Err(Fail::Unique(*other, i)); }
        }
        Ok(())
    }
    /// The specification of one operation.
    pub fn step(&mut self, c: usize, cmd: &Cmd) -> Result<Done, Fail> {
        match cmd {
            Cmd::Insert(i, item) => {
                let i = match i {
                    Some(i) => *i,
                    // Ids are assigned after the highest one ever used.
                    None => self.highest[c].checked_add(1).ok_or(Fail::NoId)?,
                };
                if let Some((r, _)) = self.docs[c].get(&i) { return Err(Fail::Conflict(c, i, *r)); }
                self.unique_clash(c, i, item)?;
                let r = Revision::new(&bytes(item));
                self.docs[c].insert(i, (r, item.clone()));
                self.highest[c] = self.highest[c].max(i);
                Ok(Done::Updated(i, r))
            }
            Cmd::Update(i, r, item) => match self.docs[c].get(i) {
                None => Err(Fail::Missing(c, *i)),
                Some((now, _)) if now != r => Err(Fail::Conflict(c, *i, *now)),
                Some(_) => self.write(c, *i, item),
            },
            Cmd::Overwrite(i, item) => self.write(c, *i, item),
            Cmd::Delete(i, r) => match self.docs[c].get(i) {
                None => Err(Fail::Missing(c, *i)),
                Some((now, _)) if now != r => Err(Fail::Conflict(c, *i, *now)),
                Some(_) => { self.docs[c].remove(i); Ok(Done::Deleted(*i)) }
            },
            Cmd::Check(i, r) => match self.docs[c].get(i) {
                None => Err(Fail::Missing(c, *i)),
                Some((now, _)) if r.map_or(false, |r| r != *now) => Err(Fail::Conflict(c, *i, *now)),
                Some(_) => Ok(Done::Checked),
            },
        }
    }
    fn write(&mut self, c: usize, i: u64, item: &Item) -> Result<Done, Fail> {
        self.unique_clash(c, i, item)?;
        let r = match self.docs[c].get(&i) {
            None => Revision::new(&bytes(item)),
            Some((r, old)) if bytes(old) == bytes(item) => *r,
            Some((r, _)) => { let n = r.next_revision(&bytes(item)).expect("contents changed"); assert!(n.id == r.id + 1, "revision number"); n }
        };
        self.docs[c].insert(i, (r, item.clone()));
        self.highest[c] = self.highest[c].max(i);
        Ok(Done::Updated(i, r))
    }
}

pub fn failed(e: &Error, f: &Fail) {
    let same = match (e, f) {
        (Error::DocumentConflict(n, h), Fail::Conflict(c, i, r)) => *n == name(*c) && **h == header(*i, *r),
        (Error::DocumentNotFound(n, d), Fail::Missing(c, i)) => *n == name(*c) && **d == id(*i),
        (Error::UniqueKeyViolation { view, existing_document, conflicting_document }, Fail::Unique(old, new)) =>
            view.to_string() == crate::views::UNIQUE && existing_document.id == id(*old) && conflicting_document.id == id(*new),
        (Error::DocumentPush(n, _), Fail::NoId) => *n == name(0) || *n == name(1),
        _ => false,
    };
    assert!(same, "reported {e:?}, expected {f:?}");
}

#[derive(Clone, Debug, PartialEq)]
pub struct Logged { pub id: u64, pub changes: Vec<(usize, u64, bool)> }

pub struct World { pub db: Database, pub adb: AsyncDatabase, pub state: State, pub log: Vec<Logged>, pub since: [Vec<Docs>; 2], pub dir: Scratch, pub disk: bool, pub now: bool }
impl World {
    pub fn new(disk: bool) -> Self {
        let dir = Scratch::new("docs");
        let db = Self::open(&dir, disk);
        let adb = db.to_async_with_runtime(runtime().handle().clone());
        World { db, adb, state: State::default(), log: vec![], since: [vec![Docs::new()], vec![Docs::new()]], dir, disk, now: false }
    }
    fn open(dir: &Scratch, disk: bool) -> Database {
        let c = StorageConfiguration::new(dir.path().join("db"));
        Database::open::<World_>(if disk { c } else { c.memory_only() }).unwrap()
    }
    pub fn reopen(self) -> Self {
        let World { db, adb, state, log, since, dir, disk, .. } = self;
        assert!(disk);
        drop(adb);
        drop(db);
        let db = Self::open(&dir, true);
        let adb = db.to_async_with_runtime(runtime().handle().clone());
        World { db, adb, state, log, since, dir, disk, now: false }
    }

    // --- arguments -------------------------------------------------------
    pub fn any_id(&self) -> u64 {
        match below(12) { 0 => u64::MAX, 1 => 255 + below(3) as u64, _ => below(12) as u64 }
    }
    fn live(&self, c: usize) -> Option<u64> { let d = &self.state.docs[c]; if d.is_empty() { None } else { d.keys().nth(below(d.len())).copied() } }
    pub fn some_id(&self, c: usize) -> u64 { if below(4) > 0 { if let Some(i) = self.live(c) { return i; } } self.any_id() }
    fn revision(&self, s: &State, c: usize, i: u64) -> Revision {
        match s.docs[c].get(&i) {
            Some((r, _)) => match below(8) { 0 => Revision { id: r.id.wrapping_add(1), ..*r }, 1 => { let mut x = *r; x.sha256[below(32)] ^= 1; x } _ => *r },
            None => Revision::new(b"none"),
        }
    }
    fn item(&self, c: usize, i: u64) -> Item {
        if below(5) == 0 { if let Some((_, x)) = self.state.docs[c].get(&i) { return x.clone(); } }
        Item::random()
    }
    /// An operation, usually one that succeeds in `s`.
    pub fn command(&self, s: &State, c: usize) -> Cmd {
        let i = if below(4) > 0 && !s.docs[c].is_empty() { *s.docs[c].keys().nth(below(s.docs[c].len())).unwrap() } else { self.any_id() };
        match below(9) {
            0 => Cmd::Insert(None, Item::random()),
            1 | 2 => Cmd::Insert(Some(self.any_id()), Item::random()),
            3 | 4 => Cmd::Update(i, self.revision(s, c, i), self.item(c, i)),
            5 | 6 => Cmd::Overwrite(i, self.item(c, i)),
            7 => Cmd::Delete(i, self.revision(s, c, i)),
            _ => Cmd::Check(i, if below(2) == 0 { Some(self.revision(s, c, i)) } else { None }),
        }
    }
    fn operation(c: usize, cmd: &Cmd) -> Operation {
        let n = name(c);
        match cmd {
            Cmd::Insert(i, x) => Operation::insert(n, i.map(id), bytes(x)),
            Cmd::Update(i, r, x) => Operation::update(n, header(*i, *r), bytes(x)),
            Cmd::Overwrite(i, x) => Operation::overwrite(n, id(*i), bytes(x)),
            Cmd::Delete(i, r) => Operation::delete(n, header(*i, *r)),
            Cmd::Check(i, None) => Operation::check_document_id_exists(n, id(*i)),
            Cmd::Check(i, Some(r)) => if c == 0 { Operation::check_document_is_current::<Plain, _>(&header(*i, *r)).unwrap() } else { Operation::check_document_is_current::<Viewed, _>(&header(*i, *r)).unwrap() },
        }
    }

    // --- changes ---------------------------------------------------------
    /// Runs the operations as one transaction.
    pub fn transaction(&mut self) {
        let mut ops = vec![];
        let mut ahead = self.state.clone();
        for _ in 0..1 + below(5) {
            let c = below(2);
            let cmd = self.command(&ahead, c);
            // Most of the time later operations meet the state the earlier ones leave behind.
            let mut next = ahead.clone();
            let ok = next.step(c, &cmd).is_ok();
            if ok { ahead = next; } else if below(3) > 0 { continue; }
            ops.push((c, cmd));
        }
        if ops.is_empty() { return; }
        self.run(ops);
    }
    pub fn run(&mut self, ops: Vec<(usize, Cmd)>) {
        let mut t = Transaction::new();
        for (c, cmd) in &ops { t.push(Self::operation(*c, cmd)); }
        let r = if below(2) == 0 { t.apply(&self.db) } else { wait(t.apply_async(&self.adb)) };
        self.outcome(&ops, r);
    }
    /// The transaction's outcome is what the specification says: everything or nothing.
    fn outcome(&mut self, ops: &[(usize, Cmd)], r: Result<Vec<OperationResult>, Error>) {
        let mut next = self.state.clone();
        let mut done = vec![];
        let mut fail = None;
        for (c, cmd) in ops {
            match next.step(*c, cmd) { Ok(d) => done.push((*c, d)), Err(f) => { fail = Some(f); break; } }
        }
        match (r, fail) {
            (Err(e), Some(f)) => failed(&e, &f),
            (Ok(results), None) => {
                assert!(results.len() == done.len(), "one result per operation");
                for (r, (c, d)) in results.iter().zip(&done) {
                    let same = match (r, d) {
                        (OperationResult::Success, Done::Checked) => true,
                        (OperationResult::DocumentUpdated { collection, header: h }, Done::Updated(i, r)) => *collection == name(*c) && *h == header(*i, *r),
                        (OperationResult::DocumentDeleted { collection, id: d }, Done::Deleted(i)) => *collection == name(*c) && *d == id(*i),
                        _ => false,
                    };
                    assert!(same, "result {r:?}, expected {d:?}");
                }
                self.committed(next, done.iter().filter_map(|(c, d)| match d { Done::Updated(i, _) => Some((*c, *i, false)), Done::Deleted(i) => Some((*c, *i, true)), Done::Checked => None }).collect());
            }
            (Ok(r), Some(f)) => panic!("{ops:?} succeeded with {r:?} instead of failing with {f:?}"),
            (Err(e), None) => panic!("{ops:?} failed with {e:?} instead of {done:?}"),
        }
    }
    pub fn committed(&mut self, next: State, changes: Vec<(usize, u64, bool)>) {
        self.state = next;
        for s in &mut self.since { s.push(self.state.docs[1].clone()); if s.len() > 40 { s.remove(1); } }
        // Updating views takes transaction ids, too.
        let new = self.db.list_executed_transactions(Some(self.log.last().map_or(0, |l| l.id + 1)), None).unwrap();
        // Operations without any change may log a transaction without changes.
        let new: Vec<_> = new.iter().map(read).collect();
        let changing: Vec<_> = new.iter().filter(|l| !l.changes.is_empty()).map(|l| l.changes.clone()).collect();
        let want: Vec<_> = Some(changes).filter(|c| !c.is_empty()).into_iter().collect();
        assert!(changing == want, "logged {changing:?}, expected {want:?}");
        self.log.extend(new);
    }
    /// One operation through the typed interface.
    pub fn single(&mut self) {
        if below(2) == 0 { self.single_on::<Plain>(0) } else { self.single_on::<Viewed>(1) }
    }
    fn single_on<C: SerializedCollection<PrimaryKey = u64, Contents = Item> + Unpin + 'static>(&mut self, c: usize) {
        let a = below(2) == 0;
        let (db, adb) = (self.db.clone(), self.adb.clone());
        let i = self.some_id(c);
        let x = self.item(c, i);
        let updated = |h: &CollectionHeader<u64>| OperationResult::DocumentUpdated { collection: name(c), header: header(h.id, h.revision) };
        let (cmd, r) = match below(9) {
            0 => (Cmd::Insert(C::natural_id(&x), x.clone()), if a { wait(adb.collection::<C>().push(&x)) } else { db.collection::<C>().push(&x) }.map(|h| updated(&h))),
            1 => {
                let r = match below(3) {
                    0 if !a => C::insert(&i, x.clone(), &db).map_err(|e| { assert!(e.contents == x, "contents handed back"); e.error }).map(|d| { assert!(d.contents == x); d.header }),
                    0 => wait(C::insert_async(&i, x.clone(), &adb)).map_err(|e| e.error).map(|d| d.header),
                    _ => if a { wait(adb.collection::<C>().insert(&i, &x)) } else { db.collection::<C>().insert(&i, &x) },
                };
                (Cmd::Insert(Some(i), x), r.map(|h| updated(&h)))
            }
            2 => (Cmd::Insert(None, x.clone()), if a { wait(adb.collection::<C>().push_bytes(bytes(&x))) } else { db.collection::<C>().push_bytes(bytes(&x)) }.map(|h| updated(&h))),
            3 => {
                let r = self.revision(&self.state, c, i);
                let mut d = OwnedDocument { header: header(i, r), contents: bytes(&x).into() };
                let out = if a { wait(adb.collection::<C>().update::<OwnedDocument>(&mut d)) } else { db.collection::<C>().update(&mut d) };
                let h = d.header.clone();
                if out.is_err() { assert!(h == header(i, r), "header kept when the update fails"); }
                (Cmd::Update(i, r, x), out.map(|()| OperationResult::DocumentUpdated { collection: name(c), header: h }))
            }
            4 => {
                let r = self.revision(&self.state, c, i);
                let mut d = CollectionDocument::<C> { header: CollectionHeader { id: i, revision: r }, contents: x.clone() };
                let out = if a { wait(d.update_async(&adb)) } else { d.update(&db) };
                (Cmd::Update(i, r, x), out.map(|()| updated(&d.header)))
            }
            5 => {
                let out = if a { wait(C::overwrite_async(&i, x.clone(), &adb)).map(|d| d.header).map_err(|e| e.error) } else { C::overwrite(&i, x.clone(), &db).map(|d| d.header).map_err(|e| e.error) };
                (Cmd::Overwrite(i, x), out.map(|h| updated(&h)))
            }
            6 => {
                let r = self.revision(&self.state, c, i);
                let out = match below(2) {
                    0 => { let d = CollectionDocument::<C> { header: CollectionHeader { id: i, revision: r }, contents: x }; if a { wait(d.delete_async(&adb)) } else { d.delete(&db) } }
                    _ => { let h = header(i, r); if a { wait(adb.collection::<C>().delete(&h)) } else { db.collection::<C>().delete(&h) } }
                };
                (Cmd::Delete(i, r), out.map(|()| OperationResult::DocumentDeleted { collection: name(c), id: id(i) }))
            }
            7 => {
                // modify, possibly starting from an outdated document
                let Some((now, _)) = self.state.docs[c].get(&i).cloned() else { return };
                let r = self.revision(&self.state, c, i);
                let mut d = CollectionDocument::<C> { header: CollectionHeader { id: i, revision: r }, contents: x.clone() };
                let before = self.state.docs[c][&i].1.clone();
                let out = if a { wait(d.modify_async(&adb, |d| { d.contents.emits.push((9, 9)); d.contents.emits.len() })) } else { d.modify(&db, |d| { d.contents.emits.push((9, 9)); d.contents.emits.len() }) };
                let mut want = if r == now { x } else { before };
                want.emits.push((9, 9));
                if let Ok(n) = &out { assert!(*n == want.emits.len() && d.contents == want, "contents after modify"); }
                (Cmd::Update(i, now, want), out.map(|_| updated(&d.header)))
            }
            _ => {
                let mut d = OwnedDocument { header: header(i, Revision::new(b"")), contents: bytes(&x).into() };
                let out = if a { wait(adb.collection::<C>().overwrite(&mut d)) } else { db.collection::<C>().overwrite(&mut d) };
                (Cmd::Overwrite(i, x), out.map(|()| OperationResult::DocumentUpdated { collection: name(c), header: d.header.clone() }))
            }
        };
        self.outcome(&[(c, cmd)], r.map(|r| vec![r]));
    }

    // --- reads -----------------------------------------------------------
    pub fn read(&mut self) {
        if below(2) == 0 { self.read_on::<Plain>(0) } else { self.read_on::<Viewed>(1) }
    }
    fn read_on<C: SerializedCollection<PrimaryKey = u64, Contents = Item> + Unpin + 'static>(&mut self, c: usize) {
        let (db, adb, docs) = (&self.db, &self.adb, &self.state.docs[c]);
        let a = below(2) == 0;
        let i = self.some_id(c);
        let (col, acol) = (db.collection::<C>(), adb.collection::<C>());
        let doc = |d: &OwnedDocument| { let i = u64::from_be_bytes(d.header.id.as_ref().try_into().unwrap()); (i, (d.header.revision, Plain::deserialize(&d.contents).unwrap())) };
        let cdoc = |d: &CollectionDocument<C>| (d.header.id, (d.header.revision, d.contents.clone()));
        match below(8) {
            0 => {
                let want = docs.get(&i).cloned().map(|d| (i, d));
                let got = if a { wait(adb.collection::<C>().get(&i)) } else { db.collection::<C>().get(&i) }.unwrap();
                assert!(got.as_ref().map(doc) == want, "get of {i}");
                let got = if a { wait(C::get_async(&i, adb)) } else { C::get(&i, db) }.unwrap();
                assert!(got.as_ref().map(cdoc) == want, "typed get of {i}");
            }
            1 => {
                let ids: Vec<u64> = (0..below(7)).map(|_| self.some_id(c)).collect();
                let want: BTreeMap<_, _> = ids.iter().filter_map(|i| docs.get(i).map(|d| (*i, d.clone()))).collect();
                let got: Vec<_> = match below(2) {
                    0 => if a { wait(adb.collection::<C>().get_multiple(&ids)) } else { db.collection::<C>().get_multiple(&ids) }.unwrap().iter().map(doc).collect(),
                    _ => if a { wait(C::get_multiple_async(&ids, adb)) } else { C::get_multiple(&ids, db) }.unwrap().iter().map(cdoc).collect(),
                };
                assert!(got.len() <= ids.len() && got.into_iter().collect::<BTreeMap<_, _>>() == want, "documents {ids:?}");
            }
            2 => {
                let n = if a { wait(adb.collection::<C>().all().count()) } else { db.collection::<C>().all().count() }.unwrap();
                assert!(n == docs.len() as u64, "{n} documents, expected {}", docs.len());
            }
            _ => {
                let range = bounds(|| self.any_id());
                let descending = below(2) == 0;
                let limit = if below(2) == 0 { Some(below(6) as u32) } else { None };
                let inside: Vec<_> = docs.iter().filter(|(i, _)| contains(&range, i)).map(|(i, d)| (*i, d.clone())).collect();
                let n = if a { wait(adb.collection::<C>().list(RangeRef::owned(range.clone())).count()) } else { db.collection::<C>().list(refs(&range)).count() }.unwrap();
                assert!(n == inside.len() as u64, "{n} documents in {range:?}, expected {}", inside.len());
                let mut want = inside;
                if descending { want.reverse(); }
                if let Some(l) = limit { want.truncate(l as usize); }
                macro_rules! list { ($db:expr, $r:expr) => {{ let mut l = $db.list($r); if descending { l = l.descending(); } else if below(2) == 0 { l = l.ascending(); } if let Some(n) = limit { l = l.limit(n); } l }} }
                macro_rules! typed { ($f:ident, $db:expr) => {{ let mut l = C::$f(RangeRef::owned(range.clone()), $db); if descending { l = l.descending(); } else if below(2) == 0 { l = l.ascending(); } if let Some(n) = limit { l = l.limit(n); } l }} }
                match below(3) {
                    0 => {
                        let got: Vec<_> = if a { wait(list!(acol, RangeRef::owned(range.clone())).headers()) } else { list!(col, refs(&range)).headers() }.unwrap().into_iter().map(|h| (u64::from_be_bytes(h.id.as_ref().try_into().unwrap()), h.revision)).collect();
                        assert!(got == want.iter().map(|(i, d)| (*i, d.0)).collect::<Vec<_>>(), "headers in {range:?}");
                    }
                    1 => {
                        let got: Vec<_> = if a { wait(async { list!(acol, RangeRef::owned(range.clone())).await }) } else { list!(col, refs(&range)).query() }.unwrap().iter().map(doc).collect();
                        assert!(got == want, "documents in {range:?}");
                    }
                    _ => {
                        let got: Vec<_> = if a { wait(async { typed!(list_async, adb).await }) } else { typed!(list, db).query() }.unwrap().iter().map(cdoc).collect();
                        assert!(got == want, "typed documents in {range:?}");
                    }
                }
            }
        }
    }
    /// The collections hold exactly the documents of the model.
    pub fn holds(&self) {
        for c in 0..2 {
            let got = self.db.list_from_collection(Range::from(..), Sort::Ascending, None, &name(c)).unwrap();
            let got: Vec<_> = got.iter().map(|d| (u64::from_be_bytes(d.header.id.as_ref().try_into().unwrap()), (d.header.revision, Plain::deserialize(&d.contents).unwrap()))).collect();
            assert!(got == self.state.docs[c].clone().into_iter().collect::<Vec<_>>(), "documents of {:?}: {:?}, expected {:?}", NAMES[c], got.iter().map(|x| x.0).collect::<Vec<_>>(), self.state.docs[c].keys().collect::<Vec<_>>());
        }
    }
    /// The transaction log is exactly the committed transactions.
    pub fn logged(&self) {
        let a = below(2) == 0;
        let start = match below(3) { 0 => None, 1 => Some(self.log.last().map_or(0, |l| l.id).saturating_sub(below(5) as u64)), _ => Some(self.log.get(below(self.log.len().max(1))).map_or(1, |l| l.id + below(2) as u64)) };
        let limit = match below(4) { 0 => None, 1 => Some(0), 2 => Some(u32::MAX), _ => Some(below(8) as u32) };
        let got = if a { wait(AsyncConnection::list_executed_transactions(&self.adb, start, limit)) } else { self.db.list_executed_transactions(start, limit) }.unwrap();
        let want: Vec<_> = self.log.iter().filter(|l| start.map_or(true, |s| l.id >= s)).take(limit.unwrap_or(1000).min(100_000) as usize).cloned().collect();
        let got: Vec<_> = got.iter().map(read).collect();
        assert!(got == want, "transactions from {start:?}, limit {limit:?}: {got:?}, expected {want:?}");
        let last = if a { wait(AsyncConnection::last_transaction_id(&self.adb)) } else { self.db.last_transaction_id() }.unwrap();
        assert!(last >= self.log.last().map(|l| l.id), "last transaction {last:?}");
    }
}
fn read(e: &bonsaidb_core::transaction::Executed) -> Logged {
    Logged { id: e.id, changes: e.changes.documents().expect("documents changed").iter().map(|(n, d)| ((0..2).find(|c| name(*c) == *n).unwrap(), u64::from_be_bytes(d.id.as_ref().try_into().unwrap()), d.deleted)).collect() }
}
/// Any range over the drawn keys.
pub fn bounds<K>(mut key: impl FnMut() -> K) -> Range<K> {
    let mut one = || match below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(key()), _ => Bound::Excluded(key()) };
    let start = one();
    let end = one();
    Range { start, end }
}
pub fn contains<K: Ord>(r: &Range<K>, k: &K) -> bool {
    (match &r.start { Bound::Unbounded => true, Bound::Included(s) => k >= s, Bound::Excluded(s) => k > s })
        && (match &r.end { Bound::Unbounded => true, Bound::Included(e) => k <= e, Bound::Excluded(e) => k < e })
}
pub fn refs<K>(r: &Range<K>) -> Range<&K> {
    Range {
        start: match &r.start { Bound::Unbounded => Bound::Unbounded, Bound::Included(k) => Bound::Included(k), Bound::Excluded(k) => Bound::Excluded(k) },
        end: match &r.end { Bound::Unbounded => Bound::Unbounded, Bound::Included(k) => Bound::Included(k), Bound::Excluded(k) => Bound::Excluded(k) },
    }
}

/// Clients changing the same documents at once, each from the revision it
/// read: every change that succeeded is kept, and every other is reported as a
/// conflict and leaves nothing behind. Returns the ids logged for them.
pub fn contend(disk: bool) {
    const CLIENTS: u32 = 4;
    const ROUNDS: u32 = 12;
    let w = World::new(disk);
    let start = [Item { emits: vec![(1, 0)], ..Item::default() }, Item::default()];
    for c in 0..2 { w.db.apply_transaction({ let mut t = Transaction::new(); t.push(Operation::insert(name(c), Some(id(1)), bytes(&start[c]))); t }).unwrap(); }
    let read = |db: &Database, c: usize| { let d = db.get_from_collection(id(1), &name(c)).unwrap().unwrap(); (d.header.clone(), Plain::deserialize(&d.contents).unwrap()) };
    let done: Vec<Vec<(u32, u64)>> = std::thread::scope(|s| {
        let each: Vec<_> = (0..CLIENTS).map(|client| {
            let db = w.db.clone();
            s.spawn(move || {
                let mut mine = Vec::new();
                for round in 0..ROUNDS {
                    loop {
                        let (a, mut x) = read(&db, 0);
                        let (b, mut y) = read(&db, 1);
                        x.emits.push((client as u8, round));
                        y.emits.push((client as u8, round));
                        let mut t = Transaction::new();
                        t.push(Operation::update(name(0), a, bytes(&x)));
                        t.push(Operation::insert(name(0), None, bytes(&Item::default())));
                        t.push(Operation::update(name(1), b, bytes(&y)));
                        match db.apply_transaction(t) {
                            Ok(r) => { assert!(r.len() == 3, "results"); mine.push((round, match &r[1] { OperationResult::DocumentUpdated { header, .. } => u64::from_be_bytes(header.id.as_ref().try_into().unwrap()), o => panic!("{o:?}") })); break }
                            Err(Error::DocumentConflict(..)) => {}
                            Err(e) => panic!("{e:?}"),
                        }
                    }
                }
                mine
            })
        }).collect();
        each.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let total = (CLIENTS * ROUNDS) as usize;
    for c in 0..2 {
        let (h, x) = read(&w.db, c);
        let got: BTreeSet<_> = x.emits.iter().skip(start[c].emits.len()).copied().collect();
        assert!(x.emits.len() == total + start[c].emits.len() && got.len() == total, "changes kept: {} of {total}", got.len());
        assert!(h.revision.id as usize == total, "revision {}", h.revision.id);
    }
    let made: BTreeSet<u64> = done.iter().flatten().map(|d| d.1).collect();
    assert!(made.len() == total && made.iter().copied().eq(2..2 + total as u64), "documents inserted: {made:?}");
    let log = w.db.list_executed_transactions(None, None).unwrap();
    assert!(log.len() == total + 2 && log.windows(2).all(|p| p[0].id < p[1].id), "{} transactions logged", log.len());
    let logged: Vec<u64> = log[2..].iter().map(|e| { let c: Vec<_> = e.changes.documents().unwrap().iter().collect(); assert!(c.len() == 3 && c.iter().all(|c| !c.1.deleted), "logged changes"); u64::from_be_bytes(c[1].1.id.as_ref().try_into().unwrap()) }).collect();
    assert!(logged.iter().copied().eq(2..2 + total as u64), "logged in commit order: {logged:?}");
}
