//! View queries on a real database, compared with mapping every document
//! (native only).
use crate::docs::*;
use bonsaidb_core::connection::{AccessPolicy, AsyncConnection, Bound, Connection, HasSession, Range, RangeRef, Sort};
use bonsaidb_core::document::*;
use bonsaidb_core::key::Key;
use bonsaidb_core::schema::view::map::MappedValue;
use bonsaidb_core::schema::view::map;
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::schema::*;
use bonsaidb_core::Error;
use bonsaidb_local::{AsyncDatabase, Database};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use sym::*;

pub const UNIQUE: &str = "vk.viewed.unique";
const WORDS: [&str; 8] = ["", "a", "aa", "ab", "b", "b\0", "\u{10ffff}", "\u{10ffff}z"];

/// A view and the mappings it is specified to emit.
pub trait Spec: SerializedView<Collection = Viewed, Value = u64> + Debug where Self::Key: Ord + Clone + Debug + for<'k> Key<'k> {
    const INDEX: Option<usize>;
    const REDUCES: bool;
    fn emits(item: &Item) -> BTreeMap<Self::Key, u64>;
    fn key() -> Self::Key;
}
macro_rules! view { ($t:ident $name:literal $policy:ident $key:ty, $index:expr, $reduces:literal, $version:expr, |$item:ident| $emits:expr, $any:expr) => {
    #[derive(Debug, Clone)]
    pub struct $t;
    impl View for $t { type Collection = Viewed; type Key = $key; type Value = u64; fn name(&self) -> Name { Name::new($name) } }
    impl DefaultViewSerialization for $t {}
    impl ViewSchema for $t { type View = Self; type MappedKey<'doc> = $key; fn update_policy(&self) -> ViewUpdatePolicy { ViewUpdatePolicy::$policy } fn version(&self) -> u64 { $version } }
    impl MapReduce for $t {
        fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
            let item = Viewed::document_contents(document)?;
            let mut out = map::Mappings::default();
            for (k, v) in Self::emits(&item) { out.push(map::Map::new(document.header.clone(), k, v)); }
            Ok(out)
        }
        fn reduce(&self, mappings: &[MappedValue<$key, u64>], rereduce: bool) -> Result<u64, Error> {
            if !$reduces { return Err(Error::ReduceUnimplemented); }
            // How often a key was reduced is visible in the upper half.
            Ok(mappings.iter().map(|m| m.value).sum::<u64>() + if rereduce { 0 } else { 1 << 40 })
        }
    }
    impl Spec for $t {
        const INDEX: Option<usize> = $index;
        const REDUCES: bool = $reduces;
        fn emits($item: &Item) -> BTreeMap<$key, u64> { $emits }
        fn key() -> $key { $any }
    }
} }
view! { Lazy "lazy" Lazy String, Some(0), true, 0, |i| i.emits.iter().map(|(k, v)| (WORDS[*k as usize % 8].to_string(), u64::from(*v))).collect(), WORDS[below(8)].to_string() }
view! { Sizes "sizes" Lazy u32, Some(1), false, 7, |i| std::iter::once((i.emits.len() as u32, i.note.len() as u64)).collect(), below(5) as u32 }
view! { Eager "eager" Eager i8, None, true, 3, |i| i.emits.iter().map(|(k, v)| (*k as i8 % 5, u64::from(*v))).collect(), below(6) as i8 }
view! { Unique "unique" Unique u8, None, false, 0, |i| i.unique.iter().map(|u| (*u, 1)).collect(), below(7) as u8 }

pub fn define(s: &mut Schematic) -> Result<(), Error> {
    s.define_view(Lazy)?;
    s.define_view(Sizes)?;
    s.define_view(Eager)?;
    s.define_view(Unique)
}

#[derive(Debug)]
enum Sel<K> { All, One(K), Many(Vec<K>), Within(Range<K>) }
impl<K: Ord> Sel<K> {
    fn has(&self, k: &K) -> bool {
        match self { Sel::All => true, Sel::One(x) => x == k, Sel::Many(l) => l.contains(k), Sel::Within(r) => contains(r, k) }
    }
}
macro_rules! select { ($db:expr, $sel:expr, $sort:expr, $limit:expr, $policy:expr) => {{
    let mut v = $db.view::<V>().with_access_policy($policy);
    if let Some(s) = $sort { v = if matches!(s, Sort::Ascending) { v.ascending() } else { v.descending() }; }
    if let Some(l) = $limit { v = v.limit(l); }
    match $sel {
        Sel::All => v,
        Sel::One(k) => v.with_key(k),
        Sel::Many(l) => v.with_keys(l.iter()),
        Sel::Within(r) => v.with_key_range(RangeRef::owned(r.clone())),
    }
}} }

impl World {
    /// Another client querying the views, bringing them up to date.
    pub fn client(&self, which: usize, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> std::thread::JoinHandle<()> {
        let db = self.db.clone();
        std::thread::spawn(move || while !stop.load(std::sync::atomic::Ordering::SeqCst) {
            match which {
                0 => drop(db.view::<Lazy>().with_access_policy(AccessPolicy::UpdateAfter).limit(1).query().unwrap()),
                1 => drop(db.view::<Lazy>().limit(1).query().unwrap()),
                _ => drop(db.view::<Sizes>().with_access_policy(AccessPolicy::UpdateAfter).limit(1).query().unwrap()),
            }
        })
    }
    /// Query with the default policy while other clients do.
    pub fn query_now(&mut self) {
        self.now = true;
        self.query();
        self.now = false;
    }
    pub fn query(&mut self) {
        match below(5) { 0 | 1 => self.query_on::<Lazy>(), 2 => self.query_on::<Sizes>(), 3 => self.query_on::<Eager>(), _ => self.query_on::<Unique>() }
    }
    fn current<V: Spec>(&self, sel: &Sel<V::Key>) -> Vec<(V::Key, u64, u64)> where V::Key: Ord + Clone + Debug {
        let mut all: Vec<_> = self.state.docs[1].iter().flat_map(|(i, (_, x))| V::emits(x).into_iter().map(|(k, v)| (k, *i, v))).filter(|(k, ..)| sel.has(k)).collect();
        all.sort();
        all
    }
    fn query_on<V: Spec>(&mut self) where V::Key: Ord + Clone + Debug + PartialEq {
        let sel = match below(6) { 0 => Sel::All, 1 | 2 => Sel::One(V::key()), 3 => Sel::Many((0..below(5)).map(|_| V::key()).collect()), _ => Sel::Within(bounds(V::key)) };
        let sort = match below(3) { 0 => None, 1 => Some(Sort::Ascending), _ => Some(Sort::Descending) };
        let a = below(2) == 0;
        let (db, adb) = (self.db.clone(), self.adb.clone());
        let policy = match below(6) { 0 => AccessPolicy::NoUpdate, 1 => AccessPolicy::UpdateAfter, _ => AccessPolicy::UpdateBefore };
        if !self.now && !matches!(policy, AccessPolicy::UpdateBefore) && V::INDEX.is_some() {
            // Every document is mapped as of some state since the view was last brought up to date.
            let got = if a { wait(select!(adb, &sel, sort, None, policy).query()) } else { select!(db, &sel, sort, None, policy).query() }.unwrap();
            let states = &self.since[V::INDEX.unwrap()];
            let mut by_doc: BTreeMap<u64, BTreeSet<(V::Key, u64)>> = BTreeMap::new();
            for m in got.iter() { assert!(by_doc.entry(m.source.id).or_default().insert((m.key.clone(), m.value)), "mapping twice"); }
            let ids: BTreeSet<u64> = by_doc.keys().copied().chain(states.iter().flat_map(|s| s.keys().copied())).collect();
            for i in ids {
                let have = by_doc.remove(&i).unwrap_or_default();
                let any = states.iter().any(|s| s.get(&i).map_or(have.is_empty(), |(_, x)| V::emits(x).into_iter().filter(|(k, _)| sel.has(k)).collect::<BTreeSet<_>>() == have));
                assert!(any, "{:?} {sel:?} without updating: document {i} mapped as {have:?}", V::name_of());
            }
            return;
        }
        let policy = if V::INDEX.is_some() { AccessPolicy::UpdateBefore } else { policy };
        let limit = if below(2) == 0 { Some(below(6) as u32) } else { None };
        let want = self.current::<V>(&sel);
        let check = |got: Vec<(V::Key, u64, Revision, u64)>| {
            let n = limit.map_or(want.len(), |l| want.len().min(l as usize));
            let mut keys: Vec<_> = want.iter().map(|w| w.0.clone()).collect();
            if matches!(sort, Some(Sort::Descending)) { keys.reverse(); }
            keys.truncate(n);
            let shown = || format!("{} {sel:?} sort {sort:?} limit {limit:?}: {got:?}, expected {want:?}", V::name_of());
            assert!(got.iter().map(|g| g.0.clone()).collect::<Vec<_>>() == keys, "keys of {}", shown());
            let have: BTreeSet<_> = got.iter().map(|(k, i, _, v)| (k.clone(), *i, *v)).collect();
            assert!(have.len() == got.len() && have.iter().all(|h| want.contains(h)), "mappings of {}", shown());
            for (_, i, r, _) in &got { assert!(self.state.docs[1][i].0 == *r, "source revision of {}", shown()); }
        };
        macro_rules! mappings { ($m:expr) => { $m.iter().map(|m| (m.key.clone(), m.source.id, m.source.revision, m.value)).collect::<Vec<_>>() } }
        match below(8) {
            0 | 1 => {
                let got = if a { wait(select!(adb, &sel, sort, limit, policy).query()) } else { select!(db, &sel, sort, limit, policy).query() }.unwrap();
                check(mappings!(got));
            }
            2 => {
                let got = if a { wait(select!(adb, &sel, sort, limit, policy).query_with_docs()) } else { select!(db, &sel, sort, limit, policy).query_with_docs() }.unwrap();
                check(mappings!(got.mappings));
                let ids: BTreeSet<u64> = got.mappings.iter().map(|m| m.source.id).collect();
                assert!(got.documents.keys().copied().collect::<BTreeSet<_>>() == ids, "documents of the mappings");
                for (i, d) in &got.documents { assert!(d.header == header(*i, self.state.docs[1][i].0) && d.contents[..] == bytes(&self.state.docs[1][i].1)[..], "document {i}"); }
                assert!(got.iter().count() == got.mappings.len() && got.iter().zip(&got.mappings).all(|(d, m)| d.document.header.id == id(m.source.id) && d.key == &m.key && d.value == &m.value), "mapped documents");
            }
            3 => {
                let got = if a { wait(select!(adb, &sel, sort, limit, policy).query_with_collection_docs()) } else { select!(db, &sel, sort, limit, policy).query_with_collection_docs() }.unwrap();
                check(mappings!(got.mappings));
                for (i, d) in &got.documents { assert!(d.header.id == *i && d.header.revision == self.state.docs[1][i].0 && d.contents == self.state.docs[1][i].1, "document {i}"); }
            }
            4 if V::REDUCES => {
                let got = if a { wait(select!(adb, &sel, sort, None::<u32>, policy).reduce()) } else { select!(db, &sel, sort, None::<u32>, policy).reduce() }.unwrap();
                let keys: BTreeSet<_> = want.iter().map(|w| &w.0).collect();
                assert!(got == want.iter().map(|w| w.2).sum::<u64>() + ((keys.len() as u64) << 40), "reduce of {} {sel:?}: {got:x}, expected {want:?}", V::name_of());
            }
            5 | 6 if V::REDUCES => {
                let got = if a { wait(select!(adb, &sel, sort, None::<u32>, policy).reduce_grouped()) } else { select!(db, &sel, sort, None::<u32>, policy).reduce_grouped() }.unwrap();
                let mut groups: BTreeMap<V::Key, u64> = BTreeMap::new();
                for w in &want { *groups.entry(w.0.clone()).or_insert(1 << 40) += w.2; }
                let got: Vec<_> = got.into_iter().map(|m| (m.key, m.value)).collect();
                assert!(got == groups.into_iter().collect::<Vec<_>>(), "groups of {} {sel:?}: {got:x?}, expected {want:?}", V::name_of());
            }
            7 if below(6) == 0 => {
                let got = if a { wait(select!(adb, &sel, sort, None::<u32>, policy).delete_docs()) } else { select!(db, &sel, sort, None::<u32>, policy).delete_docs() };
                let ids: BTreeSet<u64> = want.iter().map(|w| w.1).collect();
                match got { Ok(n) => assert!(n == ids.len() as u64, "deleted {n} documents, expected {}", ids.len()), Err(e) => panic!("delete_docs of {} {sel:?}: {e:?}", V::name_of()) }
                if let Some(x) = V::INDEX { self.since[x] = vec![self.state.docs[1].clone()]; }
                if !ids.is_empty() {
                    let mut next = self.state.clone();
                    for i in &ids { next.docs[1].remove(i); }
                    // The order of the deletions within the transaction is not specified.
                    let log = self.db.list_executed_transactions(Some(self.log.last().map_or(0, |l| l.id + 1)), None).unwrap();
                    let changes: Vec<_> = log[0].changes.documents().unwrap().iter().map(|(_, d)| (1, u64::from_be_bytes(d.id.as_ref().try_into().unwrap()), d.deleted)).collect();
                    assert!(log.len() == 1 && changes.len() == ids.len() && changes.iter().all(|c| c.2 && ids.contains(&c.1)), "logged deletions");
                    self.committed(next, changes);
                } else {
                    let same = self.state.clone();
                    self.committed(same, Vec::new());
                }
                return;
            }
            _ => return,
        }
        if let Some(x) = V::INDEX { self.since[x] = vec![self.state.docs[1].clone()]; }
    }
    /// Keys of the string view with a prefix.
    pub fn prefix(&mut self) {
        let p = ["", "a", "b", "\u{10ffff}", "aa"][below(5)];
        let got: Vec<_> = if below(2) == 0 { wait(self.adb.view::<Lazy>().with_key_prefix(p).query()) } else { self.db.view::<Lazy>().with_key_prefix(p).query() }.unwrap().iter().map(|m| (m.key.clone(), m.source.id, m.value)).collect();
        let mut got = got;
        got.sort();
        let want: Vec<_> = self.current::<Lazy>(&Sel::All).into_iter().filter(|w| w.0.starts_with(p)).collect();
        assert!(got == want, "keys starting with {p:?}: {got:?}, expected {want:?}");
        self.since[0] = vec![self.state.docs[1].clone()];
    }
}
trait Named { fn name_of() -> String; }
impl<V: Debug + View> Named for V { fn name_of() -> String { std::any::type_name::<V>().to_string() } }
