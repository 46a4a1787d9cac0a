//! Random histories of file operations on a real database, compared with a
//! byte-string model (native only).
use crate::scratch::Scratch;
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::schema::{CollectionName, Qualified, Schema, SchemaName, Schematic};
use bonsaidb_files::direct::{Async, Blocking, Contents, File};
use bonsaidb_files::{Error, FileConfig, FilesSchema, Truncate};
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{AsyncDatabase, Database};
use futures::StreamExt;
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::OnceLock;
use sym::*;
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};

use crate::c19::Small;

/// One block is larger than the default append buffer.
pub struct Large;
impl FileConfig for Large {
    type Metadata = u32;
    const BLOCK_SIZE: usize = 1_500_000;
    fn files_name() -> CollectionName { CollectionName::new("large", "files") }
    fn blocks_name() -> CollectionName { CollectionName::new("large", "blocks") }
}

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
pub fn wait<F: std::future::Future>(f: F) -> F::Output { runtime().block_on(f) }

#[derive(Clone, Debug)]
struct Entry { path: &'static str, name: String, data: Vec<u8>, metadata: u32, created: TimestampAsNanoseconds, appended: Option<TimestampAsNanoseconds> }

pub const PATHS: [&str; 8] = ["/a path name that is longer than the smallest letter's code is/", "/", "/a/", "/a/b/", "/ab/", "/a0/", "/b/", "/a/\u{10ffff}/"];
const NAMES: [&str; 7] = ["0", "x", "a", "b", "ab", "\u{10ffff}", "x.txt"];
fn path() -> &'static str { PATHS[below(PATHS.len())] }
fn name() -> String { NAMES[below(NAMES.len())].to_string() }

pub struct Files<C: FileConfig<Metadata = u32>> { db: Database, adb: AsyncDatabase, model: BTreeMap<u32, Entry>, marker: std::marker::PhantomData<C>, _dir: Scratch }
impl<C: FileConfig<Metadata = u32>> Files<C> {
    pub fn new() -> Self {
        let dir = Scratch::new("files");
        let db = Database::open::<FilesSchema<C>>(StorageConfiguration::new(dir.path().join("db")).memory_only()).unwrap();
        let adb = db.to_async_with_runtime(runtime().handle().clone());
        Files { db, adb, model: BTreeMap::new(), marker: std::marker::PhantomData, _dir: dir }
    }
    fn at(&self, path: &str, name: &str) -> Option<u32> { self.model.iter().find(|(_, e)| e.path == path && e.name == name).map(|(i, _)| *i) }
    fn pick(&self) -> Option<u32> { if self.model.is_empty() { None } else { self.model.keys().nth(below(self.model.len())).copied() } }
    fn file(&self, id: u32) -> File<Blocking<Database>, C> { C::get(id, &self.db).unwrap().expect("file exists") }
    fn afile(&self, id: u32) -> File<Async<AsyncDatabase>, C> { wait(C::get_async(id, &self.adb)).unwrap().expect("file exists") }
    fn same(&self, id: u32, path: &str, name: &str, metadata: u32, created: TimestampAsNanoseconds, found: u32, full: &str) {
        let e = &self.model[&id];
        assert!(found == id && path == e.path && name == e.name && metadata == e.metadata && created == e.created, "file {id} is {path}{name}, metadata {metadata}");
        assert!(full == format!("{}{}", e.path, e.name), "full path {full}");
    }
    fn matches(&self, id: u32, f: &File<Blocking<Database>, C>) { self.same(id, f.containing_path(), f.name(), *f.metadata(), f.created_at(), f.id(), &f.path()) }
    fn amatches(&self, id: u32, f: &File<Async<AsyncDatabase>, C>) { self.same(id, f.containing_path(), f.name(), *f.metadata(), f.created_at(), f.id(), &f.path()) }

    pub fn create(&mut self) {
        let (path, name, metadata) = (path(), name(), any::<u32>());
        let data = noise(below(3) * below(30));
        let exists = self.at(path, &name);
        let full = format!("{path}{name}");
        let before = TimestampAsNanoseconds::now();
        let built = match below(4) {
            0 => C::build_with_metadata(&full, metadata).contents(&data),
            1 => C::build_with_metadata(format!("{full}/"), metadata).contents(&data),
            2 => C::build(&name).at_path(path).contents(&data).metadata(metadata),
            _ => C::build(&name).at_path(if path.len() > 1 { &path[..path.len() - 1] } else { path }).contents(&data).metadata(metadata),
        };
        let r = if below(2) == 0 {
            built.create(&self.db).map(|f| (f.id(), f.created_at()))
        } else {
            wait(built.create_async(&self.adb)).map(|f| (f.id(), f.created_at()))
        };
        match (r, exists) {
            (Ok((id, created)), None) => {
                assert!(!self.model.contains_key(&id), "id reused");
                let appended = self.appended_now(id, &data, before);
                self.model.insert(id, Entry { path, name, data, metadata, created, appended });
            }
            (Err(Error::AlreadyExists), Some(_)) => {}
            (r, e) => panic!("creating {full}: {:?}, existing {e:?}", r.map(|x| x.0)),
        }
        let _ = TimestampAsNanoseconds::now();
    }
    /// The time the data just written is reported to have been written at.
    fn appended_now(&self, id: u32, data: &[u8], before: TimestampAsNanoseconds) -> Option<TimestampAsNanoseconds> {
        if data.is_empty() { return None; }
        let t = self.file(id).last_appended_at().unwrap().expect("written file has a time");
        assert!(t >= before && t <= TimestampAsNanoseconds::now(), "time of the last append");
        Some(t)
    }
    pub fn load_or_create(&mut self) {
        let (path, name) = (path(), name());
        let full = format!("{path}{name}");
        let expect = below(2) == 0;
        let metadata: u32 = any();
        let (id, created) = if below(2) == 0 {
            let f = C::load_or_create_with_metadata(&full, metadata, expect, &self.db).unwrap();
            (f.id(), f.created_at())
        } else {
            let f = wait(C::load_or_create_with_metadata_async(&full, metadata, expect, &self.adb)).unwrap();
            (f.id(), f.created_at())
        };
        match self.at(path, &name) {
            Some(e) => assert!(id == e, "loaded another file"),
            None => { self.model.insert(id, Entry { path, name, data: vec![], metadata, created, appended: None }); }
        }
    }
    pub fn lookup(&mut self) {
        let (path, name) = (path(), name());
        let full = format!("{path}{name}{}", if below(3) == 0 { "/" } else { "" });
        let want = self.at(path, &name);
        if below(2) == 0 {
            let f = C::load(&full, &self.db).unwrap();
            assert!(f.as_ref().map(|f| f.id()) == want, "load of {full}");
            if let Some(f) = f { self.matches(want.unwrap(), &f); }
        } else {
            let f = wait(C::load_async(&full, &self.adb)).unwrap();
            assert!(f.as_ref().map(|f| f.id()) == want, "load of {full}");
            if let Some(f) = f { self.amatches(want.unwrap(), &f); }
        }
    }
    pub fn append(&mut self) {
        let Some(id) = self.pick() else { return };
        let data = noise(if below(4) == 0 { 0 } else { 1 + below(40) });
        let before = TimestampAsNanoseconds::now();
        match below(4) {
            0 => self.file(id).append(&data).unwrap(),
            1 => wait(self.afile(id).append(&data)).unwrap(),
            2 => {
                let mut f = self.file(id);
                let mut w = f.append_buffered();
                if below(2) == 0 { w.set_buffer_size(1 + below(12)).unwrap(); }
                let mut rest = &data[..];
                while !rest.is_empty() {
                    let n = 1 + below(rest.len());
                    let k = w.write(&rest[..n]).unwrap();
                    assert!(k > 0 && k <= n, "bytes accepted by write");
                    rest = &rest[k..];
                    match below(5) { 0 => w.flush().unwrap(), 1 => w.set_buffer_size(1 + below(12)).unwrap(), _ => {} }
                }
                if below(2) == 0 { w.flush().unwrap(); }
            }
            _ => wait(async {
                let mut f = C::get_async(id, &self.adb).await.unwrap().unwrap();
                let mut w = f.append_buffered();
                if below(2) == 0 { w.set_buffer_size(1 + below(12)).await.unwrap(); }
                let mut rest = &data[..];
                while !rest.is_empty() {
                    let n = 1 + below(rest.len());
                    let k = w.write(&rest[..n]).await.unwrap();
                    assert!(k > 0 && k <= n, "bytes accepted by write");
                    rest = &rest[k..];
                    match below(5) { 0 => w.flush().await.unwrap(), 1 => w.set_buffer_size(1 + below(12)).await.unwrap(), _ => {} }
                }
                if below(2) == 0 { w.flush().await.unwrap() } else { w.shutdown().await.unwrap() }
            }),
        }
        if let Some(t) = self.appended_now(id, &data, before) {
            let e = self.model.get_mut(&id).unwrap();
            e.appended = Some(t);
            e.data.extend(data);
        }
    }
    pub fn truncate(&mut self) {
        let Some(id) = self.pick() else { return };
        let old = self.model[&id].data.clone();
        let to = below(old.len() + 12);
        let from = if below(2) == 0 { Truncate::RemovingStart } else { Truncate::RemovingEnd };
        if below(2) == 0 { self.file(id).truncate(to as u64, from).unwrap() } else { wait(self.afile(id).truncate(to as u64, from)).unwrap() }
        let mut f = self.file(id);
        let now = f.contents().unwrap().into_vec().unwrap();
        if to >= old.len() { assert!(now == old, "truncation to a larger size changed the file") } else {
            assert!(now.len() >= to && now.len() - to < C::BLOCK_SIZE && (to > 0 || now.is_empty()), "truncated {} to {to}, got {}", old.len(), now.len());
            if from == Truncate::RemovingStart { assert!(old.ends_with(&now), "truncation kept other bytes") } else { assert!(old.starts_with(&now), "truncation kept other bytes") }
        }
        let e = self.model.get_mut(&id).unwrap();
        let t = f.last_appended_at().unwrap();
        assert!(t.is_none() == now.is_empty() && t <= e.appended, "last append of a truncated file");
        if from == Truncate::RemovingStart && !now.is_empty() { assert!(t == e.appended, "last append changed by removing the start"); }
        e.appended = t;
        e.data = now;
    }
    pub fn delete(&mut self) {
        if below(2) == 0 {
            let (path, name) = (path(), name());
            let full = format!("{path}{name}");
            let want = self.at(path, &name);
            let r = if below(2) == 0 { C::delete(&full, &self.db).unwrap() } else { wait(C::delete_async(&full, &self.adb)).unwrap() };
            assert!(r == want.is_some(), "delete of {full}");
            if let Some(id) = want { self.model.remove(&id); }
        } else {
            let Some(id) = self.pick() else { return };
            if below(2) == 0 { self.file(id).delete().unwrap() } else { wait(self.afile(id).delete()).unwrap() }
            assert!(C::get(id, &self.db).unwrap().is_none(), "deleted file is still there");
            self.model.remove(&id);
        }
    }
    pub fn relocate(&mut self) {
        let Some(id) = self.pick() else { return };
        let e = self.model[&id].clone();
        let (mut path, mut name) = (path(), name());
        let asynch = below(2) == 0;
        let kind = below(5);
        let target = match kind {
            0 => { name = e.name.clone(); path.to_string() }
            1 => { path = e.path; name.clone() }
            2 => ["no-slash".to_string(), "a/b".to_string()][below(2)].clone(),
            3 => ["".to_string(), "a/b".to_string(), "/".to_string(), "/x".to_string()][below(4)].clone(),
            _ => format!("{path}{name}"),
        };
        let rename = kind == 1 || kind == 3;
        let r = if asynch {
            let mut f = self.afile(id);
            let r = if rename { wait(f.rename(target.clone())) } else { wait(f.move_to(&target)) };
            (r, f.containing_path().to_string(), f.name().to_string())
        } else {
            let mut f = self.file(id);
            let r = if rename { f.rename(target.clone()) } else { f.move_to(&target) };
            (r, f.containing_path().to_string(), f.name().to_string())
        };
        let conflict = self.at(path, &name).map_or(false, |x| x != id);
        match (kind, r.0) {
            (2, Err(Error::InvalidPath)) | (3, Err(Error::InvalidName)) => {}
            (0 | 1 | 4, Err(Error::AlreadyExists)) if conflict => {}
            (0 | 1 | 4, Ok(())) if !conflict => {
                assert!(r.1 == path && r.2 == name, "handle after moving to {target}: {}{}", r.1, r.2);
                let e = self.model.get_mut(&id).unwrap();
                (e.path, e.name) = (path, name);
                return;
            }
            (k, x) => panic!("moving {}{} to {target} ({k}): {x:?}, conflict {conflict}", e.path, e.name),
        }
        assert!(r.1 == e.path && r.2 == e.name, "failed move changed the handle");
    }
    pub fn metadata(&mut self) {
        let Some(id) = self.pick() else { return };
        let metadata: u32 = any();
        if below(2) == 0 {
            let mut f = self.file(id);
            *f.metadata_mut() = metadata;
            f.update_metadata().unwrap();
        } else {
            let mut f = self.afile(id);
            *f.metadata_mut() = metadata;
            wait(f.update_metadata()).unwrap();
        }
        self.model.get_mut(&id).unwrap().metadata = metadata;
    }
    pub fn lists(&mut self) {
        let p = path();
        let asynch = below(2) == 0;
        let short = if p.len() > 1 && below(2) == 0 { &p[..p.len() - 1] } else { p };
        let recursive = below(2) == 0;
        let mut want: Vec<u32> = self.model.iter().filter(|(_, e)| if recursive { e.path.starts_with(p) } else { e.path == p }).map(|(i, _)| *i).collect();
        let mut got: Vec<u32> = if asynch {
            let l = wait(async { if recursive { C::list_recursive_async(p, &self.adb).await } else { C::list_async(short, &self.adb).await } }).unwrap();
            for f in &l { if self.model.contains_key(&f.id()) { self.amatches(f.id(), f) } }
            l.iter().map(|f| f.id()).collect()
        } else {
            let l = if recursive { C::list_recursive(p, &self.db) } else { C::list(short, &self.db) }.unwrap();
            for f in &l { if self.model.contains_key(&f.id()) { self.matches(f.id(), f) } }
            l.iter().map(|f| f.id()).collect()
        };
        got.sort();
        want.sort();
        assert!(got == want, "listing of {p} (recursive {recursive}): {got:?}, expected {want:?}");
        let all: Vec<&Entry> = self.model.values().filter(|e| e.path.starts_with(p)).collect();
        let s = match (asynch, p) {
            (true, "/") => wait(C::stats_async(&self.adb)),
            (true, p) => wait(C::stats_for_path_async(p, &self.adb)),
            (false, "/") => C::stats(&self.db),
            (false, p) => C::stats_for_path(p, &self.db),
        }.unwrap();
        assert!(s.file_count == all.len() && s.total_bytes == all.iter().map(|e| e.data.len() as u64).sum::<u64>() && s.last_appended_at == all.iter().filter_map(|e| e.appended).max(), "statistics of {p}: {s:?}");
        if let Some(id) = self.pick() {
            let e = &self.model[&id];
            let inside = format!("{}{}/", e.path, e.name);
            let mut want: Vec<u32> = self.model.iter().filter(|(_, x)| x.path == inside).map(|(i, _)| *i).collect();
            let mut got: Vec<u32> = if asynch { wait(self.afile(id).children()).unwrap().iter().map(|f| f.id()).collect() } else { self.file(id).children().unwrap().iter().map(|f| f.id()).collect() };
            got.sort();
            want.sort();
            assert!(got == want, "children of {}{}", e.path, e.name);
        }
    }
    pub fn sizes(&mut self) {
        let Some(id) = self.pick() else { return };
        let e = &self.model[&id];
        if below(2) == 0 {
            let mut f = self.file(id);
            assert!(f.len().unwrap() == e.data.len() as u64 && f.is_empty().unwrap() == e.data.is_empty() && f.last_appended_at().unwrap() == e.appended, "size of a file");
            self.matches(id, &f);
        } else {
            let mut f = self.afile(id);
            assert!(wait(f.len()).unwrap() == e.data.len() as u64 && wait(f.is_empty()).unwrap() == e.data.is_empty() && wait(f.last_appended_at()).unwrap() == e.appended, "size of a file");
            self.amatches(id, &f);
        }
    }
    /// Reads one file with a random script.
    pub fn read(&mut self) {
        let Some(id) = self.pick() else { return };
        let data = self.model[&id].data.clone();
        // half of the time, some blocks go away while reading
        let cut = if below(6) == 0 { Some(below(6)) } else { None };
        if below(2) == 0 { self.script(id, &data, cut) } else { wait(self.ascript(id, &data, cut)) }
        if let Some(_) = cut {
            let mut f = self.file(id);
            let e = self.model.get_mut(&id).unwrap();
            e.data = f.contents().unwrap().into_vec().unwrap();
            e.appended = f.last_appended_at().unwrap();
        }
    }
    fn script(&self, id: u32, data: &[u8], cut: Option<usize>) {
        let f = self.file(id);
        let mut c = f.contents().unwrap();
        if below(2) == 0 { c = c.with_buffer_size(below(30)); }
        assert!(c.len() == data.len() as u64 && c.is_empty() == data.is_empty() && c.last_appended_at() == self.model[&id].appended, "size of the contents");
        let mut pos = 0;
        for step in 0..2 + below(8) {
            if Some(step) == cut { f.truncate(below(data.len() + 1) as u64, if below(2) == 0 { Truncate::RemovingStart } else { Truncate::RemovingEnd }).unwrap(); }
            let gone = cut.map_or(false, |c| c <= step);
            match below(6) {
                0 | 1 => {
                    let mut buf = vec![0; below(4) * below(8)];
                    match c.read(&mut buf) { Ok(n) => read(data, &mut pos, &buf, n), Err(e) => { failed(gone, e); return } }
                }
                2 | 3 => { let s = target(data.len()); sought(data.len(), &mut pos, s, c.seek(s)); }
                4 => match c.next() { Some(Ok(b)) => block(data, &mut pos, &b), Some(Err(e)) => { failed(gone, e); return } None => assert!(pos == data.len(), "blocks ended at {pos}") },
                _ => match c.to_vec() { Ok(v) => assert!(v == data[pos..], "remaining contents"), Err(e) => { failed(gone, e); return } },
            }
        }
        match below(2) {
            0 => match c.into_vec() { Ok(v) => assert!(v == data[pos..], "remaining contents"), Err(e) => failed(cut.is_some(), e) },
            _ => match c.into_string() { Ok(v) => assert!(v.as_bytes() == &data[pos..], "remaining text"), Err(e) => if std::str::from_utf8(&data[pos..]).is_ok() { failed(cut.is_some(), e) } },
        }
    }
    async fn ascript(&self, id: u32, data: &[u8], cut: Option<usize>) {
        let f = C::get_async(id, &self.adb).await.unwrap().unwrap();
        let mut c = f.contents().await.unwrap();
        if below(2) == 0 { c = c.with_buffer_size(below(30)); }
        assert!(c.len() == data.len() as u64 && c.is_empty() == data.is_empty() && c.last_appended_at() == self.model[&id].appended, "size of the contents");
        let mut pos = 0;
        for step in 0..2 + below(8) {
            if Some(step) == cut { f.truncate(below(data.len() + 1) as u64, if below(2) == 0 { Truncate::RemovingStart } else { Truncate::RemovingEnd }).await.unwrap(); }
            let gone = cut.map_or(false, |c| c <= step);
            match below(7) {
                0 | 1 => {
                    let mut buf = vec![0; below(4) * below(8)];
                    match c.read(&mut buf).await { Ok(n) => read(data, &mut pos, &buf, n), Err(e) => { failed(gone, e); return } }
                }
                2 | 3 => {
                    let s = target(data.len());
                    let r = AsyncSeekExt::seek(&mut c, s).await;
                    sought(data.len(), &mut pos, s, r);
                    assert!(AsyncSeekExt::stream_position(&mut c).await.unwrap() == pos as u64, "reported position");
                }
                4 => match StreamExt::next(&mut c).await { Some(Ok(b)) => block(data, &mut pos, &b), Some(Err(e)) => { failed(gone, e); return } None => assert!(pos == data.len(), "blocks ended at {pos}") },
                5 => {
                    // a read that is given up
                    let mut buf = vec![0; 1 + below(12)];
                    if let std::task::Poll::Ready(r) = futures::poll!(Box::pin(c.read(&mut buf))) { match r { Ok(n) => read(data, &mut pos, &buf, n), Err(e) => { failed(gone, e); return } } }
                }
                _ => match c.to_vec().await { Ok(v) => assert!(v == data[pos..], "remaining contents"), Err(e) => { failed(gone, e); return } },
            }
        }
        match below(2) {
            0 => match c.into_vec().await { Ok(v) => assert!(v == data[pos..], "remaining contents"), Err(e) => failed(cut.is_some(), e) },
            _ => match c.into_string().await { Ok(v) => assert!(v.as_bytes() == &data[pos..], "remaining text"), Err(e) => if std::str::from_utf8(&data[pos..]).is_ok() { failed(cut.is_some(), e) } },
        }
    }
    pub fn history(&mut self, steps: usize) {
        for _ in 0..steps {
            match below(16) {
                0 | 1 => self.create(),
                2 => self.load_or_create(),
                3 => self.lookup(),
                4 | 5 => self.append(),
                6 => self.truncate(),
                7 => self.delete(),
                8 | 9 => self.relocate(),
                10 => self.metadata(),
                11 | 12 => self.lists(),
                13 => self.sizes(),
                _ => self.read(),
            }
        }
        for (id, e) in &self.model {
            let f = self.file(*id);
            self.matches(*id, &f);
            assert!(f.contents().unwrap().into_vec().unwrap() == e.data, "contents at the end");
        }
    }
    /// Reading one file of several blocks.
    pub fn reading(&mut self) {
        let f = C::build("f").create(&self.db).unwrap();
        let (id, created) = (f.id(), f.created_at());
        let mut data = vec![];
        for _ in 0..below(6) { let d = noise(1 + below(9)); f.append(&d).unwrap(); data.extend(d); }
        let appended = self.file(id).last_appended_at().unwrap();
        self.model.insert(id, Entry { path: "/", name: "f".into(), data, metadata: 0, created, appended });
        for _ in 0..4 { self.read(); }
    }
}
fn target(len: usize) -> SeekFrom {
    let near = |n: usize| -> i64 { below(n + 8) as i64 - 4 };
    match below(5) {
        0 => SeekFrom::Start(near(len).max(0) as u64),
        1 => SeekFrom::End(-near(len)),
        2 | 3 => SeekFrom::Current(near(len) - len as i64 / 2),
        _ => match below(6) { 0 => SeekFrom::Start(u64::MAX), 1 => SeekFrom::End(i64::MIN), 2 => SeekFrom::End(i64::MAX), 3 => SeekFrom::Current(i64::MIN), 4 => SeekFrom::Current(i64::MAX), _ => SeekFrom::Current(0) },
    }
}
fn sought(len: usize, pos: &mut usize, to: SeekFrom, r: std::io::Result<u64>) {
    let t = match to { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => len as i128 + (x.min(0)) as i128, SeekFrom::Current(x) => *pos as i128 + x as i128 };
    match r {
        Ok(p) => { assert!(t >= 0, "seek before the start succeeded"); assert!(p as i128 == t.min(len as i128), "seek {to:?} from {pos} of {len} gave {p}"); *pos = p as usize }
        Err(e) => assert!(t < 0, "seek {to:?} from {pos} of {len} failed: {e}"),
    }
}
fn read(data: &[u8], pos: &mut usize, buf: &[u8], n: usize) {
    assert!(n <= buf.len() && *pos + n <= data.len() && buf[..n] == data[*pos..*pos + n], "read {n} wrong bytes at {pos}");
    assert!(n > 0 || buf.is_empty() || *pos == data.len(), "read ended early at {pos}");
    *pos += n;
}
fn block(data: &[u8], pos: &mut usize, b: &[u8]) {
    assert!(data[*pos..].starts_with(b), "wrong block at {pos}");
    *pos += b.len();
}
fn failed(gone: bool, e: std::io::Error) { assert!(gone, "reading failed: {e}"); }
