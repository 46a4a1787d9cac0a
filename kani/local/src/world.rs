//! One key-value state in which key "a" is stored in a chosen place (or not at
//! all) and key "bystander" is an unrelated one.
use bonsaidb_local::config::*;
use bonsaidb_local::core::keyvalue::*;
use bonsaidb_local::verify::keyvalue as kv;
use bonsaidb_local::verify::*;
use parking_lot::Mutex;
use std::borrow::Cow;
use std::sync::Arc;
use sym::*;
use watchable::Watchable;

pub const A: &str = "\0a";
pub const B: &str = "\0bystander";

/// Contracts of the callees that are verified on their own, and of what lies
/// outside: the clock, the disk, the persisting thread.
#[cfg(kani)]
pub mod contract {
    use super::*;
    use std::cmp::Ordering;
    pub static mut NOW: Timestamp = Timestamp::MIN;
    pub static mut DISK: Option<(u64, Option<Timestamp>)> = None;
    /// The tracked expiration of "a".
    pub static mut TRACKED: Option<Timestamp> = None;
    /// Whether that is due.
    pub static mut DUE: bool = false;
    pub fn now() -> Timestamp { unsafe { NOW } }
    /// Key "a" may be on disk; nothing else is.
    pub fn disk(_roots: &Roots<AnyFile>, key: &str) -> Result<Option<Entry>, RootsError> {
        if key.len() == A.len() { Ok(unsafe { DISK }.map(|(v, e)| entry(v, e))) } else { Ok(None) }
    }
    /// Key order: the keys of the world differ in length, and are ordered by it.
    pub fn string_order(a: &String, b: &String) -> Ordering { a.len().cmp(&b.len()) }
    pub fn str_order(a: &str, b: &str) -> Ordering { a.len().cmp(&b.len()) }
    /// update_key_expiration (C14): the key's tracked expiration is replaced.
    pub fn track<'key>(_s: &mut KeyValueState, key: impl Into<Cow<'key, str>>, expiration: Option<Timestamp>) {
        let key = key.into();
        assert!(key.len() == A.len(), "expiration of another key changed");
        std::mem::forget(key);
        unsafe { TRACKED = expiration; }
    }
    /// full_key (verified on its own) for the key of the operation.
    pub fn full_key(namespace: Option<&str>, key: &str) -> String {
        assert!(namespace.is_none() && key.len() == 1, "the key of the operation");
        String::from(A)
    }
    pub fn retarget(_s: &mut KeyValueState) {}
    /// Reading never fails here.
    pub fn convert(e: bonsaidb_local::Error) -> bonsaidb_local::core::Error { std::mem::forget(e); unreachable!() }
}

pub fn time() -> Timestamp { let seconds: u64 = any(); let nanos: u32 = any(); assume(nanos < 1_000_000_000); Timestamp { seconds, nanos } }
pub fn time_opt() -> Option<Timestamp> { if any() { Some(time()) } else { None } }
pub fn entry(value: u64, expiration: Option<Timestamp>) -> Entry {
    Entry { value: Value::Numeric(Numeric::UnsignedInteger(value)), expiration, last_updated: Timestamp::MIN }
}

#[cfg(kani)]
pub fn state() -> KeyValueState {
    let roots: std::mem::MaybeUninit<Roots<AnyFile>> = std::mem::MaybeUninit::zeroed();
    KeyValueState::new(KeyValuePersistence::immediate(), unsafe { roots.assume_init() }, Watchable::new(BackgroundWorkerProcessTarget::Never))
}
#[cfg(not(kani))]
pub fn state() -> KeyValueState {
    use bonsaidb_local::verify::AnyFileManager;
    use std::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let roots = RootsConfig::new(format!("/nonexistent-vk/{n}")).file_manager(AnyFileManager::memory()).open().unwrap();
    KeyValueState::new(KeyValuePersistence::lazy([]), roots, Watchable::new(BackgroundWorkerProcessTarget::Never))
}

pub struct World {
    pub s: KeyValueState,
    pub now: Timestamp,
    a: Option<(u64, Option<Timestamp>)>,
    b: u64,
}
impl World {
    pub fn make(s: KeyValueState) -> Self { World { s, now: Timestamp::MIN, a: None, b: 1 } }
    /// `loc`: 0 absent, 1 dirty, 2 removed but not yet persisted, 3 being
    /// persisted, 4 removal being persisted, 5 on disk. `due`: "a" has expired.
    pub fn any(loc: u8, due: bool) -> Self {
        let now = clock();
        let mut s = state();
        let (v, b) = (any::<u64>(), any::<u64>());
        let e = if due { let t = time(); assume(t <= now); Some(t) } else { let t = time_opt(); if let Some(t) = t { assume(t > now); } t };
        kv::dirty_keys(&mut s).insert(String::from(B), Some(entry(b, None)));
        match loc {
            1 => { kv::dirty_keys(&mut s).insert(String::from(A), Some(entry(v, e))); }
            2 => { kv::dirty_keys(&mut s).insert(String::from(A), None); put_disk(&s, v, None); }
            3 => { let mut m = kv::Keys::new(); m.insert(String::from(A), Some(entry(v, e))); *kv::keys_being_persisted(&mut s) = Some(Arc::new(m)); }
            4 => { let mut m = kv::Keys::new(); m.insert(String::from(A), None); *kv::keys_being_persisted(&mut s) = Some(Arc::new(m)); put_disk(&s, v, None); }
            5 => put_disk(&s, v, e),
            _ => {}
        }
        let present = matches!(loc, 1 | 3 | 5);
        if present { set_tracked(&mut s, e, due); }
        World { s, now, a: if present { Some((v, e)) } else { None }, b }
    }
    /// The value of "a" as far as a command at `now` may see it.
    pub fn live(&self) -> Option<(u64, Option<Timestamp>)> {
        match self.a { Some((_, Some(e))) if e <= self.now => None, x => x }
    }
    /// Afterwards "a" holds `a`, the bystander is untouched, the expiration of
    /// "a" is tracked.
    pub fn check(&mut self, a: Option<(u64, Option<Timestamp>)>) {
        self.holds(A, a);
        self.holds(B, Some((self.b, None)));
        assert!(tracked(&mut self.s) == a.and_then(|x| x.1), "tracked expiration");
    }
    fn holds(&self, key: &str, want: Option<(u64, Option<Timestamp>)>) {
        let got = kv::get(&self.s, key);
        match (&got, want) {
            (Ok(None), None) => {}
            (Ok(Some(e)), Some((v, x))) => { assert!(matches!(e.value, Value::Numeric(Numeric::UnsignedInteger(u)) if u == v), "stored value"); assert!(e.expiration == x, "stored expiration"); }
            _ => assert!(false, "presence of the key"),
        }
        std::mem::forget(got);
    }
    #[cfg(kani)]
    pub fn done(self) { std::mem::forget(self) }
    #[cfg(not(kani))]
    pub fn done(self) {}
}

#[cfg(kani)]
fn clock() -> Timestamp { let t = time(); unsafe { contract::NOW = t; } t }
#[cfg(not(kani))]
fn clock() -> Timestamp { let _ = time(); Timestamp::now() }
#[cfg(kani)]
fn put_disk(_s: &KeyValueState, v: u64, e: Option<Timestamp>) { unsafe { contract::DISK = Some((v, e)); } }
#[cfg(not(kani))]
fn put_disk(s: &KeyValueState, v: u64, e: Option<Timestamp>) { kv::put_on_disk(s, A, &entry(v, e)) }
#[cfg(kani)]
fn set_tracked(_s: &mut KeyValueState, e: Option<Timestamp>, due: bool) { unsafe { contract::TRACKED = e; contract::DUE = due; } }
#[cfg(not(kani))]
fn set_tracked(s: &mut KeyValueState, e: Option<Timestamp>, _due: bool) { s.update_key_expiration(A, e) }
#[cfg(kani)]
fn tracked(_s: &mut KeyValueState) -> Option<Timestamp> { unsafe { contract::TRACKED } }
#[cfg(not(kani))]
fn tracked(s: &mut KeyValueState) -> Option<Timestamp> {
    let (keys, order) = kv::expirations(s);
    assert!(order.len() == keys.len() && keys.len() <= 1 && order.iter().all(|k| k == A), "tracked keys");
    keys.get(A).copied()
}
