//! C14: keys expire exactly when they are due.
use bonsaidb_local::config::*;
use bonsaidb_local::core::keyvalue::*;
use bonsaidb_local::verify::keyvalue as kv;
use bonsaidb_local::verify::*;
use crate::world::*;
use sym::*;
#[cfg(not(kani))]
use parking_lot::Mutex;
#[cfg(not(kani))]
use std::sync::Arc;

/// Keys of pairwise different lengths.
const KEYS: [&str; 4] = ["\0a", "\0bb", "\0ccc", "\0dddd"];

/// A state tracking the first `n` keys, in any order their times allow.
fn tracking(n: usize) -> (KeyValueState, [Option<Timestamp>; 4]) {
    let mut s = state();
    let mut times = [None; 4];
    {
        let (map, order) = kv::expirations(&mut s);
        let mut last = Timestamp::MIN;
        let mut i = 0;
        while i < n {
            let t = time();
            assume(t >= last);
            last = t;
            map.insert(String::from(KEYS[i]), t);
            order.push_back(String::from(KEYS[i]));
            times[i] = Some(t);
            i += 1;
        }
    }
    (s, times)
}
/// The tracked expirations are exactly `times`, and ordered.
fn tracks(s: &mut KeyValueState, times: &[Option<Timestamp>; 4]) {
    let (map, order) = kv::expirations(s);
    let mut n = 0;
    let mut i = 0;
    while i < 4 {
        assert!(map.get(KEYS[i]).copied() == times[i], "tracked expiration");
        if times[i].is_some() { n += 1; }
        i += 1;
    }
    assert!(map.len() == n && order.len() == n, "number of tracked keys");
    let mut last = Timestamp::MIN;
    let mut seen = [false; 4];
    let mut i = 0;
    while i < n {
        let which = match order[i].len() { 2 => 0, 3 => 1, 4 => 2, _ => 3 };
        assert!(!seen[which], "key queued twice");
        seen[which] = true;
        let t = times[which];
        assert!(t.is_some(), "untracked key queued");
        let t = t.unwrap();
        assert!(last <= t, "order of expiration");
        last = t;
        i += 1;
    }
}
fn earliest(times: &[Option<Timestamp>; 4]) -> Option<Timestamp> {
    let mut r: Option<Timestamp> = None;
    let mut i = 0;
    while i < 4 { if let Some(t) = times[i] { r = Some(match r { Some(x) if x <= t => x, _ => t }); } i += 1; }
    r
}
/// update_key_expiration of key `which`, with `n` keys tracked before.
fn update(n: usize, which: usize, new: bool) {
    let (mut s, mut times) = tracking(n);
    let before = earliest(&times);
    let t = if new { Some(time()) } else { None };
    s.update_key_expiration(KEYS[which], t);
    times[which] = t;
    tracks(&mut s, &times);
    #[cfg(kani)]
    if earliest(&times) != before { assert!(unsafe { RETARGETED } > 0, "worker not told of the new first expiration"); }
    let _ = before;
    finish(s);
}
/// remove_expired_keys at any time, with `n` keys tracked before.
fn expire(n: usize) {
    let (mut s, mut times) = tracking(n);
    let now = time();
    kv::remove_expired_keys(&mut s, now);
    let mut i = 0;
    while i < n {
        let due = times[i].unwrap() <= now;
        match kv::dirty_keys(&mut s).get(KEYS[i]) {
            Some(None) => assert!(due, "removed before it was due"),
            None => assert!(!due, "kept although due"),
            Some(Some(_)) => assert!(false, "removed key has a value"),
        }
        if due { times[i] = None; }
        i += 1;
    }
    assert!(kv::dirty_keys(&mut s).len() == 4 - (4 - n) - times.iter().flatten().count(), "other keys changed");
    tracks(&mut s, &times);
    finish(s);
}
#[cfg(kani)]
static mut RETARGETED: usize = 0;
#[cfg(kani)]
fn retarget(_s: &mut KeyValueState) { unsafe { RETARGETED += 1; } }
fn finish(s: KeyValueState) {
    #[cfg(kani)]
    std::mem::forget(s);
    #[cfg(not(kani))]
    drop(s);
}

macro_rules! world { ($($(#[$c:meta])* $n:ident $b:block)*) => { harnesses! {
    $(
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, retarget)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    $(#[$c])* $n [8] $b
    )*
} } }
world! {
    c14_update_0 { update(0, 0, true) }
    c14_update_0_none { update(0, 0, false) }
    c14_update_1_same { update(1, 0, true) }
    c14_update_1_other { update(1, 1, true) }
    c14_update_1_none { update(1, 0, false) }
    #[cfg(feature = "deep")]
    c14_update_2_first { update(2, 0, true) }
    c14_update_2_last { update(2, 1, true) }
    c14_update_2_other { update(2, 2, true) }
    c14_update_2_none_first { update(2, 0, false) }
    c14_update_2_none_last { update(2, 1, false) }
    #[cfg(feature = "deep")]
    c14_update_3_first { update(3, 0, true) }
    #[cfg(feature = "deep")]
    c14_update_3_middle { update(3, 1, true) }
    #[cfg(feature = "deep")]
    c14_update_3_last { update(3, 2, true) }
    #[cfg(feature = "deep")]
    c14_update_3_other { update(3, 3, true) }
    #[cfg(feature = "deep")]
    c14_update_3_none_first { update(3, 0, false) }
    #[cfg(feature = "deep")]
    c14_update_3_none_middle { update(3, 1, false) }
    c14_update_3_none_other { update(3, 3, false) }
    c14_expire_0 { expire(0) }
    c14_expire_1 { expire(1) }
    #[cfg(feature = "deep")]
    c14_expire_2 { expire(2) }
    #[cfg(feature = "deep")]
    c14_expire_3 { expire(3) }
}
#[cfg(not(kani))]
mod clock {
    pub use crate::history::*;
    pub use crate::scratch::*;
    pub use std::time::{Duration, Instant, SystemTime};
    pub fn soon(t: Duration) -> (SystemTime, super::Timestamp) { let t = SystemTime::now() + t; (t, super::Timestamp::from(t)) }
    pub fn wait(mut done: impl FnMut() -> bool) -> bool {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(20) { if done() { return true; } std::thread::sleep(Duration::from_millis(2)); }
        done()
    }
}
bounded! {
    c14_history [3000] {
        use crate::history::*;
        // Tracking follows every command.
        let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
        for _ in 0..40 { h.step(false); h.check_tracking(); if below(8) == 0 { h.persist_step(); } }
    }
    c14_due_history [2000] {
        use crate::history::*;
        // Keys due at once are gone for every following command.
        let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
        for _ in 0..40 { h.step(true); if below(8) == 0 { h.persist_step(); } }
    }
    c14_clock [60] {
        use clock::*;
        let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
        let mut due: std::collections::BTreeMap<String, Timestamp> = Default::default();
        for _ in 0..40 {
            let key = format!("k{}", below(6));
            match below(4) {
                0 => { let (at, t) = soon(Duration::from_micros(any::<u16>() as u64 / 8)); KeyValue::set_numeric_key(&h.store, &key, 1_u64).expire_at(at).execute().unwrap(); due.insert(key, t); }
                1 => std::thread::sleep(Duration::from_micros(any::<u16>() as u64 / 16)),
                2 => h.persist_step(),
                _ => {
                    let before = Timestamp::now();
                    let got = KeyValue::get_key(&h.store, &key).query().unwrap();
                    let after = Timestamp::now();
                    match due.get(&key) {
                        None => assert!(got.is_none(), "a key never set exists"),
                        Some(t) if *t <= before => assert!(got.is_none(), "{key} exists although it was due"),
                        Some(t) if *t > after => assert!(got.is_some(), "{key} is gone before it is due"),
                        _ => {}
                    }
                }
            }
        }
    }
    c14_worker [6] {
        use clock::*;
        // The background worker removes due keys on its own, also from disk.
        let roots = RootsConfig::new(format!("/nonexistent-vk/worker{}", any::<u64>())).file_manager(AnyFileManager::memory()).open().unwrap();
        let target = watchable::Watchable::new(BackgroundWorkerProcessTarget::Never);
        let mut watcher = target.watch();
        let s = Arc::new(Mutex::new(KeyValueState::new(KeyValuePersistence::immediate(), roots, target)));
        let weak = Arc::downgrade(&s);
        let worker = std::thread::spawn(move || kv::background_worker(&weak, &mut watcher));
        let store = Store(s.clone());
        let n = 1 + below(4);
        let mut keys = vec![];
        for i in 0..n {
            let (at, t) = soon(Duration::from_millis(20 + below(80) as u64));
            KeyValue::set_numeric_key(&store, format!("k{i}"), 1_u64).expire_at(at).execute().unwrap();
            keys.push((full("", &format!("k{i}")), t));
        }
        KeyValue::set_numeric_key(&store, "stays", 2_u64).execute().unwrap();
        for (key, t) in &keys {
            assert!(wait(|| { let s = s.lock(); kv::get(&s, key).unwrap().is_none() && kv::read_from_disk(&s, key).is_none() }), "{key:?} outlived its expiration");
            assert!(Timestamp::now() > *t, "{key:?} was removed before it was due");
        }
        assert!(kv::get(&s.lock(), "\0stays").unwrap().is_some(), "a key without expiration was removed");
        drop(store);
        drop(s);
        worker.join().unwrap();
    }
    c14_reopen [4] {
        use bonsaidb_local::Database;
        use clock::*;
        // Expirations are tracked again after reopening, whether they come due
        // while the database is closed, while it is opened or later, and those
        // changed while they are loaded stay changed.
        let dir = Scratch::new("c14");
        let lazy: bool = any();
        let policy = || if lazy { KeyValuePersistence::lazy([PersistenceThreshold::after_changes(40)]) } else { KeyValuePersistence::immediate() };
        let open = || Database::open::<()>(StorageConfiguration::new(dir.path()).key_value_persistence(policy())).unwrap();
        let name = |i: usize| format!("k{i:04}");
        let mut keys = std::collections::BTreeMap::<(Option<&str>, usize), Option<Timestamp>>::new();
        let count = if !lazy || any() { 12 } else { 800 };
        let horizon = 500;
        let set = |db: &Database, ns: Option<&str>, i: usize, at: Option<SystemTime>| match (ns, at) {
            (None, None) => { db.set_numeric_key(name(i), 1_u64).execute().unwrap(); }
            (None, Some(at)) => { db.set_numeric_key(name(i), 1_u64).expire_at(at).execute().unwrap(); }
            (Some(ns), None) => { db.with_key_namespace(ns).set_numeric_key(name(i), 1_u64).execute().unwrap(); }
            (Some(ns), Some(at)) => { db.with_key_namespace(ns).set_numeric_key(name(i), 1_u64).expire_at(at).execute().unwrap(); }
        };
        let when = || match below(4) {
            0 => None,
            1 => Some(soon(Duration::from_secs(3600))),
            _ => Some(soon(Duration::from_millis(20 + below(horizon) as u64))),
        };
        let db = open();
        for i in 0..count {
            let ns = if below(4) == 0 { Some("n") } else { None };
            let at = when();
            set(&db, ns, i, at.map(|a| a.0));
            keys.insert((ns, i), at.map(|a| a.1));
        }
        drop(db);
        if any() { std::thread::sleep(Duration::from_millis(below(horizon) as u64)); }
        let db = open();
        // Those at the end are changed while the loader is on its way.
        let all: Vec<_> = keys.keys().copied().collect();
        for (ns, i) in all.into_iter().rev().take(count / 4) {
            if below(3) != 0 { continue; }
            let at = when();
            set(&db, ns, i, at.map(|a| a.0));
            keys.insert((ns, i), at.map(|a| a.1));
        }
        let start = Instant::now();
        let exists = |ns: Option<&str>, i: usize| match ns { None => db.get_key(name(i)).query(), Some(ns) => db.with_key_namespace(ns).get_key(name(i)).query() }.unwrap().is_some();
        let mut last = false;
        while !last {
            last = start.elapsed() > Duration::from_millis(horizon as u64 + 1000);
            for (&(ns, i), &due) in &keys {
                let before = Timestamp::now();
                let present = exists(ns, i);
                let after = Timestamp::now();
                match due {
                    None => assert!(present, "{ns:?}/{i} without an expiration was removed"),
                    Some(due) => {
                        assert!(present || due <= after, "{ns:?}/{i} was removed before it was due");
                        // The loader starts when the database is opened: an
                        // expiration that passed before counts from the time it
                        // has been loaded.
                        assert!(!present || due > before || !last || wait(|| !exists(ns, i)), "{ns:?}/{i} outlived its expiration");
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(100));
        }
    }
}
