//! C15: pending key-value changes stay visible and are all persisted in time.
use bonsaidb_local::config::*;
use bonsaidb_local::core::keyvalue::*;
use bonsaidb_local::verify::keyvalue as kv;
use bonsaidb_local::verify::*;
use crate::world::*;
use std::sync::Arc;
use std::time::Duration;
use sym::*;
#[cfg(not(kani))]
use parking_lot::Mutex;

fn duration() -> Duration { let (s, n): (u64, u32) = (any(), any()); assume(n < 1_000_000_000); Duration::new(s, n) }
fn rules<const N: usize>() -> [PersistenceThreshold; N] {
    let mut r = [PersistenceThreshold::after_changes(0); N];
    let mut i = 0;
    while i < N { r[i] = PersistenceThreshold::after_changes(any()).and_duration(duration()); assume(r[i].duration < Duration::MAX); i += 1; }
    r
}
/// A commit is due as soon as one threshold's changes and time are both met.
fn spec(rules: &[PersistenceThreshold], changes: usize, elapsed: Duration) -> Option<Duration> {
    let mut best: Option<Duration> = None;
    let mut i = 0;
    while i < rules.len() {
        if changes > 0 && rules[i].number_of_changes <= changes {
            let d = rules[i].duration.saturating_sub(elapsed);
            best = Some(match best { Some(b) if b <= d => b, _ => d });
        }
        i += 1;
    }
    best
}
fn thresholds<const N: usize>() {
    let (r, changes, elapsed) = (rules::<N>(), any::<usize>(), duration());
    let p = KeyValuePersistence::lazy(r);
    let want = spec(&r, changes, elapsed);
    assert!(kv::duration_until_next_commit(&p, changes, elapsed) == want, "time of the next commit");
    assert!(p.should_commit(changes, elapsed) == (want == Some(Duration::ZERO)), "should commit");
    std::mem::forget(p);
}
/// stage_dirty_keys, for `dirty` changed keys, with or without others being persisted.
fn stage(dirty: usize, persisting: bool) {
    const K: [&str; 2] = [A, B];
    let mut s = state();
    let v: [u64; 2] = [any(), any()];
    let mut i = 0;
    while i < dirty { kv::dirty_keys(&mut s).insert(String::from(K[i]), if i == 1 { None } else { Some(entry(v[i], None)) }); i += 1; }
    let before = if persisting { let a = Arc::new(kv::Keys::new()); *kv::keys_being_persisted(&mut s) = Some(a.clone()); Some(a) } else { None };
    let got = kv::stage_dirty_keys(&mut s);
    let holds = |m: &kv::Keys| {
        assert!(m.len() == dirty, "number of changes");
        if dirty > 0 { assert!(matches!(m.get(A), Some(Some(e)) if matches!(e.value, Value::Numeric(Numeric::UnsignedInteger(u)) if u == v[0])), "staged value"); }
        if dirty > 1 { assert!(matches!(m.get(B), Some(None)), "staged removal"); }
    };
    if persisting || dirty == 0 {
        assert!(got.is_none(), "staged while persisting");
        holds(kv::dirty_keys(&mut s));
        match (kv::keys_being_persisted(&mut s), &before) { (Some(a), Some(b)) => assert!(Arc::ptr_eq(a, b)), (None, None) => {}, _ => assert!(false, "keys being persisted replaced") }
    } else {
        assert!(kv::dirty_keys(&mut s).is_empty(), "staged keys stay dirty");
        let g = got.as_ref().unwrap();
        holds(g);
        assert!(matches!(kv::keys_being_persisted(&mut s), Some(a) if Arc::ptr_eq(a, g)), "staged keys are not being persisted");
    }
    std::mem::forget((s, got, before));
}

/// The worker's target, as recorded by the stand-ins for the watchable.
#[cfg(kani)]
mod record {
    use super::*;
    pub static mut NEXT: Option<Duration> = None;
    pub static mut TARGET: BackgroundWorkerProcessTarget = BackgroundWorkerProcessTarget::Never;
    pub static mut SET: usize = 0;
    pub static mut CHANGES: usize = 0;
    pub static mut ELAPSED: Duration = Duration::ZERO;
    pub fn until(_p: &KeyValuePersistence, changes: usize, elapsed: Duration) -> Option<Duration> {
        assert!(changes == unsafe { CHANGES } && elapsed == unsafe { ELAPSED }, "changes and time since the last commit");
        unsafe { NEXT }
    }
    pub fn replace<T>(_w: &watchable::Watchable<T>, value: T) -> T {
        assert!(std::mem::size_of::<T>() == std::mem::size_of::<BackgroundWorkerProcessTarget>());
        unsafe { TARGET = std::ptr::read(&value as *const T as *const BackgroundWorkerProcessTarget); SET += 1; }
        value
    }
    pub fn update<T: PartialEq>(w: &watchable::Watchable<T>, value: T) -> Result<T, T> { Ok(replace(w, value)) }
}
#[cfg(kani)]
fn target(persisting: bool, expiring: bool) {
    let mut s = state();
    let now = time();
    let last = time();
    unsafe { contract::NOW = now; record::CHANGES = 1; record::ELAPSED = (now - last).unwrap_or_default(); }
    kv::dirty_keys(&mut s).insert(String::from(B), None);
    *kv::last_commit(&mut s) = last;
    if persisting { *kv::keys_being_persisted(&mut s) = Some(Arc::new(kv::Keys::new())); }
    let next = if any() { Some(duration()) } else { None };
    unsafe { record::NEXT = next; }
    let expires = if expiring { let t = time(); let (map, order) = kv::expirations(&mut s); map.insert(String::from(A), t); order.push_back(String::from(A)); Some(t) } else { None };
    kv::update_background_worker_target(&mut s);
    let commit = if persisting { None } else { next.map(|d| now + d) };
    let want = match (commit, expires) { (None, t) | (t, None) => t, (Some(a), Some(b)) => Some(if a <= b { a } else { b }) };
    assert!(unsafe { record::SET } == 1, "target set once");
    match unsafe { record::TARGET } {
        BackgroundWorkerProcessTarget::Now => assert!(matches!(want, Some(t) if t <= now), "worker woken for nothing"),
        BackgroundWorkerProcessTarget::Timestamp(t) => assert!(t > now && want == Some(t), "worker wakes at another time"),
        BackgroundWorkerProcessTarget::Never => assert!(want.is_none(), "worker never wakes"),
    }
    std::mem::forget(s);
}
#[cfg(not(kani))]
fn target(persisting: bool, expiring: bool) {
    let mut s = state();
    let next = if any() { Some(Duration::from_secs(any::<u16>() as u64)) } else { None };
    *kv::persistence(&mut s) = KeyValuePersistence::lazy(next.map(|d| PersistenceThreshold::after_changes(1).and_duration(d)));
    kv::dirty_keys(&mut s).insert(String::from(B), None);
    if persisting { *kv::keys_being_persisted(&mut s) = Some(Arc::new(kv::Keys::new())); }
    let last = Timestamp::now();
    let ago = any::<u16>() as u64;
    *kv::last_commit(&mut s) = Timestamp { seconds: last.seconds - ago, nanos: last.nanos };
    let expires = if expiring { let t = Timestamp { seconds: (last.seconds as i64 + any::<i8>() as i64) as u64, nanos: last.nanos }; let (map, order) = kv::expirations(&mut s); map.insert(String::from(A), t); order.push_back(String::from(A)); Some(t) } else { None };
    kv::update_background_worker_target(&mut s);
    let now = Timestamp::now();
    let commit = if persisting { None } else { next.map(|d| Timestamp { seconds: last.seconds + d.as_secs() - ago.min(d.as_secs()), nanos: last.nanos }) };
    let want = match (commit, expires) { (None, t) | (t, None) => t, (Some(a), Some(b)) => Some(a.min(b)) };
    match kv::target(&s) {
        BackgroundWorkerProcessTarget::Now => assert!(matches!(want, Some(t) if t <= now), "worker woken for nothing"),
        BackgroundWorkerProcessTarget::Timestamp(t) => assert!(matches!(want, Some(w) if w >= last && (w - t).or(t - w).unwrap() < Duration::from_millis(500)), "worker wakes at {t:?}, not {want:?}"),
        BackgroundWorkerProcessTarget::Never => assert!(want.is_none(), "worker never wakes"),
    }
}

harnesses! {
    c15_thresholds_0 [4] { thresholds::<0>() }
    c15_thresholds_1 [4] { thresholds::<1>() }
    c15_thresholds_2 [5] { thresholds::<2>() }
    #[cfg(feature = "deep")]
    c15_thresholds_3 [6] { thresholds::<3>() }
    c15_immediate [4] {
        let (changes, elapsed) = (any::<usize>(), duration());
        let p = KeyValuePersistence::immediate();
        assert!(kv::duration_until_next_commit(&p, changes, elapsed) == if changes > 0 { Some(Duration::ZERO) } else { None }, "immediate");
        assert!(p.should_commit(changes, elapsed) == (changes > 0), "immediate");
    }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_stage_0 [8] { stage(0, false) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_stage_2 [8] { stage(2, false) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_stage_persisting [8] { stage(2, true) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit, record::until)]
    #[kani::stub(watchable::Watchable::replace, record::replace)]
    #[kani::stub(watchable::Watchable::update, record::update)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_target_commit [8] { target(false, false) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit, record::until)]
    #[kani::stub(watchable::Watchable::replace, record::replace)]
    #[kani::stub(watchable::Watchable::update, record::update)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_target_both [8] { target(false, true) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit, record::until)]
    #[kani::stub(watchable::Watchable::replace, record::replace)]
    #[kani::stub(watchable::Watchable::update, record::update)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_target_persisting [8] { target(true, false) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::config::KeyValuePersistence::duration_until_next_commit, record::until)]
    #[kani::stub(watchable::Watchable::replace, record::replace)]
    #[kani::stub(watchable::Watchable::update, record::update)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    c15_target_persisting_expiring [8] { target(true, true) }
}
bounded! {
    c15_many_thresholds [20000] {
        let n = below(9);
        let r: Vec<_> = (0..n).map(|_| PersistenceThreshold::after_changes(below(12)).and_duration(Duration::from_millis(any::<u16>() as u64 % 50))).collect();
        let p = KeyValuePersistence::lazy(r.clone());
        for changes in 0..14 {
            let elapsed = Duration::from_millis(any::<u16>() as u64 % 50);
            let want = spec(&r, changes, elapsed);
            assert!(kv::duration_until_next_commit(&p, changes, elapsed) == want, "time of the next commit");
            assert!(p.should_commit(changes, elapsed) == (want == Some(Duration::ZERO)), "should commit");
        }
    }
    c15_history [1500] {
        use crate::history::*;
        // Whatever has been staged or persisted, reads see the latest; settled, the disk holds it.
        let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
        for _ in 0..4 {
            for _ in 0..12 { if below(4) == 0 { h.persist_step(); h.check(); } else { h.step(false); } }
            h.settle();
            h.check_disk();
            h.check();
        }
    }
    c15_worker_history [300] {
        use crate::history::*;
        // Persisting threads and thresholds at work: after closing, all is on disk.
        let mut s = state();
        *kv::persistence(&mut s) = if any() { KeyValuePersistence::immediate() } else { KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1 + below(6)), PersistenceThreshold::after_changes(1).and_duration(Duration::from_millis(below(20) as u64))]) };
        let s = Arc::new(Mutex::new(s));
        let mut h = History::new(Store(s.clone()));
        for _ in 0..1 + below(40) { h.step(false); }
        let waiting = { let mut g = s.lock(); g.shutdown(&s) };
        if let Some(w) = waiting { assert!(w.recv_timeout(Duration::from_secs(60)).is_ok(), "closing never finishes"); }
        h.check_disk();
    }
    c15_shutdown_persisting [300] {
        use crate::history::*;
        // Closing while keys are being persisted waits for those changed since.
        let s = Arc::new(Mutex::new(state()));
        let mut h = History::new(Store(s.clone()));
        for _ in 0..1 + below(5) { h.step(false); }
        let staged = kv::stage_dirty_keys(&mut s.lock());
        for _ in 0..below(5) { h.step(false); }
        let waiting = { let mut g = s.lock(); g.shutdown(&s) };
        if let Some(keys) = staged {
            assert!(waiting.is_some(), "closed while keys were being persisted");
            kv::persist_keys(&s, &keys).unwrap();
        }
        if let Some(w) = waiting { assert!(w.recv_timeout(Duration::from_secs(60)).is_ok(), "closing never finishes"); }
        h.check_disk();
    }
    c15_persist_failure [30] {
        use crate::history::*;
        use crate::scratch::*;
        // A failed attempt loses nothing and blocks nobody.
        let dir = Scratch::new("c15");
        let path = dir.path().join("roots");
        let roots = RootsConfig::new(&path).file_manager(AnyFileManager::std()).open().unwrap();
        let s = Arc::new(Mutex::new(KeyValueState::new(KeyValuePersistence::lazy([]), roots, watchable::Watchable::new(BackgroundWorkerProcessTarget::Never))));
        let mut h = History::new(Store(s.clone()));
        std::fs::remove_dir_all(&path).unwrap();
        std::fs::write(&path, b"not a directory").unwrap();
        let set = |h: &mut History, i: usize| { kv::dirty_keys(&mut s.lock()).insert(full("n", ["a", "b", "ab"][i]), Some(entry(any(), None))); let e = kv::get(&s.lock(), &full("n", ["a", "b", "ab"][i])).unwrap().unwrap(); h.model.insert(("n", ["a", "b", "ab"][i]), (e.value, None)); };
        set(&mut h, 0);
        set(&mut h, 1);
        let staged = kv::stage_dirty_keys(&mut s.lock()).unwrap();
        set(&mut h, 1);
        set(&mut h, 2);
        assert!(kv::persist_keys(&s, &staged).is_err(), "the disk is not there");
        std::fs::remove_file(&path).unwrap();
        std::fs::create_dir(&path).unwrap();
        h.check();
        assert!(kv::stage_dirty_keys(&mut s.lock()).is_some(), "nothing can be persisted after a failure");
        *kv::keys_being_persisted(&mut s.lock()) = None;
    }
    c15_commits [40] {
        use crate::history::*;
        // Commits start when a threshold is reached, not before, and complete.
        let n = 1 + below(5);
        let mut s = state();
        *kv::persistence(&mut s) = if n == 1 && any() { KeyValuePersistence::immediate() } else { KeyValuePersistence::lazy([PersistenceThreshold::after_changes(n), PersistenceThreshold::after_changes(1).and_duration(Duration::from_secs(3600))]) };
        let s = Arc::new(Mutex::new(s));
        let store = Store(s.clone());
        for i in 0..n {
            assert!(kv::dirty_keys(&mut s.lock()).len() == i && kv::keys_being_persisted(&mut s.lock()).is_none(), "committed too early");
            KeyValue::set_numeric_key(&store, format!("k{i}"), i as u64).execute().unwrap();
        }
        let start = std::time::Instant::now();
        while (0..n).any(|i| kv::read_from_disk(&s.lock(), &format!("\0k{i}")).is_none()) { assert!(start.elapsed() < Duration::from_secs(20), "threshold reached, but changes were not persisted"); std::thread::sleep(Duration::from_millis(1)); }
    }
    c15_worker_commits [10] {
        use crate::history::*;
        // The worker commits once the time of a threshold has passed.
        let roots = RootsConfig::new(format!("/nonexistent-vk/commits{}", any::<u64>())).file_manager(AnyFileManager::memory()).open().unwrap();
        let target = watchable::Watchable::new(BackgroundWorkerProcessTarget::Never);
        let mut watcher = target.watch();
        let wait = Duration::from_millis(10 + below(50) as u64);
        let s = Arc::new(Mutex::new(KeyValueState::new(KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(wait), PersistenceThreshold::after_changes(100)]), roots, target)));
        let start = std::time::Instant::now();
        let weak = Arc::downgrade(&s);
        let worker = std::thread::spawn(move || kv::background_worker(&weak, &mut watcher));
        let store = Store(s.clone());
        for i in 0..3 { KeyValue::set_numeric_key(&store, format!("k{i}"), i as u64).execute().unwrap(); }
        let persisted = |i: usize| kv::read_from_disk(&s.lock(), &format!("\0k{i}")).is_some();
        while !(0..3).all(persisted) { assert!(start.elapsed() < Duration::from_secs(20), "time of the threshold passed, but changes were not persisted"); std::thread::sleep(Duration::from_millis(1)); }
        assert!(start.elapsed() >= wait - Duration::from_millis(5), "committed too early");
        drop(store);
        drop(s);
        worker.join().unwrap();
    }
    c15_target_history [1500] {
        use crate::history::*;
        // After every command the worker wakes no later than the first expiration.
        let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
        for _ in 0..30 {
            h.step(false);
            if below(8) == 0 { h.persist_step(); }
            let first = h.model.values().filter_map(|v| v.1).min();
            match (kv::target(&h.store.0.lock()), first) {
                (BackgroundWorkerProcessTarget::Never, None) => {}
                (BackgroundWorkerProcessTarget::Timestamp(t), Some(f)) => assert!(t == f, "worker wakes at {t:?}, the first expiration is {f:?}"),
                (t, f) => panic!("worker target {t:?}, first expiration {f:?}"),
            }
        }
    }
}
