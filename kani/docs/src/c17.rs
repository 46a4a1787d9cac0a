//! C17: a view query returns exactly what the view maps the current documents to.
#[cfg(not(kani))]
use crate::docs::*;
use sym::*;
harnesses! {}
bounded! {
    c17_history [60] {
        let mut w = World::new(false);
        for _ in 0..80 { match below(12) { 0 | 1 => w.transaction(), 2..=4 => w.single(), 5 => w.prefix(), _ => w.query() } }
    }
    // Other clients keep updating the views in the background.
    c17_clients [8] {
        let mut w = World::new(false);
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let clients: Vec<_> = (0..3).map(|i| w.client(i, stop.clone())).collect();
        let held = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for _ in 0..150 { match below(4) { 0 => w.transaction(), 1 => w.single(), _ => w.query_now() } }));
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        for c in clients { c.join().unwrap(); }
        if let Err(e) = held { std::panic::resume_unwind(e); }
    }
    // The first query of each view, while other clients commit.
    c17_first [30] {
        for _ in 0..4 {
            let mut w = World::new(false);
            let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let clients: Vec<_> = [0, 2].into_iter().map(|i| w.client(i, stop.clone())).collect();
            let held = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for _ in 0..12 { match below(4) { 0 => w.single(), _ => w.query_now() } }));
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            for c in clients { c.join().unwrap(); }
            if let Err(e) = held { std::panic::resume_unwind(e); }
        }
    }
    c17_reopen [6] {
        let mut w = World::new(true);
        for _ in 0..3 {
            for _ in 0..10 { match below(4) { 0 => w.transaction(), 1 | 2 => w.single(), _ => w.query() } }
            w = w.reopen();
            for _ in 0..4 { w.query(); }
        }
    }
}
