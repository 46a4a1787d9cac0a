//! C16: transactions apply completely or not at all, and reads return exactly
//! what was committed.
#[cfg(not(kani))]
use crate::docs::*;
use sym::*;
harnesses! {}
bounded! {
    c16_history [60] {
        let mut w = World::new(false);
        for _ in 0..60 { match below(10) { 0..=3 => w.transaction(), 4..=6 => w.single(), 7 | 8 => w.read(), _ => w.holds() } }
        w.holds();
    }
    c16_clients [4] { contend(below(3) == 0); }
    c16_reopen [6] {
        let mut w = World::new(true);
        for _ in 0..3 {
            for _ in 0..8 { match below(4) { 0 | 1 => w.transaction(), 2 => w.single(), _ => w.read() } }
            w = w.reopen();
            w.holds();
        }
    }
}
