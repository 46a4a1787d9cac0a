//! C18: the transaction log lists exactly the committed transactions.
#[cfg(not(kani))]
use crate::docs::*;
use sym::*;
harnesses! {}
bounded! {
    c18_history [60] {
        let mut w = World::new(false);
        for _ in 0..60 { match below(10) { 0..=3 => w.transaction(), 4 | 5 => w.single(), _ => w.logged() } }
    }
    c18_clients [4] { contend(below(3) == 0); }
    c18_reopen [6] {
        let mut w = World::new(true);
        for _ in 0..3 {
            for _ in 0..6 { match below(3) { 0 => w.transaction(), 1 => w.single(), _ => w.logged() } }
            w = w.reopen();
            w.logged();
        }
    }
}
