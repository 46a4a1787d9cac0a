//! C07: key-value timestamps: addition carries and saturates, subtraction is
//! exact, conversions and ordering agree with durations since the epoch.
use crate::util::*;
use bonsaidb_core::key::*;
use bonsaidb_core::keyvalue::Timestamp;
use std::time::{Duration, UNIX_EPOCH};
use sym::*;

fn ts() -> Timestamp { let seconds: u64 = any(); let nanos: u32 = any(); assume(nanos < 1_000_000_000); Timestamp { seconds, nanos } }
fn dur() -> Duration { let s: u64 = any(); let n: u32 = any(); assume(n < 1_000_000_000); Duration::new(s, n) }

harnesses! {
    c07_add [4] { let (t, d) = (ts(), dur()); let r = t + d;
        // Exact sum, without overflow, in (seconds, nanos) with one carry; else MAX.
        let n = t.nanos as u64 + d.subsec_nanos() as u64; let carry = (n >= 1_000_000_000) as u128;
        let s = t.seconds as u128 + d.as_secs() as u128 + carry;
        if s > u64::MAX as u128 { assert!(r == Timestamp::MAX, "saturates") } else { assert!(r.seconds as u128 == s && r.nanos as u64 == n - carry as u64 * 1_000_000_000, "exact sum") } }
    c07_add_valid [4] { let r = ts() + dur(); assert!(r.nanos < 1_000_000_000, "normalised"); }
    c07_add_monotonic [4] { let (t, d) = (ts(), dur()); assert!(t + d >= t, "never moves backwards"); }
    c07_sub [4] { let (a, b) = (ts(), ts()); match a - b { Some(d) => { assert!(a >= b); assert!(b + d == a, "exact difference") } None => assert!(a < b, "defined exactly when not before") } }
    c07_order [4] { let (a, b) = (ts(), ts()); assert!(a.cmp(&b) == (a.seconds, a.nanos).cmp(&(b.seconds, b.nanos)), "chronological order"); }
    c07_duration [4] { let t = ts(); let d = Duration::from(t); assert!(d.as_secs() == t.seconds && d.subsec_nanos() == t.nanos); }
    c07_system_time [4] { let d = dur(); if let Some(s) = UNIX_EPOCH.checked_add(d) { let t = Timestamp::from(s); assert!(t.seconds == d.as_secs() && t.nanos == d.subsec_nanos(), "time since the epoch"); } }
    c07_bounds [4] { let t = ts(); assert!(Timestamp::MIN <= t && t <= Timestamp::MAX); assert!(Timestamp::default() == Timestamp::MIN); }
    c07_key_round_trip [16] { round_trip(&ts()) }
    c07_key_order [16] { let (a, b) = (ts(), ts()); ordered(&a, &b) }
    c07_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}
bounded! {
    c07_b_assoc [20000] { let (t, a, b) = (ts(), dur(), dur()); let x = t + a + b; if let Some(s) = a.checked_add(b) { assert!(x == t + s, "adding in two steps") } let j = serde_json::to_string(&t).unwrap(); let back: Timestamp = serde_json::from_str(&j).unwrap(); assert!(back == t); }
}
