//! C06: limited-resolution durations/timestamps truncate towards the past,
//! fail exactly when unrepresentable, and representations survive conversion.
use crate::util::*;
use bonsaidb_core::key::time::limited::*;
use bonsaidb_core::key::time::TimeError;
use bonsaidb_core::key::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use sym::*;

fn dur() -> Duration { let s: u64 = any(); let n: u32 = any(); assume(n < 1_000_000_000); Duration::new(s, n) }
/// Nanosecond total of a signed duration (fits: |total| < 2^95).
fn total(neg: bool, d: Duration) -> i128 { let t = d.as_secs() as i128 * 1_000_000_000 + d.subsec_nanos() as i128; if neg { -t } else { t } }
fn signed(neg: bool, d: Duration) -> SignedDuration { if neg { SignedDuration::Negative(d) } else { SignedDuration::Positive(d) } }

/// Sub-second resolutions (`$per` units in a second of `$ns` nanoseconds each).
macro_rules! fine { ($res:ty, $per:literal, $ns:literal) => {{
    let d = dur();
    let (s, n) = (d.as_secs() as u128, d.subsec_nanos());
    match LimitedResolutionDuration::<$res>::try_from(SignedDuration::Positive(d)) {
        Ok(v) => { let r = v.representation(); assert!(r >= 0); let q = (r as u128).wrapping_sub(s * $per); assert!(q < $per, "within the second"); let q = q as u32; assert!(q * $ns <= n && n - q * $ns < $ns, "truncated") }
        Err(e) => { std::mem::forget(e); assert!(s * $per + (n / $ns) as u128 >= 1 << 63, "representable value rejected") }
    }
}} }
/// Negative, split by whether rounding away from zero carries into the seconds.
macro_rules! fine_neg { ($res:ty, $per:literal, $ns:literal, $carry:literal) => {{
    let d = dur();
    let (s, n) = (d.as_secs(), d.subsec_nanos());
    assume((n > 1_000_000_000 - $ns) == $carry);
    // -r units, rounded up: s seconds and ceil(n / ns) units.
    let (us, un) = if $carry { (s as u128 + 1, 0) } else { (s as u128, (n + ($ns - 1)) / $ns) };
    assert!(un * $ns >= (if $carry { 0 } else { n }), "spec sanity");
    let units = us * $per + un as u128;
    match LimitedResolutionDuration::<$res>::try_from(SignedDuration::Negative(d)) {
        Ok(v) => { let r = v.representation(); assert!(r <= 0); assert!(r.unsigned_abs() as u128 == units, "truncated towards the past") }
        Err(e) => { std::mem::forget(e); assert!(units > 1 << 63, "representable value rejected") }
    }
}} }
/// Whole-second resolutions (`$f` seconds per unit, 32 bit representation).
macro_rules! coarse { ($res:ty, $f:literal, $neg:literal) => {{
    let d = dur(); let (s, n) = (d.as_secs(), d.subsec_nanos());
    if $neg {
        let Some(up) = s.checked_add((n > 0) as u64) else { return };
        match LimitedResolutionDuration::<$res>::try_from(SignedDuration::Negative(d)) {
            Ok(v) => { let r = v.representation(); assert!(r <= 0); let a = r.unsigned_abs() as u64 * $f; assert!(a >= up && a - up < $f, "truncated towards the past") }
            Err(e) => { std::mem::forget(e); assert!(up > (1u64 << 31) * $f, "representable value rejected") }
        }
    } else {
        match LimitedResolutionDuration::<$res>::try_from(SignedDuration::Positive(d)) {
            Ok(v) => { let r = v.representation(); assert!(r >= 0); let a = r as u64 * $f; assert!(a <= s && s - a < $f, "truncated") }
            Err(e) => { std::mem::forget(e); assert!(s >= (1u64 << 31) * $f, "representable value rejected") }
        }
    }
}} }
macro_rules! coarse_secs { ($neg:literal) => {{
    let d = dur(); let (s, n) = (d.as_secs() as i128, d.subsec_nanos()); let want = if $neg { -(s + (n > 0) as i128) } else { s };
    let v = if $neg { SignedDuration::Negative(d) } else { SignedDuration::Positive(d) };
    match LimitedResolutionDuration::<Seconds>::try_from(v) { Ok(v) => assert!(v.representation() as i128 == want, "truncated towards the past"), Err(e) => { std::mem::forget(e); assert!(want > i64::MAX as i128 || want < i64::MIN as i128, "representable value rejected") } }
}} }
/// representation -> duration is exact.
macro_rules! to_dur { ($res:ty, $t:ty, $($f:literal)*) => {{
    let r: $t = any();
    let want = r.unsigned_abs() as u64 $(* $f)*;
    match SignedDuration::try_from(LimitedResolutionDuration::<$res>::new(r)) {
        Ok(SignedDuration::Positive(d)) => assert!(r >= 0 && d.as_secs() == want && d.subsec_nanos() == 0, "exact"),
        Ok(SignedDuration::Negative(d)) => assert!(r <= 0 && d.as_secs() == want && d.subsec_nanos() == 0, "exact"),
        Err(e) => { std::mem::forget(e); assert!(false, "every representation has a duration") }
    }
}} }
macro_rules! to_dur_fine { ($res:ty, $per:literal, $ns:literal) => {{
    let r: i64 = any();
    let (neg, d) = match SignedDuration::try_from(LimitedResolutionDuration::<$res>::new(r)) { Ok(SignedDuration::Positive(d)) => (false, d), Ok(SignedDuration::Negative(d)) => (true, d), Err(e) => { std::mem::forget(e); panic!("every representation has a duration") } };
    assert!(if neg { r <= 0 } else { r >= 0 });
    let a = r.unsigned_abs();
    assert!(d.as_secs() == a / $per && d.subsec_nanos() == (a % $per) as u32 * $ns, "exact");
}} }
macro_rules! sys { ($res:ty, $epoch:ty) => {{
    let d = dur(); assume(d.as_secs() < 1 << 62);
    if let Some(t) = UNIX_EPOCH.checked_add(d) {
        let off = <$epoch as TimeEpoch>::epoch_offset();
        let want = if d < off { LimitedResolutionDuration::<$res>::try_from(SignedDuration::Negative(off - d)) } else { LimitedResolutionDuration::<$res>::try_from(SignedDuration::Positive(d - off)) };
        match (LimitedResolutionTimestamp::<$res, $epoch>::try_from(t), want) { (Ok(a), Ok(b)) => assert!(a.representation() == b.representation(), "relative to the epoch"), (Err(a), Err(b)) => std::mem::forget((a, b)), _ => assert!(false, "same representability") }
    }
}} }
macro_rules! back { ($res:ty, $t:ty, $epoch:ty) => {{
    let r: $t = any();
    let ts = LimitedResolutionTimestamp::<$res, $epoch>::from_representation(r);
    let off = <$epoch as TimeEpoch>::epoch_offset();
    let want = match SignedDuration::try_from(LimitedResolutionDuration::<$res>::new(r)) { Ok(SignedDuration::Positive(d)) => off.checked_add(d), Ok(SignedDuration::Negative(d)) => off.checked_sub(d), Err(e) => { std::mem::forget(e); None } };
    match (ts.duration_since_unix_epoch(), want) { (Ok(a), Some(b)) => assert!(a == b, "since the unix epoch"), (Err(e), None) => std::mem::forget(e), _ => assert!(false, "representable exactly when the sum is") }
}} }

harnesses! {
    c06_nanos_pos [4] { fine!(Nanoseconds, 1_000_000_000, 1) }
    c06_nanos_neg [4] { fine_neg!(Nanoseconds, 1_000_000_000, 1, false) }
    c06_micros_pos [4] { fine!(Microseconds, 1_000_000, 1_000) }
    #[cfg(feature = "deep")]
    c06_micros_neg [4] { fine_neg!(Microseconds, 1_000_000, 1_000, false) }
    c06_micros_neg_carry [4] { fine_neg!(Microseconds, 1_000_000, 1_000, true) }
    c06_millis_pos [4] { fine!(Milliseconds, 1_000, 1_000_000) }
    c06_millis_neg [4] { fine_neg!(Milliseconds, 1_000, 1_000_000, false) }
    c06_millis_neg_carry [4] { fine_neg!(Milliseconds, 1_000, 1_000_000, true) }
    c06_secs_pos [4] { coarse_secs!(false) }
    c06_secs_neg [4] { coarse_secs!(true) }
    c06_minutes_pos [4] { coarse!(Minutes, 60, false) }
    c06_minutes_neg [4] { coarse!(Minutes, 60, true) }
    c06_hours_pos [4] { coarse!(Hours, 3_600, false) }
    c06_hours_neg [4] { coarse!(Hours, 3_600, true) }
    c06_to_secs [4] { to_dur!(Seconds, i64, 1) }
    c06_to_minutes [4] { to_dur!(Minutes, i32, 60) }
    c06_to_hours [4] { to_dur!(Hours, i32, 60 60) }
    #[cfg(feature = "deep")]
    c06_to_days [4] { to_dur!(Days, i32, 24 60 60) }
    c06_add [4] { let (n1, n2, a, b) = (any::<bool>(), any::<bool>(), dur(), dur());
        let sg = |neg: bool, d: Duration| if neg { (-(d.as_secs() as i128), -(d.subsec_nanos() as i64)) } else { (d.as_secs() as i128, d.subsec_nanos() as i64) };
        // (seconds, nanos) with nanos in [0, 1e9)
        let norm = |(s, n): (i128, i64)| if n < -1_000_000_000 { (s - 2, n + 2_000_000_000) } else if n < 0 { (s - 1, n + 1_000_000_000) } else if n >= 1_000_000_000 { (s + 1, n - 1_000_000_000) } else { (s, n) };
        let (x, y) = (sg(n1, a), sg(n2, b)); let want = norm((x.0 + y.0, x.1 + y.1));
        match signed(n1, a).checked_add(signed(n2, b)) { Some(SignedDuration::Positive(d)) => assert!(norm(sg(false, d)) == want, "sum"), Some(SignedDuration::Negative(d)) => assert!(norm(sg(true, d)) == want, "sum"), None => assert!(want.0 > u64::MAX as i128 || want.0 < -(u64::MAX as i128), "representable sum rejected") } }
    c06_std_negative [4] { let r: i64 = any(); match Duration::try_from(LimitedResolutionDuration::<Seconds>::new(r)) { Ok(d) => assert!(r >= 0 && d.as_secs() as i64 == r), Err(e) => { std::mem::forget(e); assert!(r < 0) } } }
    c06_sys_secs_unix [4] { sys!(Seconds, UnixEpoch) }
    c06_sys_secs_bonsai [4] { sys!(Seconds, BonsaiEpoch) }
    c06_back_secs_unix [4] { back!(Seconds, i64, UnixEpoch) }
    c06_back_secs_bonsai [4] { back!(Seconds, i64, BonsaiEpoch) }
    c06_back_days_bonsai [4] { back!(Days, i32, BonsaiEpoch) }
    c06_key_i32 [8] { let v = LimitedResolutionDuration::<Minutes>::new(any()); round_trip(&v); }
    #[cfg(feature = "deep")]
    c06_key_i64 [12] { let v = LimitedResolutionTimestamp::<Milliseconds, BonsaiEpoch>::from_representation(any()); round_trip(&v); }
    #[cfg(feature = "deep")]
    c06_key_ord_i32 [8] { let (a, b) = (LimitedResolutionTimestamp::<Days, UnixEpoch>::from_representation(any()), LimitedResolutionTimestamp::<Days, UnixEpoch>::from_representation(any())); ordered(&a, &b); assert!(a.cmp(&b) == a.representation().cmp(&b.representation())); }
    #[cfg(feature = "deep")]
    c06_key_ord_i64 [12] { let (a, b) = (LimitedResolutionDuration::<Microseconds>::new(any()), LimitedResolutionDuration::<Microseconds>::new(any())); ordered(&a, &b); }
    c06_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}

/// 64/128-bit division by large constants: beyond the SAT back end at quick-tier
/// limits, attempted in the thorough tier (feature `deep`); the same contracts
/// are proved by Verus (see lib/verus_stage.py) and run bounded below.
#[cfg(any(feature = "deep", not(kani)))]
pub mod deep {
    use super::*;
    harnesses! {
        c06_days_pos [4] { coarse!(Days, 86_400, false) }
        c06_days_neg [4] { coarse!(Days, 86_400, true) }
        c06_weeks_pos [4] { coarse!(Weeks, 604_800, false) }
        c06_weeks_neg [4] { coarse!(Weeks, 604_800, true) }
        c06_to_weeks [4] { to_dur!(Weeks, i32, 7 24 60 60) }
        c06_to_nanos [4] { to_dur_fine!(Nanoseconds, 1_000_000_000, 1) }
        c06_to_micros [4] { to_dur_fine!(Microseconds, 1_000_000, 1_000) }
        c06_to_millis [4] { to_dur_fine!(Milliseconds, 1_000, 1_000_000) }
    }
}

#[cfg(not(kani))]
fn res<R: TimeResolution>(unit: i128, min: i128, max: i128, to: fn(R::Representation) -> i128, from: fn(i128) -> R::Representation) {
    // conversion
    let neg = any(); let d = if any() { dur() } else { let k = any::<u64>() >> below(64); let k = (k as i128 * unit + [0, 1, -1][below(3)]).clamp(0, total(false, Duration::MAX)); Duration::new((k / 1_000_000_000) as u64, (k % 1_000_000_000) as u32) };
    let want = total(neg, d).div_euclid(unit);
    match LimitedResolutionDuration::<R>::try_from(signed(neg, d)) { Ok(v) => assert!(to(v.representation()) == want, "truncated towards the past"), Err(_) => assert!(want < min || want > max, "representable value rejected") }
    // representation round trip, both epochs
    let r = (any::<i64>() as i128 >> below(64)).clamp(min, max);
    let v = LimitedResolutionDuration::<R>::new(from(r));
    match SignedDuration::try_from(v) { Ok(s) => { match s { SignedDuration::Positive(d) => assert!(total(false, d) == r * unit), SignedDuration::Negative(d) => assert!(total(true, d) == r * unit) } assert!(to(LimitedResolutionDuration::<R>::try_from(s).unwrap().representation()) == r, "representation survives") } Err(_) => panic!("every representation has a duration") }
    ts::<R, UnixEpoch>(r, unit, to, from); ts::<R, BonsaiEpoch>(r, unit, to, from);
    round_trip(&v);
}
#[cfg(not(kani))]
fn ts<R: TimeResolution, E: TimeEpoch>(r: i128, unit: i128, to: fn(R::Representation) -> i128, from: fn(i128) -> R::Representation) {
    let t = LimitedResolutionTimestamp::<R, E>::from_representation(from(r));
    if let Ok(s) = SystemTime::try_from(t) { let b = LimitedResolutionTimestamp::<R, E>::try_from(s).unwrap(); assert!(b == t, "timestamp survives SystemTime"); }
    let abs = total(false, E::epoch_offset()) + r * unit;
    match t.duration_since_unix_epoch() { Ok(d) => { assert!(total(false, d) == abs);
            let text = t.to_timestamp_string().unwrap(); let p: LimitedResolutionTimestamp<R, E> = text.parse().unwrap(); assert!(p == t, "timestamp text parses back: {text}"); assert!(t.to_string() == text);
            // An instant printed at full precision parses to the same truncated value.
            let n = LimitedResolutionTimestamp::<Nanoseconds, E>::try_from(UNIX_EPOCH + Duration::from_secs(d.as_secs() % (1 << 33)) + Duration::from_nanos(any::<u64>() % 1_000_000_000));
            if let Ok(n) = n { let text = n.to_timestamp_string().unwrap(); let want = LimitedResolutionTimestamp::<R, E>::try_from(SystemTime::try_from(n).unwrap()); match (text.parse::<LimitedResolutionTimestamp<R, E>>(), want) { (Ok(a), Ok(b)) => assert!(a == b, "parsed {text}"), (Err(_), Err(_)) => {} _ => panic!("parse {text}") } } }
        Err(_) => assert!(abs < 0 || abs > total(false, Duration::MAX)) }
    round_trip(&t);
    let o = LimitedResolutionTimestamp::<Seconds, UnixEpoch>::from_representation(any::<i64>() >> below(64));
    if let (Ok(a), Ok(b)) = (t.duration_since_unix_epoch(), o.duration_since_unix_epoch()) { assert!(t.duration_since(&o).unwrap() == a.checked_sub(b)); assert!(t.duration_between(&o).unwrap() == if a < b { b - a } else { a - b }); }
    let _ = to;
}
bounded! {
    c06_b_fine [20000] { const I: (i128, i128) = (i64::MIN as i128, i64::MAX as i128); res::<Nanoseconds>(1, I.0, I.1, |r| r as i128, |r| r as i64); res::<Microseconds>(1_000, I.0, I.1, |r| r as i128, |r| r as i64); res::<Milliseconds>(1_000_000, I.0, I.1, |r| r as i128, |r| r as i64); res::<Seconds>(1_000_000_000, I.0, I.1, |r| r as i128, |r| r as i64); }
    c06_b_coarse [20000] { const I: (i128, i128) = (i32::MIN as i128, i32::MAX as i128); res::<Minutes>(60_000_000_000, I.0, I.1, |r| r as i128, |r| r as i32); res::<Hours>(3_600_000_000_000, I.0, I.1, |r| r as i128, |r| r as i32); res::<Days>(86_400_000_000_000, I.0, I.1, |r| r as i128, |r| r as i32); res::<Weeks>(604_800_000_000_000, I.0, I.1, |r| r as i128, |r| r as i32); }
    c06_b_sum [20000] { let v: Vec<i64> = (0..below(5)).map(|_| any::<i64>() >> below(64)).collect(); let want = v.iter().map(|x| *x as i128).sum::<i128>(); let mut partial = 0i128; let fits = v.iter().all(|x| { partial += *x as i128; true });
        match v.iter().map(|x| LimitedResolutionDuration::<Milliseconds>::new(*x)).sum::<Option<LimitedResolutionDuration<Milliseconds>>>() { Some(s) => assert!(s.representation() as i128 == want), None => assert!(v.is_empty() || !fits || i64::try_from(want).is_err()) } }
}
