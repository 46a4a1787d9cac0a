//! C13: key-value commands act on exactly their key and report what they did.
use bonsaidb_local::config::*;
use bonsaidb_local::core::keyvalue::*;
use bonsaidb_local::verify::keyvalue as kv;
use bonsaidb_local::verify::*;
use crate::world::*;
use sym::*;
#[cfg(not(kani))]
use parking_lot::Mutex;
#[cfg(not(kani))]
use std::sync::Arc;

/// Documented arithmetic of increment/decrement, on mathematical integers.
fn wide(n: &Numeric) -> i128 {
    match n {
        Numeric::Integer(i) => *i as i128,
        Numeric::UnsignedInteger(u) => *u as i128,
        Numeric::Float(_) => unreachable!(),
    }
}
fn clamp(v: i128, lo: i128, hi: i128) -> i128 { if v < lo { lo } else if v > hi { hi } else { v } }
fn wrap(v: i128, lo: i128, hi: i128) -> i128 { let m = hi - lo + 1; let mut r = v; let mut i = 0; while i < 2 { if r < lo { r += m } else if r > hi { r -= m } i += 1; } r }

/// `existing` in the range of the amount's type, then the operation, each step
/// saturating or wrapping as requested.
fn spec(existing: &Numeric, amount: &Numeric, saturating: bool, sign: i128) -> i128 {
    let (lo, hi) = if matches!(amount, Numeric::Integer(_)) { (i64::MIN as i128, i64::MAX as i128) } else { (0, u64::MAX as i128) };
    let fit = |v| if saturating { clamp(v, lo, hi) } else { wrap(v, lo, hi) };
    fit(fit(wide(existing)) + sign * wide(amount))
}
fn number() -> Numeric { if any() { Numeric::Integer(any()) } else { Numeric::UnsignedInteger(any()) } }
fn f() -> f64 { f64::from_bits(any()) }

fn command(value: Value, expiration: Option<Timestamp>, keep: bool, check: Option<KeyCheck>, ret: bool) -> SetCommand {
    SetCommand { value, expiration, keep_existing_expiration: keep, check, return_previous_value: ret }
}
fn uint(v: u64) -> Value { Value::Numeric(Numeric::UnsignedInteger(v)) }
fn unsigned(v: &Option<Value>) -> Option<u64> { match v { Some(Value::Numeric(Numeric::UnsignedInteger(u))) => Some(*u), None => None, _ => unreachable!() } }

/// Set, for one prior location of the key. `c`: 0 unconditional, 1 only if
/// present, 2 only if vacant.
fn set(loc: u8, c: u8, keep: bool, ret: bool) {
    let mut w = World::any(loc, false);
    let (value, exp) = (any::<u64>(), time_opt());
    let check = match c { 0 => None, 1 => Some(KeyCheck::OnlyIfPresent), _ => Some(KeyCheck::OnlyIfVacant) };
    let old = w.live();
    let now = w.now;
    let out = kv::execute_set_operation(&mut w.s, None, "a", command(uint(value), exp, keep, check, ret), now);
    let updating = match c { 0 => true, 1 => old.is_some(), _ => old.is_none() };
    match &out {
        Ok(Output::Status(s)) if !updating => assert!(*s == KeyStatus::NotChanged, "check failed"),
        Ok(Output::Value(v)) if updating && ret => assert!(unsigned(v) == old.map(|o| o.0), "previous value returned"),
        Ok(Output::Status(s)) if updating && !ret => assert!(*s == if old.is_some() { KeyStatus::Updated } else { KeyStatus::Inserted }, "status"),
        _ => assert!(false, "set: wrong kind of result"),
    }
    let new = if updating { Some((value, match old { Some(o) if keep => o.1, _ => exp })) } else { old };
    w.check(new);
    std::mem::forget(out);
    w.done();
}
fn get(loc: u8, delete: bool) {
    let mut w = World::any(loc, false);
    let old = w.live();
    let out = kv::execute_get_operation(&mut w.s, None, "a", delete);
    match &out { Ok(Output::Value(v)) => assert!(unsigned(v) == old.map(|o| o.0), "value returned"), _ => assert!(false, "get: wrong kind of result") }
    w.check(if delete { None } else { old });
    std::mem::forget(out);
    w.done();
}
fn delete(loc: u8) {
    let mut w = World::any(loc, false);
    let old = w.live();
    let out = kv::execute_delete_operation(&mut w.s, None, "a");
    match &out { Ok(Output::Status(s)) => assert!(*s == if old.is_some() { KeyStatus::Deleted } else { KeyStatus::NotChanged }, "status"), _ => assert!(false, "delete: wrong kind of result") }
    w.check(None);
    std::mem::forget(out);
    w.done();
}
fn number_op(loc: u8, decrement: bool) {
    let mut w = World::any(loc, false);
    let (amount, saturating) = (any::<u64>(), any::<bool>());
    let old = w.live();
    let now = w.now;
    let a = Numeric::UnsignedInteger(amount);
    let out = if decrement { kv::execute_decrement_operation(&mut w.s, None, "a", &a, saturating, now) } else { kv::execute_increment_operation(&mut w.s, None, "a", &a, saturating, now) };
    let base = old.map_or(0, |o| o.0);
    let new = match (decrement, saturating) { (false, false) => base.wrapping_add(amount), (false, true) => base.saturating_add(amount), (true, false) => base.wrapping_sub(amount), (true, true) => base.saturating_sub(amount) };
    match &out { Ok(Output::Value(v)) => assert!(unsigned(v) == Some(new), "new value returned"), _ => assert!(false, "increment: wrong kind of result") }
    w.check(Some((new, old.and_then(|o| o.1))));
    std::mem::forget(out);
    w.done();
}

/// perform_kv_operation: due keys go first, then exactly the command given is
/// executed, then changes are committed if needed and the worker retargeted.
#[cfg(kani)]
mod dispatch {
    use super::*;
    use bonsaidb_local::core::Error;
    use parking_lot::Mutex;
    use std::sync::Arc;
    pub static mut STEP: usize = 0;
    pub static mut WHICH: usize = 0;
    pub static mut FAIL: bool = false;
    pub static mut NEEDED: bool = false;
    pub static mut AMOUNT: u64 = 0;
    pub static mut FLAG: bool = false;
    pub static mut EXPIRES: Option<Timestamp> = None;
    pub static mut COMMITS: usize = 0;
    pub static mut RETARGETED: usize = 0;
    pub fn expire(_s: &mut KeyValueState, now: Timestamp) { assert!(now == unsafe { contract::NOW }, "keys expire at the time of the command"); unsafe { assert!(STEP == 0, "due keys go first"); STEP = 1; } }
    fn ran(which: usize, ns: Option<&str>, key: &str) -> Result<Output, Error> {
        unsafe {
            assert!(STEP == 1, "one command after removing due keys");
            STEP = 2;
            assert!(WHICH == which, "another command was executed");
            assert!(matches!(ns, Some(n) if n.len() == 2) && key.len() == 1, "on another key");
            if FAIL { Err(Error::NotANumber) } else { Ok(Output::Value(Some(uint(AMOUNT)))) }
        }
    }
    pub fn set(_s: &mut KeyValueState, ns: Option<&str>, key: &str, set: SetCommand, now: Timestamp) -> Result<Output, Error> {
        unsafe {
            assert!(now == contract::NOW && set.expiration == EXPIRES && set.keep_existing_expiration == FLAG && set.return_previous_value != FLAG, "set command changed");
            assert!(matches!(set.check, Some(KeyCheck::OnlyIfVacant)) && matches!(set.value, Value::Numeric(Numeric::UnsignedInteger(v)) if v == AMOUNT), "set command changed");
        }
        std::mem::forget(set);
        ran(0, ns, key)
    }
    pub fn get(_s: &mut KeyValueState, ns: Option<&str>, key: &str, delete: bool) -> Result<Output, Error> { assert!(delete == unsafe { FLAG }, "delete flag"); ran(1, ns, key) }
    pub fn delete(_s: &mut KeyValueState, ns: Option<&str>, key: &str) -> Result<Output, Error> { ran(2, ns, key) }
    fn number(which: usize, ns: Option<&str>, key: &str, amount: &Numeric, saturating: bool, now: Timestamp) -> Result<Output, Error> {
        unsafe { assert!(now == contract::NOW && saturating == FLAG && matches!(amount, Numeric::UnsignedInteger(v) if *v == AMOUNT), "command changed"); }
        ran(which, ns, key)
    }
    pub fn increment(_s: &mut KeyValueState, ns: Option<&str>, key: &str, amount: &Numeric, saturating: bool, now: Timestamp) -> Result<Output, Error> { number(3, ns, key, amount, saturating, now) }
    pub fn decrement(_s: &mut KeyValueState, ns: Option<&str>, key: &str, amount: &Numeric, saturating: bool, now: Timestamp) -> Result<Output, Error> { number(4, ns, key, amount, saturating, now) }
    pub fn needs_commit(_s: &mut KeyValueState, now: Timestamp) -> bool { unsafe { assert!(STEP == 2 && now == contract::NOW, "commit decided after the command"); NEEDED } }
    pub fn commit(_s: &mut KeyValueState, _state: &Arc<Mutex<KeyValueState>>) -> bool { unsafe { COMMITS += 1; } true }
    pub fn retarget(_s: &mut KeyValueState) { unsafe { assert!(STEP == 2, "worker retargeted after the command"); RETARGETED += 1; } }
    pub fn run(which: usize) {
        let mut s = state();
        unsafe { contract::NOW = time(); WHICH = which; FAIL = any(); NEEDED = any(); AMOUNT = any(); FLAG = any(); EXPIRES = time_opt(); }
        let (amount, flag) = unsafe { (Numeric::UnsignedInteger(AMOUNT), FLAG) };
        let c = match which {
            0 => Command::Set(command(uint(unsafe { AMOUNT }), unsafe { EXPIRES }, flag, Some(KeyCheck::OnlyIfVacant), !flag)),
            1 => Command::Get { delete: flag },
            2 => Command::Delete,
            3 => Command::Increment { amount, saturating: flag },
            _ => Command::Decrement { amount, saturating: flag },
        };
        // Only handed on to the persisting thread.
        let none: std::mem::ManuallyDrop<Arc<Mutex<KeyValueState>>> = unsafe { std::mem::transmute(std::ptr::NonNull::<u64>::dangling()) };
        let out = s.perform_kv_operation(KeyOperation { namespace: Some(String::from("ns")), key: String::from("k"), command: c }, &none);
        unsafe {
            assert!(STEP == 2, "the command was executed");
            match &out { Ok(o) => assert!(!FAIL && matches!(o, Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(v)))) if *v == AMOUNT), "result"), Err(_) => assert!(FAIL, "result") }
            assert!(COMMITS == (!FAIL && NEEDED) as usize, "committed when needed");
            assert!(FAIL || RETARGETED == 1, "worker retargeted");
        }
        std::mem::forget((s, out));
    }
}
#[cfg(not(kani))]
mod dispatch { pub fn run(_which: usize) { super::history(true); } }

macro_rules! world { (stubbed { $($n:ident $b:block)* } plain { $($rest:tt)* }) => { harnesses! {
    $(
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::retrieve_key_from_disk, contract::disk)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, contract::retarget)]
    #[kani::stub(bonsaidb_local::database::keyvalue::full_key, contract::full_key)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_key_expiration, contract::track)]
    #[kani::stub(<bonsaidb_local::core::Error as std::convert::From<bonsaidb_local::Error>>::from, contract::convert)]
    #[kani::stub(<std::string::String as std::cmp::Ord>::cmp, contract::string_order)]
    #[kani::stub(<str as std::cmp::Ord>::cmp, contract::str_order)]
    $n [16] $b
    )*
    $($rest)*
} } }
world! {
    stubbed {
        c13_get_0 { get(0, false) }
        c13_set_0_0ev { set(0, 0, false, true) }
        c13_add_0 { number_op(0, false) }
        c13_set_2_2ks { set(2, 2, true, false) }
        c13_set_3_0kv { set(3, 0, true, true) }
        c13_set_1_1ks { set(1, 1, true, false) }
        c13_delete_2 { delete(2) }
        c13_get_3 { get(3, false) }
        c13_take_3 { get(3, true) }
        c13_delete_4 { delete(4) }
        c13_set_5_0es { set(5, 0, false, false) }
        c13_take_5 { get(5, true) }
    }
    plain {
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::remove_expired_keys, dispatch::expire)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_set_operation, dispatch::set)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_get_operation, dispatch::get)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_delete_operation, dispatch::delete)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_increment_operation, dispatch::increment)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_decrement_operation, dispatch::decrement)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::needs_commit, dispatch::needs_commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::commit_dirty_keys, dispatch::commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, dispatch::retarget)]
    c13_dispatch_set [8] { dispatch::run(0) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::remove_expired_keys, dispatch::expire)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_set_operation, dispatch::set)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_get_operation, dispatch::get)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_delete_operation, dispatch::delete)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_increment_operation, dispatch::increment)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_decrement_operation, dispatch::decrement)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::needs_commit, dispatch::needs_commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::commit_dirty_keys, dispatch::commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, dispatch::retarget)]
    c13_dispatch_get [8] { dispatch::run(1) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::remove_expired_keys, dispatch::expire)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_set_operation, dispatch::set)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_get_operation, dispatch::get)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_delete_operation, dispatch::delete)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_increment_operation, dispatch::increment)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_decrement_operation, dispatch::decrement)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::needs_commit, dispatch::needs_commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::commit_dirty_keys, dispatch::commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, dispatch::retarget)]
    c13_dispatch_delete [8] { dispatch::run(2) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::remove_expired_keys, dispatch::expire)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_set_operation, dispatch::set)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_get_operation, dispatch::get)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_delete_operation, dispatch::delete)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_increment_operation, dispatch::increment)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_decrement_operation, dispatch::decrement)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::needs_commit, dispatch::needs_commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::commit_dirty_keys, dispatch::commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, dispatch::retarget)]
    c13_dispatch_increment [8] { dispatch::run(3) }
    #[kani::stub(bonsaidb_local::core::keyvalue::Timestamp::now, contract::now)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::remove_expired_keys, dispatch::expire)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_set_operation, dispatch::set)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_get_operation, dispatch::get)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_delete_operation, dispatch::delete)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_increment_operation, dispatch::increment)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::execute_decrement_operation, dispatch::decrement)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::needs_commit, dispatch::needs_commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::commit_dirty_keys, dispatch::commit)]
    #[kani::stub(bonsaidb_local::database::keyvalue::KeyValueState::update_background_worker_target, dispatch::retarget)]
    c13_dispatch_decrement [8] { dispatch::run(4) }
    c13_increment [4] { let (e, a, s) = (number(), number(), any()); let r = kv::increment(&e, &a, s); assert!(matches!(r, Numeric::Integer(_)) == matches!(a, Numeric::Integer(_)), "keeps the amount's type"); assert!(wide(&r) == spec(&e, &a, s, 1), "sum"); }
    c13_decrement [4] { let (e, a, s) = (number(), number(), any()); let r = kv::decrement(&e, &a, s); assert!(matches!(r, Numeric::Integer(_)) == matches!(a, Numeric::Integer(_)), "keeps the amount's type"); assert!(wide(&r) == spec(&e, &a, s, -1), "difference"); }
    }
}
/// The remaining combinations, in the thorough tier.
#[cfg(any(feature = "deep", not(kani)))]
pub mod deep {
    use super::*;
    world! { stubbed {
        c13_take_1 { get(1, true) }
        c13_sub_3 { number_op(3, true) }
        c13_set_4_1kv { set(4, 1, true, true) }
        c13_set_5_1ev { set(5, 1, false, true) }
        c13_get_1 { get(1, false) }
        c13_add_5 { number_op(5, false) }
        c13_delete_5 { delete(5) }
        c13_set_0_0es { set(0, 0, false, false) }
        c13_set_0_0ks { set(0, 0, true, false) }
        c13_set_0_0kv { set(0, 0, true, true) }
        c13_set_0_1es { set(0, 1, false, false) }
        c13_set_0_1ev { set(0, 1, false, true) }
        c13_set_0_1ks { set(0, 1, true, false) }
        c13_set_0_1kv { set(0, 1, true, true) }
        c13_set_0_2es { set(0, 2, false, false) }
        c13_set_0_2ev { set(0, 2, false, true) }
        c13_set_0_2ks { set(0, 2, true, false) }
        c13_set_0_2kv { set(0, 2, true, true) }
        c13_take_0 { get(0, true) }
        c13_delete_0 { delete(0) }
        c13_sub_0 { number_op(0, true) }
        c13_set_1_0es { set(1, 0, false, false) }
        c13_set_1_0ev { set(1, 0, false, true) }
        c13_set_1_0ks { set(1, 0, true, false) }
        c13_set_1_0kv { set(1, 0, true, true) }
        c13_set_1_1es { set(1, 1, false, false) }
        c13_set_1_1ev { set(1, 1, false, true) }
        c13_set_1_1kv { set(1, 1, true, true) }
        c13_set_1_2es { set(1, 2, false, false) }
        c13_set_1_2ev { set(1, 2, false, true) }
        c13_set_1_2ks { set(1, 2, true, false) }
        c13_set_1_2kv { set(1, 2, true, true) }
        c13_delete_1 { delete(1) }
        c13_add_1 { number_op(1, false) }
        c13_sub_1 { number_op(1, true) }
        c13_set_2_0es { set(2, 0, false, false) }
        c13_set_2_0ev { set(2, 0, false, true) }
        c13_set_2_0ks { set(2, 0, true, false) }
        c13_set_2_0kv { set(2, 0, true, true) }
        c13_set_2_1es { set(2, 1, false, false) }
        c13_set_2_1ev { set(2, 1, false, true) }
        c13_set_2_1ks { set(2, 1, true, false) }
        c13_set_2_1kv { set(2, 1, true, true) }
        c13_set_2_2es { set(2, 2, false, false) }
        c13_set_2_2ev { set(2, 2, false, true) }
        c13_set_2_2kv { set(2, 2, true, true) }
        c13_get_2 { get(2, false) }
        c13_take_2 { get(2, true) }
        c13_add_2 { number_op(2, false) }
        c13_sub_2 { number_op(2, true) }
        c13_set_3_0es { set(3, 0, false, false) }
        c13_set_3_0ev { set(3, 0, false, true) }
        c13_set_3_0ks { set(3, 0, true, false) }
        c13_set_3_1es { set(3, 1, false, false) }
        c13_set_3_1ev { set(3, 1, false, true) }
        c13_set_3_1ks { set(3, 1, true, false) }
        c13_set_3_1kv { set(3, 1, true, true) }
        c13_set_3_2es { set(3, 2, false, false) }
        c13_set_3_2ev { set(3, 2, false, true) }
        c13_set_3_2ks { set(3, 2, true, false) }
        c13_set_3_2kv { set(3, 2, true, true) }
        c13_delete_3 { delete(3) }
        c13_add_3 { number_op(3, false) }
        c13_set_4_0es { set(4, 0, false, false) }
        c13_set_4_0ev { set(4, 0, false, true) }
        c13_set_4_0ks { set(4, 0, true, false) }
        c13_set_4_0kv { set(4, 0, true, true) }
        c13_set_4_1es { set(4, 1, false, false) }
        c13_set_4_1ev { set(4, 1, false, true) }
        c13_set_4_1ks { set(4, 1, true, false) }
        c13_set_4_2es { set(4, 2, false, false) }
        c13_set_4_2ev { set(4, 2, false, true) }
        c13_set_4_2ks { set(4, 2, true, false) }
        c13_set_4_2kv { set(4, 2, true, true) }
        c13_get_4 { get(4, false) }
        c13_take_4 { get(4, true) }
        c13_add_4 { number_op(4, false) }
        c13_sub_4 { number_op(4, true) }
        c13_set_5_0ev { set(5, 0, false, true) }
        c13_set_5_0ks { set(5, 0, true, false) }
        c13_set_5_0kv { set(5, 0, true, true) }
        c13_set_5_1es { set(5, 1, false, false) }
        c13_set_5_1ks { set(5, 1, true, false) }
        c13_set_5_1kv { set(5, 1, true, true) }
        c13_set_5_2es { set(5, 2, false, false) }
        c13_set_5_2ev { set(5, 2, false, true) }
        c13_set_5_2ks { set(5, 2, true, false) }
        c13_set_5_2kv { set(5, 2, true, true) }
        c13_get_5 { get(5, false) }
        c13_sub_5 { number_op(5, true) }
    } plain {} }
}
#[cfg(not(kani))]
fn history(past: bool) {
    use crate::history::*;
    let mut h = History::new(Store(Arc::new(Mutex::new(state()))));
    for _ in 0..60 { if below(6) == 0 { h.persist_step(); } else { h.step(past); } }
}
bounded! {
    c13_history [3000] { history(false) }
    c13_history_expiring [3000] { history(true) }
    c13_full_key [20000] {
        // The separator is reserved; the empty namespace is none.
        let text = |n| chars(n).replace('\0', "");
        let (ns, key) = (Some(text(below(4))).filter(|n| !n.is_empty()), text(below(5)));
        let full = kv::full_key(ns.as_deref(), &key);
        assert!(full == format!("{}\0{key}", ns.as_deref().unwrap_or("")), "full key");
        assert!(kv::split_key(&full) == Some((ns, key)), "split key");
    }
}
