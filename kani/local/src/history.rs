//! Random histories of key-value operations on the real store, compared with
//! the documented meaning of each (native only).
use bonsaidb_local::core::async_trait::async_trait;
use bonsaidb_local::core::keyvalue::*;
use bonsaidb_local::core::Error;
use bonsaidb_local::verify::keyvalue as kv;
use bonsaidb_local::verify::*;
use futures::executor::block_on;
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, SystemTime};
use sym::*;

pub struct Store(pub Arc<Mutex<KeyValueState>>);
impl KeyValue for Store {
    fn execute_key_operation(&self, op: KeyOperation) -> Result<Output, Error> { self.0.lock().perform_kv_operation(op, &self.0) }
}
#[async_trait]
impl AsyncKeyValue for Store {
    async fn execute_key_operation(&self, op: KeyOperation) -> Result<Output, Error> { self.0.lock().perform_kv_operation(op, &self.0) }
}

pub type Model = BTreeMap<(&'static str, &'static str), (Value, Option<Timestamp>)>;
const NAMESPACES: [&str; 4] = ["", "n", "a", "ab"];
const KEYS: [&str; 5] = ["a", "b", "", "ab", "zeta"];

pub fn number() -> Numeric {
    match below(3) { 0 => Numeric::Integer(any()), 1 => Numeric::UnsignedInteger(any()), _ => Numeric::Float(if below(4) == 0 { f64::from_bits(any()) } else { any::<i32>() as f64 / 4. }) }
}
fn value() -> Value { if below(4) == 0 { Value::Bytes(noise(below(4)).into()) } else { Value::Numeric(number()) } }
fn expiration(past: bool) -> Option<SystemTime> {
    match below(4) {
        0 | 1 => None,
        2 if past => Some(SystemTime::UNIX_EPOCH + Duration::from_secs(1 + below(5) as u64)),
        _ => Some(SystemTime::now() + Duration::from_secs(3600 + below(1000) as u64)),
    }
}
pub fn full(ns: &str, key: &str) -> String { format!("{ns}\0{key}") }
/// Bitwise, so that signed zeros count.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Numeric(Numeric::Float(a)), Value::Numeric(Numeric::Float(b))) => a.to_bits() == b.to_bits(),
        (a, b) => a == b,
    }
}
fn same_opt(a: &Option<Value>, b: &Option<Value>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false } }
/// Documented arithmetic.
fn arithmetic(existing: &Numeric, amount: &Numeric, saturating: bool, minus: bool) -> Numeric {
    fn wide(n: &Numeric, i: bool, s: bool) -> i128 { if i { n.as_i64_lossy(s) as i128 } else { n.as_u64_lossy(s) as i128 } }
    match amount {
        Numeric::Float(a) => { let e = existing.as_f64_lossy(); Numeric::Float(if minus { e - a } else { e + a }) }
        a => {
            let i = matches!(a, Numeric::Integer(_));
            let (lo, hi) = if i { (i64::MIN as i128, i64::MAX as i128) } else { (0, u64::MAX as i128) };
            let (e, a) = (wide(existing, i, saturating), wide(a, i, saturating));
            let r = if minus { e - a } else { e + a };
            let r = if saturating { r.clamp(lo, hi) } else { (r - lo).rem_euclid(hi - lo + 1) + lo };
            if i { Numeric::Integer(r as i64) } else { Numeric::UnsignedInteger(r as u64) }
        }
    }
}

pub struct History { pub store: Store, pub model: Model, staged: Option<Arc<kv::Keys>> }
impl History {
    pub fn new(store: Store) -> Self { History { store, model: Model::new(), staged: None } }
    /// One random command; `past`: expirations may lie in the past.
    pub fn step(&mut self, past: bool) {
        self.model.retain(|_, v| v.1.map_or(true, |e| e > Timestamp::MIN + Duration::from_secs(1000)));
        let (ns, key) = (NAMESPACES[below(NAMESPACES.len())], KEYS[below(KEYS.len())]);
        let old = self.model.get(&(ns, key)).cloned();
        let old_value = old.as_ref().map(|o| o.0.clone());
        let style = below(3);
        macro_rules! api { ($k:ident => $sync:expr, $asynch:expr) => {
            match (style, ns.is_empty()) {
                (0, true) => { let $k = &self.store; block_on($asynch) }
                (0, false) => { let $k = &AsyncKeyValue::with_key_namespace(&self.store, ns); block_on($asynch) }
                (_, true) => { let $k = &self.store; $sync }
                (_, false) => { let $k = &KeyValue::with_key_namespace(&self.store, ns); $sync }
            }
        } }
        match below(8) {
            0 | 1 | 2 => {
                let (v, exp) = (value(), expiration(past));
                let (keep, check, ret) = (any::<bool>(), below(3), any::<bool>());
                macro_rules! set { ($b:expr, $x:ident => $fin:expr, $y:ident => $fin2:expr) => {{
                    let mut b = $b;
                    if let Some(t) = exp { b = b.expire_at(t); }
                    if keep { b = b.keep_existing_expiration(); }
                    match check { 1 => b = b.only_if_exists(), 2 => b = b.only_if_vacant(), _ => {} }
                    if ret { let $x = b; $fin.map(Output::Value) } else { let $y = b; $fin2.map(Output::Status) }
                }} }
                let out: Result<Output, Error> = api!(k => match &v {
                    Value::Bytes(x) => set!(KeyValue::set_binary_key(k, key, x), x => x.returning_previous(), y => y.execute()),
                    Value::Numeric(x) => set!(KeyValue::set_numeric_key(k, key, x.clone()), x => x.returning_previous(), y => y.execute()),
                }, async { match &v {
                    Value::Bytes(x) => set!(AsyncKeyValue::set_binary_key(k, key, x), x => x.returning_previous().await, y => y.await),
                    Value::Numeric(x) => set!(AsyncKeyValue::set_numeric_key(k, key, x.clone()), x => x.returning_previous().await, y => y.await),
                } });
                let nan = matches!(&v, Value::Numeric(Numeric::Float(f)) if f.is_nan());
                let updating = !nan && match check { 1 => old.is_some(), 2 => old.is_none(), _ => true };
                match &out {
                    Err(_) => assert!(nan, "set failed"),
                    Ok(_) if nan => panic!("stored a NaN"),
                    Ok(Output::Value(p)) => assert!(same_opt(p, if updating { &old_value } else { &None }), "set returned {p:?}, not the previous {old_value:?}"),
                    Ok(Output::Status(s)) => assert!(*s == if !updating { KeyStatus::NotChanged } else if old.is_some() { KeyStatus::Updated } else { KeyStatus::Inserted }, "set reported {s:?}"),
                }
                if updating {
                    let e = match &old { Some(o) if keep => o.1, _ => exp.map(Timestamp::from) };
                    self.model.insert((ns, key), (v, e));
                }
            }
            3 => {
                let got = api!(k => KeyValue::get_key(k, key).query(), AsyncKeyValue::get_key(k, key)).unwrap();
                assert!(same_opt(&got, &old_value), "get returned {got:?}, stored {old_value:?}");
            }
            4 => {
                let got = api!(k => KeyValue::get_key(k, key).and_delete().query(), AsyncKeyValue::get_key(k, key).and_delete()).unwrap();
                assert!(same_opt(&got, &old_value), "get and delete returned {got:?}, stored {old_value:?}");
                self.model.remove(&(ns, key));
            }
            5 => {
                let s = api!(k => KeyValue::delete_key(k, key), AsyncKeyValue::delete_key(k, key)).unwrap();
                assert!(s == if old.is_some() { KeyStatus::Deleted } else { KeyStatus::NotChanged }, "delete reported {s:?}");
                self.model.remove(&(ns, key));
            }
            op => {
                let (a, wrap, minus) = (number(), any::<bool>(), op == 6);
                if matches!(a, Numeric::Float(f) if f.is_nan()) { return; }
                let base = match &old { None => Numeric::UnsignedInteger(0), Some((Value::Numeric(n), _)) => n.clone(), Some(_) => {
                    let command = if minus { Command::Decrement { amount: a, saturating: !wrap } } else { Command::Increment { amount: a, saturating: !wrap } };
                    let r = KeyValue::execute_key_operation(&self.store, KeyOperation { namespace: (!ns.is_empty()).then(|| ns.to_string()), key: key.to_string(), command });
                    assert!(r.is_err(), "arithmetic on bytes");
                    self.check();
                    return;
                } };
                let want = arithmetic(&base, &a, !wrap, minus);
                macro_rules! by { ($t:ty, $v:expr) => {
                    if minus { api!(k => { let b = KeyValue::decrement_key_by::<_, $t>(k, key, $v); if wrap { b.allow_overflow().execute() } else { b.execute() } }, { let b = AsyncKeyValue::decrement_key_by::<_, $t>(k, key, $v); if wrap { b.allow_overflow() } else { b } }) }
                    else { api!(k => { let b = KeyValue::increment_key_by::<_, $t>(k, key, $v); if wrap { b.allow_overflow().execute() } else { b.execute() } }, { let b = AsyncKeyValue::increment_key_by::<_, $t>(k, key, $v); if wrap { b.allow_overflow() } else { b } }) }
                } }
                let got = match a { Numeric::Integer(v) => by!(i64, v).map(Numeric::Integer), Numeric::UnsignedInteger(v) => by!(u64, v).map(Numeric::UnsignedInteger), Numeric::Float(v) => by!(f64, v).map(Numeric::Float) };
                if matches!(want, Numeric::Float(f) if f.is_nan()) {
                    assert!(got.is_err(), "stored a NaN");
                } else {
                    let got = got.unwrap();
                    assert!(same(&Value::Numeric(got.clone()), &Value::Numeric(want.clone())), "arithmetic gave {got:?}, not {want:?}");
                    self.model.insert((ns, key), (Value::Numeric(want), old.and_then(|o| o.1)));
                }
            }
        }
        if !past { self.check(); }
    }
    /// Every key holds what the model says (as long as none is due).
    pub fn check(&mut self) {
        let s = self.store.0.lock();
        for ns in NAMESPACES { for key in KEYS {
            let got = kv::get(&s, &full(ns, key)).unwrap();
            match (&got, self.model.get(&(ns, key))) {
                (None, None) => {}
                (Some(g), Some(w)) => { assert!(same(&g.value, &w.0), "{ns:?}/{key:?} holds {:?}, not {:?}", g.value, w.0); assert!(g.expiration == w.1, "{ns:?}/{key:?} expires at {:?}, not {:?}", g.expiration, w.1); }
                (g, w) => panic!("{ns:?}/{key:?} holds {g:?}, not {w:?}"),
            }
        } }
    }
    /// Begins or finishes persisting.
    pub fn persist_step(&mut self) {
        match self.staged.take() {
            None => self.staged = kv::stage_dirty_keys(&mut self.store.0.lock()),
            Some(keys) => kv::persist_keys(&self.store.0, &keys).unwrap(),
        }
    }
    pub fn settle(&mut self) {
        if self.staged.is_some() { self.persist_step(); }
        self.persist_step();
        if self.staged.is_some() { self.persist_step(); }
    }
    /// Nothing is pending, and the disk holds exactly the model.
    pub fn check_disk(&mut self) {
        let mut s = self.store.0.lock();
        assert!(kv::dirty_keys(&mut s).is_empty() && kv::keys_being_persisted(&mut s).is_none(), "changes left in memory");
        for ns in NAMESPACES { for key in KEYS {
            let got = kv::read_from_disk(&s, &full(ns, key));
            match (&got, self.model.get(&(ns, key))) {
                (None, None) => {}
                (Some(g), Some(w)) => assert!(same(&g.value, &w.0) && g.expiration == w.1, "{ns:?}/{key:?}: {g:?} on disk, not {w:?}"),
                (g, w) => panic!("{ns:?}/{key:?}: {g:?} on disk, not {w:?}"),
            }
        } }
    }
    /// Expirations tracked are exactly those of the model, earliest first.
    pub fn check_tracking(&mut self) {
        let mut s = self.store.0.lock();
        let (map, order) = kv::expirations(&mut s);
        let want: BTreeMap<String, Timestamp> = self.model.iter().filter_map(|(k, v)| v.1.map(|e| (full(k.0, k.1), e))).collect();
        assert!(map.iter().map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>() == want, "tracked expirations are {map:?}, not {want:?}");
        assert!(order.len() == map.len() && order.iter().all(|k| map.contains_key(k)), "order of expirations names {order:?}, tracked are {map:?}");
        assert!(order.iter().zip(order.iter().skip(1)).all(|(a, b)| map[a] <= map[b] && a != b), "order of expirations not by time");
    }
}
