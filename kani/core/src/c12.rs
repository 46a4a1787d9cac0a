//! C12: revisions: the next revision exists exactly when contents change, and
//! advances the id by one.
use crate::util::*;
use bonsaidb_core::document::Revision;
use sym::*;

/// SHA-256 as an arbitrary deterministic function of (length, bytes): distinct
/// inputs may collide, as far as this contract says.
#[cfg(kani)]
mod contract {
    pub fn digest(payload: &[u8]) -> [u8; 32] {
        let mut d = [0; 32];
        let mut i = 0;
        while i < payload.len() { d[i] = payload[i] & 0x7f; i += 1; }
        d[31] = payload.len() as u8;
        d
    }
}

harnesses! {
    #[kani::stub(bonsaidb_core::document::revision::digest, contract::digest)]
    c12_next [34] { let id: u32 = any(); assume(id < u32::MAX); let (a, b) = (arr::<2>(), arr::<2>());
        let r = Revision::with_id(id, &a); assert!(r.id == id); let d = Revision::new(&b); assert!(d.id == 0);
        match r.next_revision(&b) { Some(n) => { assert!(n.id == id + 1, "ids advance by one"); assert!(n.sha256 == d.sha256, "digest of the new contents"); assert!(n.sha256 != r.sha256, "only when contents changed"); } None => assert!(d.sha256 == r.sha256, "changed contents always get a new revision") } }
    c12_reach [4] { reach!(any::<u8>() == 7, "inputs are unconstrained"); }
}
#[cfg(not(kani))]
fn sha(b: &[u8]) -> [u8; 32] { use sha2::Digest; let mut h = sha2::Sha256::new(); for c in b.chunks(61) { h.update(c); } h.finalize().into() }
bounded! {
    // Contents around every block size up to 4 MiB, changed in one place.
    c12_b_large [150] { let n = (1usize << (7 + below(16))) + below(200) - 100; let mut a = noise(64); while a.len() < n { let k = a.len().min(n - a.len()); let c = a[..k].to_vec(); a.extend_from_slice(&c); } let mut b = a.clone();
        let r = Revision::new(&a); assert!(r.sha256 == sha(&a)); assert!(r.next_revision(&b).is_none()); let i = match below(4) { 0 => n - 1, 1 => 0, _ => below(n) }; if n > 0 { b[i] ^= 1; assert!(r.next_revision(&b).unwrap().sha256 == sha(&b), "{n} bytes, {i} changed"); b.truncate(i); assert!(r.next_revision(&b).is_some()); } }
    c12_b_chain [6000] { let (a, mut b) = (noise(below(200)), noise(below(200))); if any() { b = a.clone(); if any() && !b.is_empty() { let i = below(b.len()); b[i] ^= 1 << below(8); } }
        let id = any::<u32>() >> 1; let r = Revision::with_id(id, &a); assert!(r.sha256 == sha(&a) && r.id == id); assert!(Revision::new(&a).id == 0);
        match r.next_revision(&b) { Some(n) => assert!(a != b && n.id == id + 1 && n.sha256 == sha(&b)), None => assert!(a == b) }
        let j: Revision = pot::from_slice(&pot::to_vec(&r).unwrap()).unwrap(); assert!(j == r); assert!(r.to_string() == format!("{}-{}", id, r.sha256.iter().map(|b| format!("{b:02x}")).collect::<String>())); }
}
