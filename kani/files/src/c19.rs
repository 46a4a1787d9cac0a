//! C19: a file reads back as exactly the bytes appended to it.
use bonsaidb_core::schema::{CollectionName, Qualified};
use bonsaidb_core::transaction::{Command, Transaction};
use bonsaidb_files::direct::verify::*;
use bonsaidb_files::direct::Contents;
use bonsaidb_files::{FileConfig, Truncate};
use std::io::{Seek, SeekFrom};
use sym::*;

pub struct Small;
impl FileConfig for Small {
    type Metadata = u32;
    const BLOCK_SIZE: usize = 7;
    fn files_name() -> CollectionName { CollectionName::new("small", "files") }
    fn blocks_name() -> CollectionName { CollectionName::new("small", "blocks") }
}

/// `n` blocks of arbitrary length, and a place in them (possibly at the end of
/// one block rather than the start of the next, and past the last block).
struct Blocks { lengths: [usize; 4], n: usize, block: usize, at: usize }
impl Blocks {
    fn any(n: usize, max: u64) -> Self {
        let mut lengths = [0usize; 4];
        let mut i = 0;
        while i < n {
            let l: u64 = any();
            assume(l >= 1 && l <= max);
            lengths[i] = l as usize;
            i += 1;
        }
        let block = below(n + 1);
        let at: usize = any();
        if block == n { assume(at == 0) } else { assume(at <= lengths[block]) }
        Blocks { lengths, n, block, at }
    }
    fn start(&self, block: usize) -> u64 {
        let mut t = 0;
        let mut i = 0;
        while i < block { t += self.lengths[i] as u64; i += 1; }
        t
    }
    fn total(&self) -> u64 { self.start(self.n) }
    fn contents(&self, buffer: usize) -> Contents<(), Small> {
        let mut infos = [(0usize, 0u64); 4];
        let mut i = 0;
        while i < self.n { infos[i] = (self.lengths[i], 10 + i as u64); i += 1; }
        let mut c = contents::<(), Small>((), &infos[..self.n], buffer);
        place(&mut c, self.block, self.at);
        c
    }
    fn position(&self, c: &Contents<(), Small>) -> u64 {
        let (block, at) = place_of(c);
        assert!(block <= self.n && (block == self.n && at == 0 || block < self.n && at <= self.lengths[block]), "place outside of the file");
        self.start(block) + at as u64
    }
}

/// seek: the exact target, clamped to the end; an error for negative targets.
fn seek(n: usize, kind: u8) {
    let b = Blocks::any(n, 1 << 40);
    let total = b.total();
    let mut c = b.contents(16);
    let before = b.position(&c);
    let by: u64 = any();
    let (pos, target) = match kind {
        0 => (SeekFrom::Start(by), by as i128),
        1 => (SeekFrom::End(by as i64), if (by as i64) < 0 { total as i128 + by as i64 as i128 } else { total as i128 }),
        _ => (SeekFrom::Current(by as i64), before as i128 + by as i64 as i128),
    };
    let r = c.seek(pos);
    if target < 0 {
        assert!(r.is_err(), "seek before the start");
        assert!(b.position(&c) == before, "failed seek moved");
        std::mem::forget(r);
    } else {
        let want = if target > total as i128 { total } else { target as u64 };
        match r {
            Ok(x) => assert!(x == want, "seek result"),
            Err(e) => { std::mem::forget(e); assert!(false, "seek failed") }
        }
        assert!(b.position(&c) == want, "position after seek");
    }
    assert!(c.len() == total, "length");
    std::mem::forget(c);
}
/// next_blocks: the current block and as many following ones as fit the buffer.
fn next(n: usize) {
    let b = Blocks::any(n, u32::MAX as u64);
    assume(b.block < n);
    let buffer: usize = any();
    let c = b.contents(buffer);
    let ids = next_blocks(&c);
    assert!(!ids.is_empty(), "no progress");
    assert!(b.block + ids.len() <= n, "blocks past the end");
    let mut size = 0u128;
    let mut i = 0;
    while i < ids.len() {
        assert!(ids[i] == 10 + (b.block + i) as u64, "blocks in order");
        size += b.lengths[b.block + i] as u128;
        i += 1;
    }
    assert!(ids.len() == 1 || size <= buffer as u128, "more than the buffer size requested");
    std::mem::forget(c);
}
/// The byte of the file at `i` of `block`.
fn byte(block: usize, i: usize) -> u8 { (block * 16 + i) as u8 }
/// A file with blocks first..first+count loaded, placed anywhere.
fn loaded(n: usize, first: usize, count: usize) -> (Blocks, Contents<(), Small>) {
    let b = Blocks::any(n, 2);
    let mut c = b.contents(16);
    let mut i = first;
    while i < first + count {
        let mut v = Vec::with_capacity(2);
        v.push(byte(i, 0));
        v.push(byte(i, 1));
        if b.lengths[i] == 1 { v.truncate(1); }
        load(&mut c, i, v);
        i += 1;
    }
    (b, c)
}
/// non_blocking_read delivers the bytes at the position, and moves by as many.
fn read_any(n: usize, first: usize, count: usize) {
    let (b, mut c) = loaded(n, first, count);
    let before = b.position(&c);
    let want = 1 + below(3);
    let mut buf = [0u8; 3];
    let r = read(&mut c, |x| {
        let k = if x.len() < want { x.len() } else { want };
        let mut i = 0;
        while i < k { buf[i] = x[i]; i += 1; }
        k
    });
    let after = b.position(&c);
    match r {
        Read::Bytes(k) => {
            assert!(k > 0 && k <= want, "number of bytes");
            assert!(after == before + k as u64, "position after read");
            // the bytes lie in one block
            let mut block = 0;
            while block < n && b.start(block + 1) <= before { block += 1; }
            let at = (before - b.start(block)) as usize;
            let mut i = 0;
            while i < k { assert!(at + i < b.lengths[block] && buf[i] == byte(block, at + i), "bytes read"); i += 1; }
        }
        Read::NeedBlocks => assert!(after == before && before <= b.total(), "position moved without reading"),
        Read::Eof => assert!(before == b.total() && after == before, "end of file before the end"),
    }
    std::mem::forget(c);
}
/// non_blocking_read_block delivers the rest of the current block.
fn read_block_any(n: usize, first: usize, count: usize) {
    let (b, mut c) = loaded(n, first, count);
    let before = b.position(&c);
    let (block, at) = (b.block, b.at);
    let r = read_block(&mut c);
    let after = b.position(&c);
    match r {
        Block::Bytes(v) => {
            assert!(block < n && v.len() == b.lengths[block] - at, "rest of the block");
            let mut i = 0;
            while i < v.len() { assert!(v[i] == byte(block, at + i), "bytes of the block"); i += 1; }
            assert!(after == before + v.len() as u64, "position after the block");
        }
        Block::NeedBlocks => assert!(after == before && block < n, "position moved without reading"),
        Block::Eof => assert!(before == b.total() && after == before, "end of file before the end"),
    }
    std::mem::forget(c);
}
/// A loaded current block is used rather than loaded again.
fn progress(n: usize, first: usize, count: usize) {
    let (b, mut c) = loaded(n, first, count);
    assume(b.block == first && b.at < b.lengths[b.block]);
    assert!(matches!(read(&mut c, |x| if x.is_empty() { 0 } else { 1 }), Read::Bytes(1)), "loaded bytes not delivered");
    std::mem::forget(c);
}
/// Truncation removes whole blocks from the requested side, never going below
/// the requested length, and as many as that allows.
fn truncate(n: usize, from: Truncate) {
    let b = Blocks::any(n, u32::MAX as u64);
    let mut infos = [(0usize, 0u64); 4];
    let mut i = 0;
    while i < n { infos[i] = (b.lengths[i], 10 + i as u64); i += 1; }
    let new_length: u64 = any();
    let tx = truncation::<Small>(&infos[..n], new_length, from);
    let mut remaining = b.total();
    let mut i = 0;
    while i < tx.operations.len() {
        let block = if matches!(from, Truncate::RemovingStart) { i } else { n - 1 - i };
        let op = &tx.operations[i];
        match &op.command {
            Command::Delete { header } => assert!(id_of(header.id.as_ref()) == 10 + block as u64, "removed the wrong block"),
            _ => assert!(false, "not a removal"),
        }
        remaining -= b.lengths[block] as u64;
        i += 1;
    }
    assert!(i == 0 || remaining >= new_length, "removed too much");
    if i < n {
        let next = if matches!(from, Truncate::RemovingStart) { i } else { n - 1 - i };
        assert!(remaining.checked_sub(b.lengths[next] as u64).map_or(true, |r| r < new_length), "removed too little");
    }
    std::mem::forget(tx);
}
fn id_of(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < b.len() { v = v << 8 | b[i] as u64; i += 1; }
    v
}

fn memcmp(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] { return if a[i] < b[i] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }; }
        i += 1;
    }
    a.len().cmp(&b.len())
}
fn member(k: &[u8], r: &(Vec<u8>, Vec<u8>)) -> bool { memcmp(&r.0, k).is_le() && memcmp(k, &r.1).is_lt() }
/// Any text of N single-byte characters without nul.
fn text<const N: usize>() -> [u8; N] {
    let a = arr::<N>();
    let mut i = 0;
    while i < N { assume(a[i] > 0 && a[i] < 128); i += 1; }
    a
}
fn str(a: &[u8]) -> &str {
    // SAFETY: single-byte characters only
    unsafe { std::str::from_utf8_unchecked(a) }
}
fn starts(a: &[u8], p: &[u8]) -> bool {
    if a.len() < p.len() { return false; }
    let mut i = 0;
    while i < p.len() { if a[i] != p[i] { return false; } i += 1; }
    true
}
/// A file is listed for a path exactly when that is its containing path; the
/// final slash of the path listed may be left out.
fn exact<const P: usize, const Q: usize>(slash: bool) {
    let (mut p, mut q, name) = (text::<P>(), text::<Q>(), text::<1>());
    p[P - 1] = b'/';
    if slash { q[Q - 1] = b'/' } else { assume(q[Q - 1] != b'/') }
    let key = full_key(str(&p), str(&name));
    let range = exact_range(str(&q));
    let same = if slash { P == Q && starts(&p, &q) } else { P == Q + 1 && starts(&p, &q) };
    assert!(member(&key, &range) == same, "listed exactly for its containing path");
    std::mem::forget((key, range));
}
/// A file is listed recursively exactly when its containing path starts with
/// the path.
fn recursive<const P: usize, const Q: usize>() {
    let (mut p, mut q, name) = (text::<P>(), text::<Q>(), text::<1>());
    p[P - 1] = b'/';
    q[Q - 1] = b'/';
    let key = full_key(str(&p), str(&name));
    let range = recursive_range(str(&q));
    assert!(member(&key, &range) == starts(&p, &q), "listed exactly below its containing path");
    std::mem::forget((key, range));
}
harnesses! {
    #[cfg(feature = "deep")]
    c19_list_1_1 [12] { exact::<1, 1>(true) }
    #[cfg(feature = "deep")]
    c19_list_2_1 [12] { exact::<2, 1>(false) }
    #[cfg(feature = "deep")]
    c19_list_2_2 [12] { exact::<2, 2>(true) }
    #[cfg(feature = "deep")]
    c19_list_3_2 [12] { exact::<3, 2>(false) }
    #[cfg(feature = "deep")]
    c19_list_3_2_slash [12] { exact::<3, 2>(true) }
    #[cfg(feature = "deep")]
    c19_list_3_3 [12] { exact::<3, 3>(true) }
    #[cfg(feature = "deep")]
    c19_recursive_1_1 [12] { recursive::<1, 1>() }
    #[cfg(feature = "deep")]
    c19_recursive_2_1 [12] { recursive::<2, 1>() }
    #[cfg(feature = "deep")]
    c19_recursive_1_2 [12] { recursive::<1, 2>() }
    #[cfg(feature = "deep")]
    c19_recursive_3_1 [12] { recursive::<3, 1>() }
    #[cfg(feature = "deep")]
    c19_recursive_3_2 [12] { recursive::<3, 2>() }
    #[cfg(feature = "deep")]
    c19_recursive_2_3 [12] { recursive::<2, 3>() }
    #[cfg(feature = "deep")]
    c19_recursive_3_3 [12] { recursive::<3, 3>() }
    c19_seek_start_0 [6] { seek(0, 0) }
    c19_seek_start_1 [6] { seek(1, 0) }
    c19_seek_start_3 [6] { seek(3, 0) }
    c19_seek_end_0 [6] { seek(0, 1) }
    c19_seek_end_1 [6] { seek(1, 1) }
    c19_seek_end_3 [6] { seek(3, 1) }
    c19_seek_current_0 [6] { seek(0, 2) }
    c19_seek_current_1 [6] { seek(1, 2) }
    c19_seek_current_3 [6] { seek(3, 2) }
    c19_next_blocks_1 [6] { next(1) }
    #[cfg(feature = "deep")]
    c19_next_blocks_3 [6] { next(3) }
    c19_read_0_0_0 [6] { read_any(0, 0, 0) }
    c19_block_0_0_0 [6] { read_block_any(0, 0, 0) }
    c19_read_1_0_0 [6] { read_any(1, 0, 0) }
    c19_block_1_0_0 [6] { read_block_any(1, 0, 0) }
    c19_read_1_0_1 [6] { read_any(1, 0, 1) }
    c19_block_1_0_1 [6] { read_block_any(1, 0, 1) }
    c19_progress_1_0_1 [6] { progress(1, 0, 1) }
    c19_read_2_0_0 [6] { read_any(2, 0, 0) }
    c19_block_2_0_0 [6] { read_block_any(2, 0, 0) }
    #[cfg(feature = "deep")]
    c19_read_2_0_1 [6] { read_any(2, 0, 1) }
    #[cfg(feature = "deep")]
    c19_block_2_0_1 [6] { read_block_any(2, 0, 1) }
    #[cfg(feature = "deep")]
    c19_progress_2_0_1 [6] { progress(2, 0, 1) }
    #[cfg(feature = "deep")]
    c19_read_2_0_2 [6] { read_any(2, 0, 2) }
    #[cfg(feature = "deep")]
    c19_block_2_0_2 [6] { read_block_any(2, 0, 2) }
    #[cfg(feature = "deep")]
    c19_progress_2_0_2 [6] { progress(2, 0, 2) }
    #[cfg(feature = "deep")]
    c19_read_2_1_1 [6] { read_any(2, 1, 1) }
    #[cfg(feature = "deep")]
    c19_block_2_1_1 [6] { read_block_any(2, 1, 1) }
    #[cfg(feature = "deep")]
    c19_progress_2_1_1 [6] { progress(2, 1, 1) }
    c19_read_3_0_3 [6] { read_any(3, 0, 3) }
    #[cfg(feature = "deep")]
    c19_block_3_0_3 [6] { read_block_any(3, 0, 3) }
    #[cfg(feature = "deep")]
    c19_progress_3_0_3 [6] { progress(3, 0, 3) }
    #[cfg(feature = "deep")]
    c19_read_3_1_1 [6] { read_any(3, 1, 1) }
    #[cfg(feature = "deep")]
    c19_block_3_1_1 [6] { read_block_any(3, 1, 1) }
    c19_progress_3_1_1 [6] { progress(3, 1, 1) }
    c19_read_3_1_2 [6] { read_any(3, 1, 2) }
    #[cfg(feature = "deep")]
    c19_block_3_1_2 [6] { read_block_any(3, 1, 2) }
    c19_progress_3_1_2 [6] { progress(3, 1, 2) }
    #[cfg(feature = "deep")]
    c19_truncate_end_1 [10] { truncate(1, Truncate::RemovingEnd) }
    #[cfg(feature = "deep")]
    c19_truncate_end_2 [10] { truncate(2, Truncate::RemovingEnd) }
    #[cfg(feature = "deep")]
    c19_truncate_end_3 [10] { truncate(3, Truncate::RemovingEnd) }
    c19_truncate_start_1 [10] { truncate(1, Truncate::RemovingStart) }
    #[cfg(feature = "deep")]
    c19_truncate_start_2 [10] { truncate(2, Truncate::RemovingStart) }
    #[cfg(feature = "deep")]
    c19_truncate_start_3 [10] { truncate(3, Truncate::RemovingStart) }
}
bounded! {
    c19_history [400] { crate::files::Files::<Small>::new().history(60) }
    c19_reading [2000] { crate::files::Files::<Small>::new().reading() }
    c19_large_blocks [2] {
        let mut f = crate::files::Files::<crate::files::Large>::new();
        f.history(25);
    }
}
