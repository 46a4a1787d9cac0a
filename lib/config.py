"""Per-property configuration of the check driver."""

CRATES = {
    "core": dict(dir="kani/core", bin="vk_core"),
    "local": dict(dir="kani/local", bin="vk_local", rustflags="--cfg bonsaidb_verify"),
    "docs": dict(dir="kani/docs", bin="vk_docs", no_kani=True, rustflags="--cfg bonsaidb_verify"),
    "files": dict(dir="kani/files", bin="vk_files", rustflags="--cfg bonsaidb_verify"),
}

TRUSTED = [
    "Kani 0.68.0 (MIR to goto-program translation), CBMC 6.11.0 and its SAT back end (cadical)",
    "rustc nightly-2026-08-21 front end used by Kani (the project itself builds with 1.76.0)",
    "Rust core/alloc/std bodies are verified as compiled into the goto program; std functions listed as stubbed are assumed to meet their documented contract",
]
ASSUMPTIONS = [
    "termination is not proved",
    "allocation never fails",
    "64-bit little-endian target",
]


def bounded_label(h, cfg):
    """Text of the bound of one harness, or 'no' for a full-domain proof."""
    for k, v in cfg.get("bounds", {}).items():
        if h == k or (k.endswith("*") and h.startswith(k[:-1])):
            return v
    return "no"


CHECKS = {}


def check(pid, title, **kw):
    kw.setdefault("units", ["core"])
    kw.setdefault("level", "proof")
    CHECKS[pid] = dict(title=title, **kw)


LEN = "bounded: byte-string lengths fixed as written in the harness, contents unconstrained"
check("C01", "Every built-in key decodes back to itself", deep=True,
      bounds={"c01_bytes*": LEN, "c01_string*": LEN, "c01_cow*": LEN, "c01_arc*": LEN, "c01_serde*": LEN, "c01_option_bytes*": LEN, "c01_array": "bounded: array lengths 0, 5, 16"},
      functions=["Key::from_ord_bytes / KeyEncoding::as_ord_bytes of u8..u128, i8..i128, NonZero*, usize, isize, bool, (), [u8; N], Vec<u8>, Cow<[u8]>, ArcBytes, Bytes, CowBytes, String, Cow<str>, Option, Result, VarInt, EnumKey, derive(Key) enums"],
      trusted=["String::from_utf8 / str::from_utf8 are replaced by a direct UTF-8 validity specification in string harnesses"])
check("C02", "The byte order of encoded keys is the order of their values", deep=True,
      bounds={"c02_bytes*": LEN, "c02_string*": LEN, "c02_option_bytes*": LEN, "c02_array": "bounded: array length 6"},
      functions=["KeyEncoding::as_ord_bytes of every fixed-width integer, NonZero, usize/isize, bool, VarInt, Duration, Option, Result, derive(Key) enums, Vec<u8>, String"])
check("C03", "Composite keys decode back to their fields and sort field by field", deep=True,
      bounds={"c03_rt_var*": LEN, "c03_rt_fixed_var": LEN, "c03_rt_mixed": LEN, "c03_ord_var*": LEN, "c03_ord_mixed": LEN, "c03_*deny*": LEN, "c03_rt_derive_*": LEN, "c03_ord_derive_deny*": LEN},
      functions=["CompositeKeyEncoder::{encode, finish}", "CompositeKeyDecoder::{decode, finish}", "tuple Key impls", "derive(Key) struct and enum expansions", "DenyNullBytes::handle_nulls"])
check("C04", "Decoding arbitrary bytes as a key never panics", deep=True,
      bounds={"c04_*": "bounded: input lengths as written in the harness, contents unconstrained (complete for fixed-width decoders)"},
      functions=["Key::from_ord_bytes of every built-in and derived key type", "CompositeKeyDecoder::decode", "EscapeNullBytes::decode_nulls_if_needed", "decode_composite_field"])
check("C05", "Prefix ranges and next values select exactly the right keys",
      bounds={"c05_vec*": LEN, "c05_cow": LEN, "c05_arc": LEN, "c05_cowbytes": LEN, "c05_bytes": LEN, "c05_str*": LEN},
      functions=["IntoPrefixRange::to_prefix_range", "Key::first_value / Key::next_value of every integer, NonZero, Option, Result"])
check("C06", "Limited-resolution times truncate towards the past and convert exactly", deep=True,
      functions=["TimeResolution::{duration_to_repr, repr_to_duration} of the eight resolutions", "SignedDuration::checked_add", "LimitedResolutionTimestamp <-> SystemTime"])
check("C07", "Key-value timestamps add, subtract and order exactly",
      functions=["Timestamp: Add<Duration>, Sub, Ord, From<SystemTime>, From<Timestamp> for Duration, Key"])
check("C08", "Numeric key-value entries convert exactly or not at all", kani_flags=["--no-overflow-checks"],
      functions=["Numeric::{as_i64, as_u64, as_f64, as_i64_lossy, as_u64_lossy, as_f64_lossy, validate}", "TryFrom<Numeric>"],
      assumptions=["Kani's overflow checks are off for this property because CBMC reports NaN results of f64 remainder as errors; Rust integer overflow checks compiled into the code stay on"])
check("C09", "Key ranges keep exactly their members through conversion and serialization",
      bounds={"c09_ser*": "no"},
      functions=["Range / RangeRef conversions, builders, contains, map, map_result, as_ord_bytes, deserialize", "QueryKey::serialized / SerializedQueryKey::deserialized"])
check("C10", "Names encode injectively, safely and parse back", level="other",
      bounds={"c10_parse*": LEN},
      explanation="Name::parse_encoded is proved against its specification for short inputs only; the encoder and the whole-name properties are bounded native checks.",
      functions=["Name::parse_encoded", "Name::encoded", "QualifiedName / SchemaName / CollectionName / ViewName parsing"])
check("C11", "Document ids round-trip through text, keys and the wire, within their limit",
      bounds={"c11_bytes": LEN, "c11_parse_hex": LEN},
      functions=["DocumentId::{from_u64, from_u32, new, deserialize, try_from, from_str}", "Ord for DocumentId"])
check("C12", "A document's next revision exists exactly when its contents change",
      bounds={"c12_next": "bounded: two-byte contents; SHA-256 replaced by an arbitrary function"},
      functions=["Revision::{new, with_id, next_revision}"],
      trusted=["SHA-256 (sha2 crate) is collision free"])
COLL = ["BTreeMap, btree_map::Entry and VecDeque of key-value state are replaced, under cfg(all(kani, bonsaidb_verify)), by contract implementations of at most four entries (crates/bonsaidb-local/src/verify_collections.rs)",
        "String/str comparison is replaced by a comparison of lengths (the harness keys have pairwise different lengths)",
        "Timestamp::now, reads of the persisted tree and watchable::Watchable::{replace, update} are replaced by their contracts"]
check("C13", "Key-value commands change exactly their key and report what they did", units=["local"], deep=True,
      bounds={"c13_*": "bounded: one addressed key, one bystander key, collections of at most four entries; value, expiration, clock and command fields unconstrained"},
      functions=["KeyValueState::{perform_kv_operation, execute_set_operation, execute_get_operation, execute_delete_operation, execute_increment_operation, execute_decrement_operation, get, set, remove, update_key_expiration}", "increment, decrement", "KeyValue / AsyncKeyValue builders (natively)"],
      trusted=COLL)
check("C14", "Key-value entries expire exactly when they are due", units=["local"], deep=True,
      bounds={"c14_*": "bounded: at most three tracked keys, collections of at most four entries; all times unconstrained"},
      functions=["KeyValueState::{update_key_expiration, remove_expired_keys, update_background_worker_target (natively)}", "background_worker (natively)"],
      trusted=COLL)
check("C15", "Pending key-value changes stay visible and are persisted in time", units=["local"], deep=True,
      bounds={"c15_*": "bounded: at most three commit thresholds, three dirty keys; all durations and counts unconstrained"},
      functions=["KeyValuePersistence::{should_commit, duration_until_next_commit}", "KeyValueState::{needs_commit, commit_dirty_keys, stage_dirty_keys, update_background_worker_target, shutdown (natively)}", "persist_keys, background_worker (natively)"],
      trusted=COLL)
check("C19", "A file reads back as exactly the bytes appended to it", units=["files"], deep=True, jobs=5,
      bounds={"c19_seek*": "bounded: at most three blocks; lengths, positions and offsets unconstrained", "c19_next_blocks*": "bounded: at most three blocks; lengths and buffer size unconstrained",
              "c19_truncate*": "bounded: at most three blocks; lengths and target unconstrained", "c19_read*": "bounded: at most three blocks of at most two bytes", "c19_block*": "bounded: at most three blocks of at most two bytes",
              "c19_progress*": "bounded: at most three blocks of at most two bytes", "c19_list*": LEN, "c19_recursive*": LEN},
      functions=["Contents::{seek, next_blocks, non_blocking_read, non_blocking_read_block, len}", "File::create_truncate_transaction", "FileKey encodings and prefix ranges", "File / FileConfig / BufferedAppend / AsyncBufferedAppend (natively, in memory)"],
      assumptions=["database operations under the file API (transactions, views) are covered natively only"])
NATIVE = "only the listed obligations are proved; the behaviour of whole operations on a real in-memory and on-disk Database (nebari trees, threads, file I/O: out of the verifier's reach) is a bounded native check against a map model, never counted as proved"
check("C16", "Transactions apply completely or not at all", units=["core", "docs"], deep=True, level="other", explanation=NATIVE,
      bounds={"c16_insert": "bounded: two-byte contents; ids unconstrained", "c16_update": "bounded: two-byte contents; ids and revisions unconstrained", "c16_overwrite": "bounded: two-byte contents; ids unconstrained", "c16_document": "bounded: two-byte contents", "c16_push": "bounded: two operations"},
      functions=["Transaction / Operation constructors", "Header / CollectionHeader conversions", "Database::{apply_transaction, execute_insert, execute_update, execute_delete, execute_check, get, get_multiple, list, list_headers, count} and the typed blocking and async wrappers (natively, bounded)"])
check("C17", "View queries return exactly what the view maps the current documents to", units=["core", "docs"], deep=True, level="other", explanation=NATIVE,
      bounds={"c17_push*": "bounded: at most three mappings; headers, keys and values unconstrained", "c17_collect*": "bounded: at most three mappings", "c17_extend*": "bounded: at most three mappings"},
      functions=["Emit for Header and CollectionHeader", "Mappings (push, extend, collect, iterate)", "Database::{query, query_with_docs, reduce, reduce_grouped, delete_docs_by_name}, Mapper, create_view_iterator, for_each_in_view and the View / AsyncView builders (natively, bounded)"])
check("C18", "The transaction log lists exactly the committed transactions", units=["core", "docs"], deep=True, level="other", explanation=NATIVE,
      bounds={"c18_changes*": "bounded: at most three collections and three changes; collection indexes, ids, flags and positions unconstrained"},
      functions=["DocumentChanges::{get, len, is_empty, iter}, DocumentChangesIter", "Database::{apply_transaction, list_executed_transactions, last_transaction_id} (natively, bounded)"])
TECHNIQUE = "contract-based deductive verification: Kani/CBMC function contracts as harnesses over the real crate, counterexamples replayed natively"
NOTE = "Contracts (precondition assumed, postcondition asserted) on the real functions, every obligation discharged by CBMC for the whole domain of fixed-width values; variable-length inputs are discharged for the stated lengths and otherwise only covered by bounded native checks, reported separately in the evidence and never counted as proved. Trusts Kani/CBMC, rustc and the listed stubs."
