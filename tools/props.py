#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source: this file + lib/config.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import config

P = []
NA = {}


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
    if na:
        NA[id] = na


K = "crates/bonsaidb-core/src/key.rs"
T = "crates/bonsaidb-core/src/key/time.rs"
KV = "crates/bonsaidb-core/src/keyvalue.rs"
p("C01", "Every built-in key decodes back to itself",
  "For every value of every built-in Key type (integers, NonZero, usize/isize, bool, (), byte arrays and strings in all owned and borrowed forms, Option, Result, VarInt, EnumKey, derived enums, Duration, SystemTime), from_ord_bytes(as_ord_bytes(k)) == k. This holds whether the bytes are given as Borrowed, Ephemeral or Owned.",
  ["inputs"], "all values of each type (u128/i128 VarInt: those ordered-varint can represent), all byte sources",
  "Document lookup and view queries depend on it for every key value; the tests sample a handful of values per type.",
  [K, "crates/bonsaidb-core/src/key/varint.rs", T, "crates/bonsaidb-macros/src/lib.rs"], [("Key / KeyEncoding implementations", K)],
  observe=["Key::from_ord_bytes", "KeyEncoding::as_ord_bytes"])
p("C02", "The byte order of encoded keys is the order of their values",
  "For any two values a, b of the same key type, comparing as_ord_bytes() bytewise gives the same result as Ord on the values, so range queries and sorted lists return documents in key order. For fixed-width signed integers this holds between values of the same sign (see KNOWN_FINDINGS for mixed signs).",
  ["inputs"], "all pairs of values of each built-in key type",
  "Ordering is a property of all pairs of values, including sign changes and length boundaries that sampled tests miss.",
  [K, "crates/bonsaidb-core/src/key/varint.rs", T], [("KeyEncoding::as_ord_bytes", K)], observe=["KeyEncoding::as_ord_bytes"])
p("C03", "Composite keys decode back to their fields and sort field by field",
  "A tuple or derived struct/enum key decodes to the same fields for all field values, including empty, None and nul-containing ones under null_handling = escape or allow. Its encoded order is the lexicographic order of its fields (variable-width fields without nul bytes, see KNOWN_FINDINGS), and null_handling = deny rejects every field containing a nul byte.",
  ["inputs", "programs"], "all field values, for tuples and derived keys mixing fixed-width, variable-width and optional fields",
  "Field boundaries interact: escapes, lengths appended in reverse, and fixed-width padding only go wrong for particular combinations of field contents.",
  [K, "crates/bonsaidb-macros/src/lib.rs"], [("CompositeKeyEncoder / CompositeKeyDecoder", K), ("derive(Key)", "crates/bonsaidb-macros/src/lib.rs")],
  observe=["CompositeKeyEncoder", "CompositeKeyDecoder", "Key for tuples"])
p("C04", "Decoding arbitrary bytes as a key never panics",
  "from_ord_bytes of any built-in, tuple or derived key type returns Ok or Err for every byte string (truncated, corrupt, foreign or with absurd embedded lengths) and never panics, overflows or reads out of bounds. Fixed-width decoders accept exactly their own width, and text decoders accept exactly valid UTF-8.",
  ["inputs"], "all byte strings",
  "Keys are decoded from files and network peers; only an argument over all byte strings excludes a panic.",
  [K, "crates/bonsaidb-core/src/key/varint.rs", T], [("Key::from_ord_bytes, CompositeKeyDecoder::decode", K)], observe=["Key::from_ord_bytes"])
p("C05", "Prefix ranges and next values select exactly the right keys",
  "to_prefix_range(p).contains(k) holds exactly when the text or bytes k start with p, for String, str, Cow<str>, Vec<u8>, Cow<[u8]>, ArcBytes, Bytes and CowBytes. next_value is the immediate successor for integers, NonZero integers, Option and Result and fails with WouldWrap exactly at the maximum; first_value is the smallest assignable value.",
  ["inputs"], "all prefixes and keys (every Unicode scalar value as last prefix character), all integer values",
  "The upper end of a prefix range depends on the last character (0xff, surrogate gap, 0x10ffff, every UTF-8 length change); auto-assigned ids depend on every successor.",
  [K], [("IntoPrefixRange, next_string_sequence, next_byte_sequence", K), ("Key::next_value", K)], observe=["IntoPrefixRange::to_prefix_range", "Key::next_value"])
p("C06", "Limited-resolution times truncate towards the past and convert exactly",
  "Converting a duration or instant to a LimitedResolution type truncates towards the past to whole units and fails exactly when the result does not fit its representation; converting a representation back is exact, so representations, text forms and keys survive the round trip, and keys order chronologically. Signed durations add exactly or report overflow, and nothing panics for instants before the epoch.",
  ["inputs"], "all durations (positive and negative), all representations of the eight resolutions, both epochs",
  "Rounding, sign and overflow are only wrong at specific boundary values over a 2^94 domain.",
  [T], [("TimeResolution::duration_to_repr / repr_to_duration", T), ("SignedDuration::checked_add", T)], observe=["LimitedResolutionDuration", "LimitedResolutionTimestamp"])
p("C07", "Key-value timestamps add, subtract and order exactly",
  "Timestamp + Duration is the exact sum, normalised to less than one second of nanoseconds, or Timestamp::MAX when not representable; a - b is Some(exact difference) exactly when a >= b. Ordering is chronological, and conversion to Duration, from SystemTime and through its key encoding lose nothing.",
  ["inputs"], "all timestamps and durations",
  "Carry and saturation only matter at sub-second and 64-bit boundaries.",
  ["crates/bonsaidb-core/src/keyvalue/timestamp.rs"], [("Timestamp arithmetic", "crates/bonsaidb-core/src/keyvalue/timestamp.rs")], observe=["Timestamp"])
p("C08", "Numeric key-value entries convert exactly or not at all",
  "Numeric::as_i64, as_u64 and as_f64 return Some exactly when the target type represents the stored number exactly, and then return that number. The lossy conversions saturate or wrap as documented, TryFrom succeeds exactly for the stored variant, and validate rejects exactly NaN.",
  ["inputs"], "all 64-bit integers and all f64 bit patterns",
  "The boundary cases (2^53, 2^63, 2^64, infinities, subnormals) are isolated points in a 2^64 domain.",
  [KV], [("Numeric conversions", KV)], observe=["Numeric"])
p("C09", "Key ranges keep exactly their members through conversion and serialization",
  "Range and RangeRef built from any std range or with the after/before/start_at/end_at builders contain exactly the same keys as the source, and map, map_result and serialization through encoded bytes keep every bound's kind and value. QueryKey survives serialized()/deserialized() for Matches, Multiple and Range.",
  ["inputs"], "all bounds and keys",
  "Bounds are swapped or widened only for particular kind/side combinations; remote queries silently return the wrong documents.",
  ["crates/bonsaidb-core/src/connection.rs"], [("Range, RangeRef, QueryKey", "crates/bonsaidb-core/src/connection.rs")], observe=["Range", "QueryKey"])
p("C10", "Names encode injectively, safely and parse back",
  "For every text, Name::encoded() contains only ASCII letters, digits, '-' and '_' escapes, distinct names have distinct encodings, and parse_encoded returns the original; qualified, schema, collection and view names keep their parts. parse_encoded rejects exactly malformed input and never panics.",
  ["inputs"], "all Unicode texts, all inputs to the parser",
  "Names become tree names on disk: a collision between two names mixes their data, and only an argument over all texts excludes it.",
  ["crates/bonsaidb-core/src/schema/names.rs"], [("Name::encoded / parse_encoded", "crates/bonsaidb-core/src/schema/names.rs")], observe=["Name", "QualifiedName"])
p("C11", "Document ids round-trip through text, keys and the wire, within their limit",
  "Every DocumentId's Display text parses back to the same id, ids compare like their bytes, and an id made from a key deserializes to that key. Every way of making an id (new, TryFrom, FromStr, Deserialize, from_ord_bytes) rejects exactly those longer than MAX_LENGTH and never panics.",
  ["inputs"], "all byte strings up to and beyond the limit, all texts",
  "The text form has three notations chosen by content; collisions between them need particular bytes.",
  ["crates/bonsaidb-core/src/document/id.rs"], [("DocumentId", "crates/bonsaidb-core/src/document/id.rs")], observe=["DocumentId"])
p("C12", "A document's next revision exists exactly when its contents change",
  "next_revision returns None exactly when the new contents equal the current ones and otherwise a revision whose id is larger by one and whose sha256 is the digest of the new contents; new() starts at id 0.",
  ["inputs"], "all contents and revision ids below u32::MAX",
  "Optimistic concurrency relies on revisions differing for every pair of contents.",
  ["crates/bonsaidb-core/src/document/revision.rs"], [("Revision::next_revision", "crates/bonsaidb-core/src/document/revision.rs")], observe=["Revision"])
exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
claimed = [x["id"] for x in P if x["id"] in config.CHECKS]
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    assert x["id"] in config.CHECKS or x["id"] in NA, x["id"]
    if x["id"] in config.CHECKS:
        assert config.CHECKS[x["id"]]["title"] == x["title"], x["id"]
        NA.pop(x["id"], None)
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=HOOKS,
         checks=[dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", evidence_file=f"evidence/{i}.json",
                      technique=config.CHECKS[i].get("technique", config.TECHNIQUE), level=config.CHECKS[i]["level"], level_note=config.CHECKS[i].get("note", config.CHECKS[i]["explanation"].rstrip(".") + ". " + config.NOTE if "explanation" in config.CHECKS[i] else config.NOTE)) for i in claimed],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="See DESIGN.md. KNOWN_FINDINGS lists recorded findings and repaired defects.")
if not m["hooks"]:
    del m["hooks"]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
