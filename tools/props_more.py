HOOKS = dict(guard="bonsaidb_verify", enable="RUSTFLAGS='--cfg bonsaidb_verify'", source_commits=["cbc18ac", "122d5d9", "4c6c60e", "5d8239f", "30f9d3c", "05ce527", "ee8bdf7"])
LKV = "crates/bonsaidb-local/src/database/keyvalue.rs"
p("C13", "Key-value commands change exactly their key and report what they did",
  "Every key-value command (set, get, get-and-delete, delete, increment, decrement) reads and changes exactly the entry of its namespace and key. Set honours the existing-key check, keep-existing-expiration and return-previous flags; a refused set changes nothing. Increment and decrement start from 0, saturate or wrap at the 64-bit limits as asked, and convert to the operand's type. Results are the same whether the entry is pending, being persisted or on disk, and through the blocking and async builders.",
  ["inputs", "histories"], "all commands, entries, expirations and operands, in every place an entry can be (absent, pending, being persisted, on disk, removed)",
  "The result depends on the combination of where the entry is, flags and numeric limits; the tests exercise a few combinations.",
  [LKV, KV], [("KeyValueState::perform_kv_operation", LKV), ("KeyValue / AsyncKeyValue", KV)],
  state=[("dirty_keys / keys_being_persisted", "changes not yet on disk", "KeyValueState")], observe=["KeyValue", "AsyncKeyValue"], hook="bonsaidb_verify")
p("C14", "Key-value entries expire exactly when they are due",
  "An entry with an expiration is returned until that time and never afterwards, is removed by the background worker once due, and survives until then: setting, overwriting, removing or clearing expirations keeps exactly one pending expiration per expiring entry, ordered by time, also after the database is closed and reopened (from when it has loaded them). Entries without an expiration are never removed.",
  ["inputs", "histories"], "all histories of expirations being set, changed and cleared, and all clock values",
  "Order and bookkeeping of expirations only go wrong for particular orders of equal, earlier and later times.",
  [LKV], [("update_key_expiration, remove_expired_keys", LKV), ("background_worker", LKV)],
  state=[("expiring_keys / expiration_order", "pending expirations", "KeyValueState")], observe=["KeyValue"], hook="bonsaidb_verify")
p("C15", "Pending key-value changes stay visible and are persisted in time",
  "Under every KeyValuePersistence configuration a changed key is visible immediately and until it is on disk, is written exactly when some threshold's change count and delay are met (the earliest such time is what the worker waits for), with its last value, and closing or shutting down writes everything outstanding. A write that fails keeps the changes and does not block shutdown.",
  ["inputs", "histories", "fault_sequences"], "all threshold configurations, change counts and delays; histories of changes interleaved with persisting, failing and shutting down",
  "Losing a change needs a particular interleaving of staging, overwriting and failing; tests use the immediate or one lazy configuration.",
  [LKV, "crates/bonsaidb-local/src/config.rs"], [("should_commit, duration_until_next_commit", "crates/bonsaidb-local/src/config.rs"), ("persist_keys, stage_dirty_keys, shutdown", LKV)],
  state=[("dirty_keys / keys_being_persisted / shutdown", "changes not yet on disk", "KeyValueState")], observe=["KeyValue", "StorageConfiguration::key_value_persistence"], hook="bonsaidb_verify")
FL = "crates/bonsaidb-files/src/"
p("C19", "A file reads back as exactly the bytes appended to it",
  "After any sequence of creates, appends (plain or buffered), truncations, renames, moves, metadata updates and deletes, every file reads back as its bytes from any seek position, in any read or block sizes, blocking or async, even if reads are given up. Seeks clamp to the end and fail before the start. Truncation removes whole blocks from the asked side, never below the target. Load, list, list_recursive, children and stats return exactly the files of that path.",
  ["inputs", "histories"], "all histories of file operations, all positions, lengths, buffer sizes and paths",
  "Positions at block boundaries, partially read blocks and path prefixes interact; the tests read a few fixed files.",
  [FL + "direct.rs", FL + "schema/file.rs", FL + "schema/block.rs"], [("Contents", FL + "direct.rs"), ("FileKey, create_truncate_transaction", FL + "schema/file.rs"), ("Block", FL + "schema/block.rs")],
  observe=["FileConfig", "direct::File", "direct::Contents"], hook="bonsaidb_verify")
DB = "crates/bonsaidb-local/src/database.rs"
p("C16", "Transactions apply completely or not at all",
  "A transaction applies its operations in order and either all of them take effect or, at the first one that cannot (missing document, outdated revision, existing id, unique view key), none does and that operation's error is reported with the stored document's header. Results and later reads (get, get_multiple, list, list_headers, count, with any ids, range, order and limit) return exactly the committed documents, through the typed, blocking and async interfaces, also after reopening, and concurrent clients lose no update.",
  ["inputs", "histories"], "all histories of transactions and single operations, all ids, revisions, contents, ranges, orders and limits",
  "Wrong results depend on the history (deleted ids, revisions, several operations on one document, partial failure); the tests follow a few scripts.",
  [DB, "crates/bonsaidb-core/src/connection.rs", "crates/bonsaidb-core/src/document/collection.rs", "crates/bonsaidb-core/src/transaction.rs", "crates/bonsaidb-core/src/document.rs"], [("Operation / Transaction constructors", "crates/bonsaidb-core/src/transaction.rs"), ("apply_transaction_to_roots, execute_operation", DB), ("list_from_collection, count_from_collection, get_multiple_from_collection", DB)],
  observe=["Connection", "LowLevelConnection", "SerializedCollection", "Transaction"])
p("C17", "View queries return exactly what the view maps the current documents to",
  "With AccessPolicy::UpdateBefore, a query of a lazy, eager or unique view returns exactly the mappings its map function emits for the current documents, selected by key, keys, range or prefix, in key order (ascending or descending), at most limit of them, with the right documents. reduce and reduce_grouped reduce each key's mappings once. Other policies return each document as of some state since the last update. delete_docs deletes each selected document once. This also holds across reopening and while other clients use the views.",
  ["inputs", "histories", "schedules"], "all histories of document changes and view queries, all selections, orders, limits and policies",
  "A stale, lost or duplicated mapping needs a particular history of changes to several keys of a document, or a query during a commit.",
  ["crates/bonsaidb-local/src/views/mapper.rs", DB, "crates/bonsaidb-local/src/tasks.rs", "crates/bonsaidb-core/src/schema/view/map.rs", "crates/bonsaidb-core/src/document/header.rs"], [("Mappings", "crates/bonsaidb-core/src/schema/view/map.rs"), ("Emit", "crates/bonsaidb-core/src/document/header.rs"), ("ViewEntryUpdater::compare_swap_view_entry, DocumentRequest::map", "crates/bonsaidb-local/src/views/mapper.rs"), ("create_view_iterator, for_each_in_view", DB), ("TaskManager::update_view_if_needed", "crates/bonsaidb-local/src/tasks.rs")],
  observe=["connection::View", "connection::AsyncView"])
p("C18", "The transaction log lists exactly the committed transactions",
  "Every transaction that changed documents is listed exactly once, in commit order with increasing ids, with exactly the documents it changed, their collections and whether each was deleted, in the order of the operations; a failed transaction is not listed. Listing honours the starting id and the limit, and last_transaction_id is never behind the log. This also holds after reopening and with concurrent clients.",
  ["inputs", "histories"], "all histories of transactions, all starting ids and limits",
  "Log entries interleave with failed transactions and view updates, which take transaction ids, too.",
  [DB, "crates/bonsaidb-core/src/transaction.rs"], [("apply_transaction_to_roots, list_executed_transactions", DB), ("DocumentChanges, DocumentChangesIter", "crates/bonsaidb-core/src/transaction.rs")],
  observe=["Connection::list_executed_transactions", "Connection::last_transaction_id", "DocumentChanges"])
p("C30", "Committed transactions survive a crash at any point",
  "After Connection/Database::apply returns success, the transaction's documents, view updates and transaction-log entry are all present after a crash and reopen at any later point, and a crash before success leaves all or none of them.",
  ["crash_points", "histories"], "all histories of transactions and all crash points",
  "Tests cannot enumerate crash points.",
  ["crates/bonsaidb-local/src/database.rs"], [("apply_transaction_to_roots", "crates/bonsaidb-local/src/database.rs")],
  na="Atomicity and durability live in the external nebari crate (file format, fsync order, recovery), which is not in this repository, and quantify over crash points of file-system state; per-function contracts over bonsaidb's own code cannot express or decide them.")
p("C31", "Concurrent operations are linearizable",
  "Concurrent document writes, key-value operations and view queries from any number of threads take effect in some order consistent with real time.",
  ["schedules"], "all thread schedules",
  "Tests see a handful of schedules.",
  ["crates/bonsaidb-local/src/database.rs", "crates/bonsaidb-local/src/database/keyvalue.rs"], [("KeyValueState mutex, nebari transactions", "crates/bonsaidb-local/src/database/keyvalue.rs")],
  na="Needs schedule quantification: Kani has no threads, and a Verus permission argument would need the whole locking layer (parking_lot, tokio, flume, nebari) rewritten; only sequential per-operation contracts are within reach.")
p("C32", "Network requests receive exactly their own responses",
  "Every request sent by a client over QUIC or WebSockets gets exactly one response, its own, across reconnects and timeouts, or an error.",
  ["schedules", "fault_sequences"], "all interleavings of requests, disconnects and timeouts",
  "Tests cover the common orders only.",
  ["crates/bonsaidb-client/src/client.rs", "crates/bonsaidb-server/src/server.rs"], [("outstanding_requests", "crates/bonsaidb-client/src/client.rs")],
  na="The mechanism is async tasks, channels and an external protocol stack; no contract verifier here accepts async code with these dependencies.")
