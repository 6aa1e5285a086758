prop("S01", "Every storage backend behaves like one transactional ordered map",
     """Reads inside a transaction see the last committed contents plus the transaction's own writes, a committed transaction takes effect
     as a whole and a dropped or aborted one has no effect at all. Prefix and greater-or-equal iteration yield every matching entry exactly once in
     key order, keys in one table never affect another, and typed keys keep their order and round-trip.
     All backends give the same answers to the same history of operations.""",
     ["histories"], "every sequence of transactions and operations on every backend",
     "No unit test runs the backends against each other; mistakes show only for particular key prefixes, deletions inside a transaction or orders of overlapping reads.",
     ["storage/core/src/adaptor/locking.rs", "storage/core/src/util.rs", "storage/core/src/backend.rs", "storage/inmemory/src/lib.rs",
      "storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs", "storage/lmdb/src/lib.rs", "storage/src/order_preserving_value.rs"],
     [("delta over the committed map, merged iteration", "storage/core/src/adaptor/locking.rs"),
      ("prefix iterators", "storage/core/src/util.rs"), ("SQL statements and transactions", "storage/sqlite/src/lib.rs"),
      ("cursor iteration", "storage/lmdb/src/lib.rs")],
     ["values and iteration results of the public storage interfaces"])
check("S01", "mc-store", "model_checking", "exhaustive breadth-first search of operation histories of the real backends against a map model",
      "All histories within the stated depths over small key alphabets chosen for prefix relations; the LMDB wrapper runs over an emulated LMDB library.")

prop("S02", "A crash never leaves a half-applied or lost transaction in the SQLite storage",
     """After a power loss or process crash at any moment, opening the SQLite storage again succeeds and shows exactly the contents after some prefix of the
     committed transactions, including every transaction whose commit had returned. An I/O error during an operation is
     reported, never silently swallowed, and leaves the store at one of those states as well.""",
     ["crash_points", "fault_sequences"], "every point of a history of transactions, every loss of unsynced writes, every I/O error",
     "Tests never cut a write short; what survives depends on the exact order of writes, syncs and deletions of files and on the pragmas in force.",
     ["storage/sqlite/src/lib.rs", "storage/sqlite/src/queries.rs", "storage/sqlite/src/error.rs"],
     [("pragmas, BEGIN, COMMIT, rollback on drop", "storage/sqlite/src/lib.rs")],
     ["contents found after reopening; results of the failing operation"])
check("S02", "mc-store", "fault_enumeration", "exhaustive enumeration of crash points, lost writes, torn writes and I/O errors under a simulated disk",
      "The disk model loses any subset of unsynced sector writes (all subsets up to the stated size); SQLite itself is the bundled library.")

prop("S03", "Concurrent transactions on the shared backend are isolated from each other",
     """With several threads using one shared in-memory store, transactions take effect one after another: no update is lost, a writer never builds on a
     state another writer is about to replace, and a reader sees one committed state from the beginning to the end of its transaction.
     A transaction that is dropped leaves no trace, and a committed one is seen by everything that starts afterwards.""",
     ["schedules"], "every interleaving of two or three threads of transactions",
     "The repository's own loom tests are not part of the test run and cover single keys only; a normal test sees one lucky schedule.",
     ["storage/core/src/adaptor/locking.rs", "storage/inmemory/src/lib.rs", "utils/src/concurrency_impl/mod.rs"],
     [("lock held for the length of a transaction", "storage/core/src/adaptor/locking.rs")],
     ["values read by the threads, final contents"])
check("S03", "mc-loom", "model_checking", "stateless exploration of thread interleavings of the real code under loom",
      "Two or three threads of one or two transactions; preemption bound for three threads in the quick tier, none in the thorough one.")
