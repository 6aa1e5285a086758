prop("A01", "Deltas, merged in any grouping and undone in reverse, never lose an update",
     """Applying a sequence of state changes one by one to a base state, or first merging them in any grouping into
     layered collections of changes and applying the merged result, gives the same state, and a merge succeeds exactly
     when the changes are consecutive. Undoing the last merges in reverse order gives back the state as it was before
     them. Balances merged as signed deltas equal the exact integer sums and an out-of-range sum is an error, never a
     wrapped or clamped value.""",
     ["histories", "inputs"],
     "every sequence of creations, modifications, deletions, amount additions and subtractions, in every grouping into layers, and every point at which it is undone",
     """The unit tests are hand-written tables of two or three consecutive changes of one key; groupings over several
     keys, undo after partial merges, and extreme amounts are only sampled.""",
     ["accounting/src/delta/combine.rs", "accounting/src/delta/delta_amount_collection.rs",
      "accounting/src/delta/delta_data_collection/mod.rs", "accounting/src/delta/delta_data_collection/undo.rs"],
     [("merging two consecutive changes keeps the oldest 'before' and the newest 'after'", "accounting/src/delta/delta_data_collection/mod.rs"),
      ("checked signed sums, zero entries dropped", "accounting/src/delta/delta_amount_collection.rs")],
     ["the merged collections, lookups in them and the flushed base state"],
     [("collection of changes", "per key: value before, value after", "accounting/src/delta")])
check("A01", "mc-accounting", "model_checking",
      "explicit-state search over the real delta collections against a map model",
      """Exhaustive over all operation sequences up to the stated depth on 2 keys and 2-3 values and over all triples of
      small layers; the model is a map of plain integers. Says nothing about more keys or values.""")
