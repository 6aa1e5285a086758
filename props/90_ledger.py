LAYERS = "Layers over layers, operations that cancel each other between them, undo after a merge: only histories tell whether the layers still add up."
prop("L05", "The set of unspent outputs is what the connected transactions say",
     """An output can be spent if and only if a connected transaction or block reward created it and nothing connected has spent it since, and it is then what was created; what is spent twice or was never there is refused.
     This holds through every stack of caches over the store, and merging a cache changes what lies below into exactly what the cache showed.
     Disconnecting the latest transactions restores exactly what there was before them.""",
     ["histories"], "every history of outputs, transactions, caches and undoing", LAYERS,
     ["utxo/src/cache.rs", "utxo/src/utxo_entry.rs", "utxo/src/view.rs", "utxo/src/storage/view_impls.rs"],
     [("fresh and dirty entries", "utxo/src/cache.rs"), ("writing to the store", "utxo/src/storage/view_impls.rs")],
     ["outputs seen through the topmost cache and in the store"])
check("L05", "mc-ledger", "model_checking", "exhaustive breadth-first search of histories on the real caches against a flat set", "Two layers; up to two single outputs or thirteen transactions and rewards.")

prop("L06", "Pools and delegations hold exactly what was put in and not taken out",
     """A pool's balance is its pledge, its rewards and what is delegated to it, and a delegation holds what was delegated less what was spent, never less than nothing.
     What cannot be done, such as acting on a pool or delegation that is not there or making one again, is refused.
     This holds through layers of changes and in the store after merging them, and undoing an operation or a merge restores what was before.""",
     ["histories"], "every history of pool and delegation operations, layers and undoing", LAYERS,
     ["pos-accounting/src/pool/delta/operator_impls.rs", "pos-accounting/src/pool/delta/view_impl.rs", "pos-accounting/src/pool/delta/mod.rs", "pos-accounting/src/pool/storage/mod.rs", "pos-accounting/src/pool/storage/view_impls.rs"],
     [("operations", "pos-accounting/src/pool/delta/operator_impls.rs"), ("merging", "pos-accounting/src/pool/storage/mod.rs")],
     ["every balance and data read through the layers and in the store"])
check("L06", "mc-ledger", "model_checking", "exhaustive breadth-first search of histories on the real accounting against a flat book", "Two layers, up to two pools and three delegations; balances of pools that are gone are not compared.")

prop("L07", "A token's supply and settings change only as its rules allow",
     """The circulating supply of a token is what was minted less what was unminted, never over a fixed limit, and does not change once a lockable supply is locked.
     A frozen token can only be thawed, and only if its freezer allowed that; freezing, locking, changing the authority or the metadata do what they say or are refused.
     This holds through layers of changes and in the store, and undoing restores what was before.""",
     ["histories"], "every history of token operations, layers and undoing", LAYERS,
     ["tokens-accounting/src/operations.rs", "tokens-accounting/src/cache.rs", "tokens-accounting/src/data.rs", "tokens-accounting/src/storage/db.rs"],
     [("operations", "tokens-accounting/src/cache.rs"), ("what a token can be in", "tokens-accounting/src/data.rs")],
     ["data and supply read through the layers and in the store"])
check("L07", "mc-ledger", "model_checking", "exhaustive breadth-first search of histories on the real accounting against a flat book", "Two layers, up to two tokens, amounts around their limits.")

prop("L08", "Orders are filled at their price and never beyond it",
     """Filling an order takes from what it asks what the filler pays and gives the exact share of what it offers, rounded down and by the rule of the block's height, never more than is left of either.
     A frozen order is not filled, a concluded one is gone, and what cannot be done is refused.
     This holds through layers of changes and in the store, and undoing restores what was before.""",
     ["histories", "inputs"], "every history of order operations, layers and undoing, and every amount", LAYERS,
     ["orders-accounting/src/operations.rs", "orders-accounting/src/cache.rs", "orders-accounting/src/price_calculation.rs", "orders-accounting/src/storage/db.rs"],
     [("operations", "orders-accounting/src/cache.rs"), ("prices", "orders-accounting/src/price_calculation.rs")],
     ["data and balances read through the layers and in the store; amounts given"])
check("L08", "mc-ledger", "model_checking", "exhaustive breadth-first search of histories on the real accounting against a flat book, and enumeration of amounts for the price", "Two layers, up to two orders.")
