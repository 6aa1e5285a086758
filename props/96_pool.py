prop("M01", "The pool holds what still fits the chain and offers only good blocks",
     """After any order of transactions by hand or from peers, blocks, reorganisations, expiries, memory limits and late news of blocks, what the pool holds can be put into a block in its order of dependence on top of the chain, nothing confirmed, conflicting or expired stays, and nothing still good is lost except to the stated limits.
     A transaction that lacks an input waits and enters the pool as soon as what it lacks does; its rank is always by the fees of itself and what depends on it.
     A block template made of the pool is accepted by the chainstate and carries the transactions by rank.""",
     ["histories"], "every history of transactions, blocks, reorganisations, time and limits up to a depth",
     "What peers send and when blocks come is out of the node's hands; a test follows one story, the guarantee is about every interleaving of them.",
     ["mempool/src/pool/mod.rs", "mempool/src/pool/tx_pool/mod.rs", "mempool/src/pool/tx_pool/store/mod.rs", "mempool/src/pool/tx_pool/reorg.rs", "mempool/src/pool/tx_pool/collect_txs.rs", "mempool/src/pool/orphans/mod.rs", "mempool/src/tx_accumulator/mod.rs"],
     [("taking a transaction in", "mempool/src/pool/tx_pool/mod.rs"), ("following the chain", "mempool/src/pool/tx_pool/reorg.rs"), ("making a template", "mempool/src/pool/tx_pool/collect_txs.rs")],
     ["contents and order of the pool, orphans, answers, templates tried on the chainstate"])
check("M01", "mc-pool", "model_checking", "exhaustive exploration of histories on the real mempool and chainstate against a resource-net model that predicts contents, order and templates", "Five universes of up to seven transactions; histories of three steps (two to four after lead-ins); fixed fees.")
