CHAIN = "Which histories of blocks, branches, restarts and faults a node meets is up to its peers and its machine; a test follows a handful, the guarantee is about all of them."
CHAINFILES = ["chainstate/src/detail/chainstateref/mod.rs", "chainstate/src/detail/mod.rs", "chainstate/src/detail/block_invalidation/mod.rs"]

prop("L01", "The state depends on the best chain only, not on how it came about",
     """After any order of arrival of blocks, any reorganisation, invalidation or reset by the operator and any restart, the unspent outputs, accounts, tokens, orders, pools and epoch data are those of connecting the blocks of the best chain one after another.
     The best chain is the one with the most trust among the chains of valid blocks that are not invalidated and do not reach below the allowed reorganisation depth, the first seen of equals.
     What a block did is undone completely when it is disconnected.""",
     ["histories"], "every order of blocks and operator's commands over every tree of blocks of a size", CHAIN,
     CHAINFILES + ["chainstate/tx-verifier/src/transaction_verifier/mod.rs", "utxo/src/cache.rs", "chainstate/src/detail/chainstateref/epoch_seal.rs", "chainstate/storage/src/internal/store_tx/write_impls.rs"],
     [("activating the best chain", "chainstate/src/detail/chainstateref/mod.rs"), ("block invalidation", "chainstate/src/detail/block_invalidation/mod.rs"), ("connecting and disconnecting", "chainstate/tx-verifier/src/transaction_verifier/mod.rs")],
     ["whole database after each step, best block, answers to each call"])
check("L01", "mc-chain", "model_checking", "exhaustive exploration of orders of blocks and commands on the real chainstate against the image of connecting the best chain", "Trees of up to six blocks of eight kinds with a base; up to two commands; in-memory database; AnyoneCanSpend.")

prop("L02", "A bad block changes nothing and is refused for good",
     """A block that breaks a rule is refused wherever it stands in a tree and whatever the order of arrival, together with everything built on it, and the best chain stays the best of the good blocks.
     Refusing it leaves the state as it was, also when its branch had begun to be connected.
     A good block is never taken for bad.""",
     ["histories"], "every order of good and bad blocks over every tree of a size", CHAIN,
     CHAINFILES + ["chainstate/tx-verifier/src/transaction_verifier/mod.rs"],
     [("block status", "chainstate/src/detail/block_invalidation/mod.rs"), ("reverting a failed activation", "chainstate/src/detail/mod.rs")],
     ["answer to each block, whole database after each"])
check("L02", "mc-chain", "model_checking", "exhaustive exploration of orders of good and bad blocks on the real chainstate against a model of what is valid", "Thirteen ways to be bad; trees of up to five blocks.")

prop("L03", "A fault of the database at any moment neither spoils the state nor loses blocks",
     """When any single read, write or commit of the database fails, once or for good, or the process ends there, the database is afterwards as it was before or after the operation, never in between.
     After a restart the node carries on from there and reaches the same state as one that saw no fault.
     No good block is put on record as bad because of it.""",
     ["fault_sequences", "crash_points"], "a fault at every operation on the database of every history", CHAIN,
     CHAINFILES + ["chainstate/src/detail/block_invalidation/best_chain_candidates.rs", "chainstate/storage/src/internal/store_tx/write_impls.rs", "utxo/src/error.rs"],
     [("retrying and giving up", "chainstate/src/detail/mod.rs"), ("what counts as a bad block", "chainstate/src/detail/error_classification.rs")],
     ["image of the database after the fault and after carrying on"])
check("L03", "mc-chain", "fault_enumeration", "a fault of every kind at every storage operation of every history on the real chainstate", "Histories of up to six blocks and two commands; faults of three kinds.")

prop("L04", "Coins and tokens come from nowhere but subsidies and minting",
     """The coins in outputs, pools, delegations and orders together only grow by block subsidies and only shrink by burning and fees that go to nobody; tokens only by minting and burning.
     A transaction that gives more than it takes, of coins or of any token, is refused, and so is a block reward above subsidy and fees.
     What a transaction does not give away of its coins is its fee, and the block may have all of it.""",
     ["histories", "inputs"], "every small transaction over coins and two tokens; every line of blocks", CHAIN,
     ["chainstate/constraints-value-accumulator/src/constraints_accumulator.rs", "chainstate/constraints-value-accumulator/src/accumulated_fee.rs", "chainstate/tx-verifier/src/transaction_verifier/input_output_policy/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/mod.rs"],
     [("inputs and outputs in balance", "chainstate/constraints-value-accumulator/src/constraints_accumulator.rs"), ("block reward", "chainstate/tx-verifier/src/transaction_verifier/input_output_policy/mod.rs")],
     ["all there is, added up from the database after each block"])
check("L04", "mc-chain", "model_checking", "exhaustive enumeration of small transactions and lines of blocks on the real chainstate, adding up all there is", "Transactions of up to eight inputs and two outputs (three: thorough); fixed amounts.")

prop("L10", "A locked output is spent when its lock opens and never before",
     """An output locked until a height or time or for a number of blocks or seconds can be spent from the first block on whose height, or whose predecessors' median time, satisfies the lock, and in no earlier block, whatever the block times and however large the lock.
     A hash-locked output goes to who has the secret and the spending key at any time, and to the refunding key only once its lock has opened.
     A block is not dated before the median of the eleven before it nor too far in the future.""",
     ["histories", "inputs"], "every pattern of block times and every lock around its border at every height", CHAIN,
     ["mintscript/src/checker/timelock.rs", "chainstate/src/detail/median_time.rs", "chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs", "mintscript/src/translate.rs", "chainstate/src/detail/chainstateref/mod.rs"],
     [("when a lock is open", "mintscript/src/checker/timelock.rs"), ("median time", "chainstate/src/detail/median_time.rs"), ("forms of spending a hash lock", "mintscript/src/translate.rs")],
     ["whether each spending block is taken"])
check("L10", "mc-chain", "model_checking", "exhaustive exploration of patterns of block times, locks and spending attempts on the real chainstate against the rule", "Four (five) blocks after three lead-ins; three time steps.")

prop("L11", "A signature is good for exactly what it covers",
     """For every signature mode, a signature for an input verifies after a change to the transaction or to what it spends if and only if nothing that mode covers has changed, and only for its own mode, key and kind of destination.
     A destination of several keys needs the required number of signatures, each by the key at its place.
     A signed message verifies for that message and signer only, and is never a signed transaction.""",
     ["inputs"], "every small transaction, mode, input and single change; every filling of signatures", "What a forger would try is not what a test tries: the guarantee is about every change to every covered part.",
     ["common/src/chain/transaction/signature/sighash/mod.rs", "common/src/chain/transaction/signature/sighash/hashable.rs", "common/src/chain/transaction/signature/inputsig/standard_signature.rs", "common/src/chain/transaction/signature/inputsig/classical_multisig/multisig_partial_signature.rs", "common/src/chain/transaction/signature/inputsig/arbitrary_message/mod.rs"],
     [("what is hashed", "common/src/chain/transaction/signature/sighash/hashable.rs"), ("several signers", "common/src/chain/transaction/signature/inputsig/classical_multisig/multisig_partial_signature.rs")],
     ["whether each signature verifies"])
check("L11", "mc-chain", "model_checking", "exhaustive enumeration of small transactions, modes and single changes on the real signing and verifying against what a mode covers", "Up to two (three) inputs of ten kinds, three outputs, three (four) keys.")

prop("L12", "What belongs to somebody moves only with their signature",
     """Outputs are spent, tokens administered, pools closed, delegated coins taken and orders frozen or concluded only by a transaction signed, for just that input, by the destination put down for it, be it a key, a hash of one or several keys.
     That destination may always do so; nobody else can, and a signature made for a different transaction or for different amounts is refused.
     Once a token's authority is changed, only the new one acts for it.""",
     ["inputs", "configurations"], "every deed of an owner by every signer in every mode, alone and in pairs", "Every kind of input has its own way to the key that must sign; one slip in one of them gives it to anybody.",
     ["mintscript/src/translate.rs", "chainstate/tx-verifier/src/transaction_verifier/input_check/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/input_check/signature_only_check.rs", "common/src/chain/transaction/signature/sighash/input_commitments/mod.rs"],
     [("which destination is to sign", "mintscript/src/translate.rs"), ("what is committed to", "common/src/chain/transaction/signature/sighash/input_commitments/mod.rs")],
     ["whether each block is taken"])
check("L12", "mc-chain", "model_checking", "exhaustive enumeration of deeds, signers, modes and tampering on the real chainstate against who owns what", "Fifteen deeds, eight people, three forms of destination.")
