prop("T01", "How hard the next block is follows from the chain's times alone",
     """For every chain of blocks the target of the next block, by stake or by work, is what exact arithmetic over the times of the blocks before it gives, rounded and limited as stated, and never needs more than 256 bits to be right.
     Every height has exactly one set of rules and one epoch, set by the configuration.
     A hash meets a target, and a block weighs what it does, by the same comparison of whole numbers.""",
     ["histories"], "every chain of gaps between blocks up to a depth, and one step from the borders of every range",
     "Every node has to come to the same target from the same chain; an overflow or rounding slip shows only at rare targets and gaps, and then splits the network.",
     ["consensus/src/pos/target.rs", "consensus/src/pow/work.rs", "consensus/src/pow/helpers.rs", "common/src/chain/upgrades/netupgrade.rs", "common/src/chain/chaintrust/asymptote.rs", "common/src/chain/config/mod.rs"],
     [("the next target", "consensus/src/pos/target.rs"), ("the next work", "consensus/src/pow/work.rs"), ("the rules in force", "common/src/chain/upgrades/netupgrade.rs")],
     ["the target, the work, the rules and the weight for each chain and height"])
check("T01", "mc-stake", "model_checking", "exhaustive enumeration of chains of block times on the real target calculation against a big-number model", "Gaps from a ladder of seven, chains of up to 5 (7) blocks, every combination of the listed configurations.")
prop("T02", "Who may make a block by stake is decided by everything the rules name",
     """A block made by stake passes the check if and only if its target is the due one, its VRF output was drawn with the pool's key from the slot, the epoch and its sealed randomness, the output is below the target times the pool's effective balance, and kernel, reward, pool and signature belong together.
     The effective balance follows the stated saturating curve and never more than the pool's own.
     What the producer makes for the first winning slot passes the check, and no earlier slot would.""",
     ["inputs"], "every combination of the entries of the decision table, each right or wrong in each of its ways",
     "A forger is free in every field of the block; a test tries the combinations its author thought of, the guarantee covers them all.",
     ["consensus/src/pos/mod.rs", "consensus/src/pos/hash_check.rs", "consensus/src/pos/effective_pool_balance.rs", "consensus/src/pos/kernel.rs", "consensus/src/pos/block_sig.rs", "consensus/src/pos/input_data.rs", "chainstate/types/src/vrf_tools.rs", "consensus/src/validator.rs"],
     [("the check of the stake", "consensus/src/pos/mod.rs"), ("the effective balance", "consensus/src/pos/effective_pool_balance.rs"), ("making a block", "consensus/src/lib.rs")],
     ["the answer for each combination, the balance counted, the slot found"])
check("T02", "mc-stake", "model_checking", "exhaustive enumeration of the decision table on the real consensus check", "Three pools, two epochs, both rule versions; keys from a fixed list.")
prop("T03", "Each reward is shared out to the atom and can be taken back",
     """Of a block's reward the staker gets cost and margin, the delegators their shares in proportion rounded down, and the staker whatever that leaves; no atom is made or lost, whatever the number and size of delegations, and undoing the block restores every balance.
     What each block adds follows the emission table of its height, and all blocks together the final supply.""",
     ["inputs"], "every pool of these delegations, costs, margins and rewards, and every emission table up to a size",
     "Rounding and overflow depend on the values; each atom too many breaks the supply on every node.",
     ["chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs", "common/src/chain/config/emission_schedule.rs"],
     [("sharing a reward", "chainstate/tx-verifier/src/transaction_verifier/reward_distribution.rs"), ("the subsidy", "common/src/chain/config/emission_schedule.rs")],
     ["every balance after sharing and after undoing; the subsidies and the supply"])
check("T03", "mc-stake", "model_checking", "exhaustive enumeration of pools, totals and emission tables on the real distribution against exact fractions", "Up to four delegations, totals from a ladder at the borders; both rule versions.")

prop("T04", "The chain made by stake is the heaviest branch of blocks that may be there",
     """On the real chainstate every block that a pool with an open stake makes in a slot it wins is taken, and a block broken in any one entry, on the chain or on a branch beside it, is refused and leaves no trace.
     After every block each pool's stake, pledge, earnings, delegations and the randomness of each finished epoch are what the blocks of the chain give.
     Of several branches the one with the most trust is the chain, the first of equals stays, and nothing is left of the others.""",
     ["histories"], "every sequence of staking steps up to a depth, every single broken entry after it, and every pair of branches in every order of arrival",
     "Rewards, delegations, closed pools and epoch randomness feed back into who may make the next block; a slip shows only after a reorganisation across them, and then splits the network.",
     ["chainstate/src/detail/chainstateref/mod.rs", "chainstate/src/detail/chainstateref/in_memory_reorg.rs", "chainstate/src/detail/chainstateref/epoch_seal.rs", "chainstate/types/src/epoch_data_cache.rs", "chainstate/tx-verifier/src/transaction_verifier/mod.rs", "chainstate/tx-verifier/src/transaction_verifier/input_output_policy/purposes_check.rs", "consensus/src/pos/mod.rs"],
     [("the check of a block on a branch", "chainstate/src/detail/chainstateref/mod.rs"), ("the randomness of the epochs", "chainstate/src/detail/chainstateref/epoch_seal.rs"), ("what a reward may do", "chainstate/tx-verifier/src/transaction_verifier/input_output_policy/purposes_check.rs")],
     ["each block taken or refused, the tip and its trust, the pools' books, the database after a reorganisation against one that never saw the other branch"])
check("T04", "mc-stake", "model_checking", "exhaustive enumeration of staking histories, broken blocks and pairs of branches on the real chainstate against a model of the books", "Four settings of epoch length, sealing distance and rule version; up to three pools; histories of up to three (four) blocks, pairs of branches of up to three each; epochs sealed at least one behind.")
