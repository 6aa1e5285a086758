prop("E01", "Each text of bytes stands for one value at most and each value for one text",
     """A text of bytes is read if and only if it follows the format to its end, whatever the source it is read from and however it is cut; the value then written is the same text again, as bytes, as hexadecimal and as JSON.
     A choice told apart by what its parts begin with is read as the part that begins so, and looking at the next byte changes nothing of what is read after it.
     Numbers in short form have one text each, and no text, however wrong, makes the reader panic or read beyond its end.""",
     ["inputs", "histories"], "every short text over the bytes that mean something, as each form; every sequence of reading steps up to a depth",
     "Hashes, signatures and agreement between nodes rest on one text for one value; tests write values and read them back, the texts no honest writer makes are what an attacker sends.",
     ["serialization/tagged/src/lib.rs", "serialization/tagged/src/derive_support.rs", "serialization/tagged/derive/src/direct.rs", "serialization/tagged/derive/src/tagged.rs", "serialization/src/encoded.rs", "serialization/src/hex.rs", "serialization/src/hex_encoded.rs", "serialization/src/json_encoded.rs", "serialization/src/extras/non_empty_vec.rs"],
     [("looking ahead", "serialization/tagged/src/derive_support.rs"), ("choices by tag", "serialization/tagged/derive/src/direct.rs"), ("lists that may be none", "serialization/src/extras/non_empty_vec.rs")],
     ["the value read and the bytes used up, the text written, for each input"])
check("E01", "mc-codec", "model_checking", "exhaustive enumeration of short byte texts and of reading sequences on the real decoders against a second reading of the format", "Texts of up to two of all bytes and six of thirteen; sequences of six (seven) steps; the codec library itself is a stand-in.")
prop("E02", "Hashes and names are written, read and ordered one way only",
     """A hash is written as the text of its bytes, read back from it in either case with or without its prefix and from nothing else, and ordered by its bytes; as a number and as the name of a thing it is the same bytes.
     The hash of a value is the hash of the text it would be written as, and a thing that carries its name always carries its own.
     A program's name or a version's tag is accepted if and only if its rule allows every byte of it.""",
     ["inputs", "histories"], "every byte at every place, every length, every sequence of wrapping steps up to a depth",
     "Blocks, transactions, pools and tokens are all known by these names; one read, written or ordered differently is taken for another or for the same.",
     ["common/src/primitives/id/mod.rs", "common/src/primitives/id/with_id.rs", "common/src/primitives/hash_encoded.rs", "common/src/primitives/user_agent.rs", "common/src/primitives/version_tag.rs", "utils/src/fixed_hash.rs"],
     [("hashes and names", "common/src/primitives/id/mod.rs"), ("a thing with its name", "common/src/primitives/id/with_id.rs"), ("names of programs", "common/src/primitives/user_agent.rs")],
     ["each text, value, order and answer"])
check("E02", "mc-codec", "model_checking", "exhaustive enumeration of bytes, places, lengths and wrapping sequences on the real types against their definitions", "Hashes differing in one byte at each place; strings to 30 (200) bytes.")
prop("E03", "Blocks and transactions have one text each and are named by the right part of it",
     """A text is read as a transaction, header, block or part of one if and only if the stated grammar allows it, with as many witnesses as inputs, and is written again as it was.
     The name of a transaction is the hash of its text without witnesses, that of a block the hash of its header without the signature, and the header's roots fix every part of the body and its place.
     Pools, delegations, orders and tokens are named by the first input that fits, and no two things share a name.""",
     ["inputs"], "every text the grammar generates, with each byte replaced, cut, doubled or added; every short list of parts or inputs",
     "A second text for the same transaction, or a part its name does not fix, lets anyone change what others signed or split the network; only the texts no wallet writes show it.",
     ["common/src/chain/transaction/mod.rs", "common/src/chain/transaction/transaction_v1.rs", "common/src/chain/transaction/signed_transaction.rs", "common/src/chain/transaction/input.rs", "common/src/chain/transaction/output/mod.rs", "common/src/chain/block/mod.rs", "common/src/chain/block/block_header.rs", "common/src/chain/block/signed_block_header.rs", "common/src/chain/block/block_body/block_merkle.rs", "common/src/chain/block/block_body/merkle_proxy.rs", "common/src/chain/make_id.rs", "common/src/chain/genesis.rs"],
     [("reading signed transactions", "common/src/chain/transaction/signed_transaction.rs"), ("roots of the body", "common/src/chain/block/block_body/block_merkle.rs"), ("names from inputs", "common/src/chain/make_id.rs")],
     ["whether each text is read, the text written again, each name, root and proof"])
check("E03", "mc-codec", "model_checking", "exhaustive enumeration of the grammar's texts and their one-byte changes on the real decoders, ids and trees against the grammar", "Lists of up to two parts in a text, bodies of up to four (five) transactions; the tree library is a stand-in.")
