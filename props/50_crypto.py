prop("K01", "A signature is accepted exactly for the key and message it was made for",
     """A signature made with a private key verifies under that key's public key for that message; with any bit of the signature or message altered, or under another
     unrelated key, it is refused and nothing crashes. Signing works for every message and every kind of auxiliary data, and does not depend on what was signed before.
     Keys and signatures survive every encoding they have, and malformed encodings are refused.""",
     ["inputs"], "every key, message and alteration",
     "Tests sign a few random messages and alter one thing; they do not try every bit, every length or every encoding.",
     ["crypto/src/key/mod.rs", "crypto/src/key/secp256k1/mod.rs", "crypto/src/key/signature/mod.rs", "crypto/src/key/aux_data_provider.rs"],
     [("signing and verifying", "crypto/src/key/mod.rs"), ("secp256k1 keys", "crypto/src/key/secp256k1/mod.rs")],
     ["result of verification", "encoded bytes"])
check("K01", "mc-crypto", "exploration", "exhaustive enumeration of bit alterations, key and message combinations and encodings on the real code",
      "Every bit of every signature and of messages of all small lengths; all encodings with every byte altered or cut.")

prop("K02", "Derived keys are the ones BIP32 describes, with or without the private key",
     """A key derived along a path is the key BIP32 defines for the master key and path, step by step or in one go, and its public half is the one derived from the public parent.
     Hardened steps from a public key are refused, as are steps away from the path and paths longer than allowed.
     The text of a derivation path reads back as the same path, and text that is not a path is refused.""",
     ["histories", "inputs"], "every master key and every derivation path",
     "Tests hold the BIP32 vectors and a few paths; boundary indices, mixtures of hardened and plain steps, limits of length and of text are not reached.",
     ["crypto/src/key/hdkd/derivation_path.rs", "crypto/src/key/hdkd/child_number.rs", "crypto/src/key/hdkd/u31.rs", "crypto/src/key/extended.rs", "crypto/src/key/secp256k1/extended_keys.rs", "crypto/src/vrf/mod.rs", "crypto/src/vrf/schnorrkel/mod.rs"],
     [("derivation step", "crypto/src/key/secp256k1/extended_keys.rs"), ("paths and their text", "crypto/src/key/hdkd/derivation_path.rs"), ("VRF derivation", "crypto/src/vrf/schnorrkel/mod.rs")],
     ["derived keys, chain codes and paths"])
check("K02", "mc-crypto", "exploration", "exhaustive enumeration of derivation paths and path texts against a BIP32 reference",
      "All paths over boundary indices to depth 4 (thorough 5); all texts over the path alphabet to length 7 (thorough 8).")

prop("K03", "A VRF proof is accepted only for its key and data, and fixes its output",
     """A VRF proof made with a private key verifies under its public key for the same transcript, and gives the output the prover computed; the output does not depend on
     randomness used in the proof. With another key, another transcript (label, attachment order, split or value) or any bit altered it is refused.
     Transcripts built the same way are the same whatever builder is used.""",
     ["inputs", "histories"], "every key, transcript and alteration",
     "Tests make one proof with a fixed transcript; splits and orders of attachments, and alteration of each bit, are not tried.",
     ["crypto/src/vrf/mod.rs", "crypto/src/vrf/schnorrkel/mod.rs", "crypto/src/vrf/transcript/mod.rs", "crypto/src/vrf/transcript/no_rng.rs", "crypto/src/vrf/transcript/with_rng.rs"],
     [("proofs", "crypto/src/vrf/schnorrkel/mod.rs"), ("transcripts", "crypto/src/vrf/transcript/mod.rs")],
     ["verification result and output"])
check("K03", "mc-crypto", "exploration", "exhaustive enumeration of transcripts and alterations, all pairs, on the real code",
      "All transcripts to 3 attachments over a small alphabet, verified against every other; every bit of the proof.")

prop("K04", "What is encrypted comes back only for the right key and unaltered text",
     """Text encrypted with a symmetric key or in an end-to-end session decrypts to the same text with the same key and associated data, in either direction; with another key,
     other associated data, or any bit altered or byte cut, decryption is refused and nothing crashes.
     The two ends of a session agree on the key and no third party's key opens it; keys read back from their encoding, and malformed ones are refused.""",
     ["inputs", "histories"], "every key, text, associated data and alteration",
     "Tests encrypt a few random texts; empty text, absent against empty associated data and alteration of every byte are not covered together.",
     ["crypto/src/symkey/mod.rs", "crypto/src/symkey/chacha20poly1305/mod.rs", "crypto/src/ephemeral_e2e/mod.rs"],
     [("cipher", "crypto/src/symkey/chacha20poly1305/mod.rs"), ("sessions", "crypto/src/ephemeral_e2e/mod.rs")],
     ["cipher text, plain text or refusal"])
check("K04", "mc-crypto", "exploration", "exhaustive enumeration of texts, keys, associated data and alterations on the real code",
      "All pairs of keys, texts of all small and boundary lengths, every bit altered and every cut.")

prop("K05", "Digests and password keys depend only on their input, not on how it was fed",
     """A digest fed in any pieces, reset or reused in any order equals the digest of the whole input, for each algorithm; it is the algorithm's published function.
     A password hash gives the same key for the same password, salt and cost, verifies that password only, and refuses settings it cannot use.
     Slices compare equal in constant time exactly when they are equal.""",
     ["histories", "inputs"], "every input and every way of feeding it",
     "Tests feed a few inputs at once; histories of write, finish, reset and reuse are not tried.",
     ["crypto/src/hash/mod.rs", "crypto/src/hash/internal.rs", "crypto/src/kdf/mod.rs", "crypto/src/kdf/argon2.rs", "crypto/src/util/eq.rs"],
     [("digests", "crypto/src/hash/internal.rs"), ("password hashing", "crypto/src/kdf/mod.rs"), ("comparison", "crypto/src/util/eq.rs")],
     ["digests, keys and comparison results"])
check("K05", "mc-crypto", "exploration", "exhaustive enumeration of digest histories and comparisons against the primitive libraries",
      "All histories of write, finish and reset to length 6 (thorough 7); all pairs of short slices.")
