WHY = "The tests try a dozen values per operation; carries, borrows, limits and unusual texts only fail at particular values."
OVER = ["inputs"]
ROUND = "Exhaustive over the stated value sets and string lengths; wider words and longer strings than stated are not visited."

prop("N01", "Amount arithmetic is exact: the true result or a refusal, never a wrapped one",
     """Every checked operation on amounts and signed amounts (add, subtract, multiply, divide, remainder, power,
     negation, sums, conversions between them) returns the exact mathematical result if it fits in the type and nothing
     otherwise. Comparison agrees with the numeric order, and absolute difference is the exact distance.""",
     OVER, "every pair of amounts", WHY,
     ["common/src/primitives/amount/mod.rs", "common/src/primitives/amount/signed.rs"],
     [("checked integer operations", "common/src/primitives/amount/mod.rs"), ("signed counterpart", "common/src/primitives/amount/signed.rs")],
     ["results of the public operations"])
check("N01", "mc-prim", "exploration", "exhaustive enumeration of boundary operands against big-number reference", ROUND)

prop("N02", "Amounts written in decimal mean exactly the same amount everywhere",
     """A decimal text within the length limit is accepted as an amount exactly when it is a plain decimal number representable with the given
     number of decimals, and then the amount is exactly that number of atoms. Printing an amount with any number of
     decimals and reading it back gives the same amount, both directly and through the representations used in the RPC
     interface. Decimal amounts compare, subtract and pad without ever changing the value they stand for.""",
     OVER, "every text and every amount, with every number of decimals", WHY,
     ["common/src/primitives/amount/decimal.rs", "common/src/primitives/amount/mod.rs", "common/src/primitives/amount/rpc.rs"],
     [("parsing and printing of mantissa and decimals", "common/src/primitives/amount/decimal.rs"),
      ("fixed-point conversion", "common/src/primitives/amount/mod.rs")],
     ["accepted texts, resulting atoms, printed text"])
check("N02", "mc-prim", "exploration", "exhaustive enumeration of short texts, boundary amounts and paddings against character-level reference", ROUND)

prop("N03", "Wide unsigned integers compute exactly",
     """Addition, subtraction, multiplication, division, shifts, bit operations, comparison and bit length of 128-, 256-
     and 512-bit integers agree with exact arithmetic modulo the width, with overflow, division by zero and negative
     results reported where the operation is a checked one. Converting to a wider type, to bytes in either order or to hexadecimal
     text and back preserves the value, and converting to a narrower one succeeds exactly when the value fits.""",
     OVER, "every pair of operands of every width", WHY,
     ["common/src/uint/impls.rs", "common/src/uint/internal_macros.rs", "common/src/uint/mod.rs"],
     [("word-wise long arithmetic", "common/src/uint/internal_macros.rs"), ("conversions", "common/src/uint/impls.rs")],
     ["results of the public operations"])
check("N03", "mc-prim", "exploration", "exhaustive enumeration of word patterns against big-number reference", ROUND)

prop("N04", "The compact form of a difficulty target is canonical and never off",
     """Decoding a compact target gives the number its exponent and mantissa stand for, and is refused exactly for
     negative and overflowing encodings. Encoding a 256-bit target drops only the low bits that do not fit in the
     mantissa, never sets the sign bit, and encoding a decoded canonical target gives the same compact value back.""",
     OVER, "every 32-bit compact value and every target", WHY,
     ["common/src/primitives/compact.rs"],
     [("exponent/mantissa conversion", "common/src/primitives/compact.rs")],
     ["the decoded 256-bit number, the encoded 32-bit number"])
check("N04", "mc-prim", "exploration", "exhaustive enumeration of compact values and leading bytes against reference", ROUND)

prop("N05", "Fractions, thousandths, versions, heights and times keep order and text exactly",
     """Fractions compare as the rational numbers they stand for, a per-thousand value exists exactly for 0..=1000 and
     survives text and JSON unchanged, version numbers order by major, minor, patch and survive text unchanged. Block heights,
     distances and counts and timestamps add and subtract exactly or report that they cannot. A replaced clock is seen by every
     reader until the next replacement or reset.""",
     OVER, "every pair of values and every text", WHY,
     ["common/src/primitives/rational.rs", "common/src/primitives/per_thousand.rs", "common/src/primitives/semver.rs",
      "common/src/primitives/height.rs", "common/src/primitives/time.rs", "common/src/time_getter.rs"],
     [("cross-multiplication order", "common/src/primitives/rational.rs"), ("bounded constructor and text", "common/src/primitives/per_thousand.rs"),
      ("checked height arithmetic", "common/src/primitives/height.rs"), ("checked time arithmetic", "common/src/primitives/time.rs")],
     ["results of the public operations and text forms"])
check("N05", "mc-prim", "exploration", "exhaustive enumeration of boundary values and short texts against integer reference", ROUND)

prop("N06", "A mistyped address text is refused, an intact one decodes to its bytes",
     """Encoding bytes with a prefix gives a text that decodes to the same prefix and bytes. A text with up to two letters
     replaced, two neighbours swapped, a letter inserted or removed, or its letters' case mixed, and a text with the checksum of
     another variant, does not decode.""",
     ["inputs", "fault_sequences"], "every payload and every mistyped text within the stated distance", WHY,
     ["common/src/primitives/bech32_encoding/mod.rs"],
     [("bech32m encoding with checksum", "common/src/primitives/bech32_encoding/mod.rs")],
     ["encoded text and decoded bytes"])
check("N06", "mc-prim", "fault_enumeration", "exhaustive enumeration of payload lengths and of single and double corruptions", ROUND)
