mod chain;
mod forms;
mod names;
use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check { id: "E01", level: "model_checking", rule: "a text of bytes is read if and only if the second reading of the format reads it, to the same value, and written back it is the same text", assumptions: &["the format's own library, not in the sandbox, is replaced by a stand-in"], run: forms::run },
        Check { id: "E02", level: "model_checking", rule: "each name, hash and text of them is what the definition gives", assumptions: &["the hash is K05's"], run: names::run },
        Check { id: "E03", level: "model_checking", rule: "the code reads exactly the texts of the grammar, writes them as they were, and names each by the hash of its own part", assumptions: &["the tree of hashes, whose library is not in the sandbox, is a stand-in", "keys, signatures and draws are read by their own types (K03, K05)"], run: chain::run },
    ]);
}
