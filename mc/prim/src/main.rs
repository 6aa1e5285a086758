mod amounts;
mod big;
mod scalars;
mod uints;

use mc_kit::Check;

const RULE: &str = "every element of the stated input space is run through the real code and compared with a reference written from the specification (schoolbook big numbers, character-level grammars); non-trivial: a case whose result is a value, or a distinct refused boundary";

fn main() {
    let alphabet: &[&str] = &["inputs outside the stated spaces behave like those in them"];
    mc_kit::main(&[
        Check { id: "N01", level: "exploration", rule: RULE, assumptions: alphabet, run: amounts::arithmetic },
        Check { id: "N02", level: "exploration", rule: RULE, assumptions: alphabet, run: amounts::text },
        Check { id: "N03", level: "exploration", rule: RULE, assumptions: alphabet, run: uints::uints },
        Check { id: "N04", level: "exploration", rule: RULE, assumptions: alphabet, run: uints::compact },
        Check { id: "N05", level: "exploration", rule: RULE, assumptions: alphabet, run: scalars::scalars },
        Check { id: "N06", level: "exploration", rule: RULE, assumptions: alphabet, run: scalars::bech },
    ]);
}
