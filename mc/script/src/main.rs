mod interp;
mod parse;
mod reference;

use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check {
            id: "C01",
            level: "model_checking",
            rule: "every script of the stated spaces is run by the real interpreter and by an independent reference interpreter from the same stack; non-trivial: a run that ends without an error, or the first occurrence of a distinct refused opcode/stack shape",
            assumptions: &["scripts longer than the stated bounds behave compositionally", "the signature scheme is the caller's (a counting stand-in is used)"],
            run: interp::run,
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "every byte string, number and builder call sequence of the stated spaces is parsed, built and printed by the real code and compared with a grammar written in the harness; non-trivial: a string that parses, a number or builder sequence",
            assumptions: &["scripts longer than the stated bounds behave like those in them"],
            run: parse::run,
        },
    ]);
}
