mod auth;
mod creds;
mod hints;
mod subs;
mod texts;

use mc_kit::Check;

fn main() {
    const RULE: &str = "every case of the stated space is run through the real code and compared with a reference; non-trivial: a case that is accepted, or that differs from every other by what it must refuse";
    mc_kit::main(&[
        Check { id: "R01", level: "exploration", rule: RULE, assumptions: &["the HTTP, JSON-RPC and Argon2 libraries are correct"], run: auth::run },
        Check { id: "R02", level: "model_checking", rule: "every configuration, and every history of the stated operations on a scratch directory, is run through the real code and compared with a reference; non-trivial: a configuration of its own, or a history that leaves a cookie to be read", assumptions: &["the file system behaves like the one used"], run: creds::run },
        Check { id: "R03", level: "model_checking", rule: "every history of the stated operations is run on the real objects and compared with a reference after each one; non-trivial: a history that delivers something", assumptions: &["the JSON-RPC library delivers what it is given, in order"], run: subs::run },
        Check { id: "R04", level: "exploration", rule: RULE, assumptions: &["the JSON library is correct"], run: texts::run },
        Check { id: "R05", level: "exploration", rule: RULE, assumptions: &["the JSON library is correct"], run: hints::run },
    ]);
}
