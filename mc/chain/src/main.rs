mod faults;
mod locks;
mod money;
mod owners;
mod signing;
mod sim;
mod spy;
mod tree;
use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check { id: "L01", level: "model_checking", rule: "the database after every step is the image of connecting the blocks of the model's best chain in turn, and each answer is the model's", assumptions: &["all outputs are AnyoneCanSpend, blocks carry no proof of work", "the storage is the in-memory backend behind a spy"], run: tree::run },
        Check { id: "L02", level: "model_checking", rule: "a block is taken if and only if the model calls it and all below it good, and a refusal leaves the database as it was", assumptions: &["the ways to be bad are the listed ones"], run: tree::run_bad },
        Check { id: "L03", level: "fault_enumeration", rule: "after a fault the database is the image before or after the operation, and carrying on ends in the image without the fault", assumptions: &["a failed commit leaves nothing behind, as S02 checks of the backend", "faults are single errors, lasting errors and ends of the process"], run: faults::run },
        Check { id: "L04", level: "model_checking", rule: "coins and tokens added up over the whole database after each block are the model's, and a transaction is taken if and only if it balances", assumptions: &["the subsidy is the one of the regtest emission schedule"], run: money::run },
        Check { id: "L10", level: "model_checking", rule: "a block spending a locked output is taken if and only if the rule, computed apart, says the lock is open", assumptions: &["the clock of the node is set by hand"], run: locks::run },
        Check { id: "L11", level: "model_checking", rule: "a signature verifies after a change if and only if the table of what its mode covers says so", assumptions: &["hashes and the signature scheme are collision free"], run: signing::run },
        Check { id: "L12", level: "model_checking", rule: "an operation is taken if and only if it carries the signature of whom the model calls the owner at that moment", assumptions: &["keys are distinct"], run: owners::run },
    ]);
}
