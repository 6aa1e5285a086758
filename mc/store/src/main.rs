mod crash;
mod semantics;
mod typed;
mod vfs;

use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check {
            id: "S01",
            level: "model_checking",
            rule: "every operation sequence within the stated bounds is run on the real backend and on a map model; after it, every key, prefix and lower bound of the probe set is read and compared; non-trivial: the sequence changes something",
            assumptions: &["keys and values outside the stated sets behave alike", "LMDB itself is emulated in memory (its crate is not available offline)"],
            run: semantics::run,
        },
        Check {
            id: "S02",
            level: "fault_enumeration",
            rule: "a state is a distinct disk image a crash can leave; it is opened with the real backend and its contents compared with the states before and after the transaction under way; non-trivial: some operation was lost or torn, or an error was reported",
            assumptions: &[
                "a disk loses any subset of what was not synced, tears writes at 512 bytes, and keeps what was synced",
                "SQLite's library code is the bundled one, run through a simulated VFS",
            ],
            run: crash::run,
        },
    ]);
}
