mod chain;
mod rewards;
#[path = "../../chain/src/spy.rs"]
#[allow(dead_code)]
mod spy;
mod stakes;
mod target;
use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check { id: "T01", level: "model_checking", rule: "the target of the next block, the work, the rules in force and the weight are what big-number arithmetic over the chain gives", assumptions: &["times of proof of stake blocks grow"], run: target::run },
        Check { id: "T02", level: "model_checking", rule: "a proof of stake block passes the check if and only if every entry of the table is in order", assumptions: &["the VRF and the signatures are sound, as K05 and K01 check"], run: stakes::run },
        Check { id: "T03", level: "model_checking", rule: "each balance after a reward is what exact fractions give, rounded down, the rest going to the staker; the supply is the sum of the subsidies", assumptions: &["totals stay below 2^127 atoms"], run: rewards::run },
        Check { id: "T04", level: "model_checking", rule: "the chainstate takes exactly the blocks whose stake is in order, and its books, trust and tip are those of the heaviest branch alone", assumptions: &["the VRF and the signatures are sound, as K05 and K01 check", "draws, targets and rewards are what T01 to T03 check"], run: chain::run },
    ]);
}
