mod book;
mod coins;
mod orders;
mod pos;
mod tokens;
use mc_kit::Check;

fn main() {
    mc_kit::main(&[
        Check { id: "L05", level: "model_checking", rule: "the caches over a database answer as a map of the connected transactions does, and undoing gives the map before", assumptions: &["amounts and ids are drawn from small fixed sets"], run: coins::run },
        Check { id: "L06", level: "model_checking", rule: "the view of pools and delegations over any layering of deltas is the model's, and an operation fails exactly where the model's does", assumptions: &["amounts and ids are drawn from small fixed sets"], run: pos::run },
        Check { id: "L07", level: "model_checking", rule: "the view of tokens over any layering of deltas is the model's, and an operation fails exactly where the model's does", assumptions: &["amounts and ids are drawn from small fixed sets"], run: tokens::run },
        Check { id: "L08", level: "model_checking", rule: "the view of orders over any layering of deltas is the model's, and what a fill gives is the exact quotient rounded down", assumptions: &["amounts and ids are drawn from small fixed sets"], run: orders::run },
    ]);
}
