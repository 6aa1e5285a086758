mod child;
mod config;

fn main() {
    if !child::child() {
        mc_kit::main(&[config::CHECK]);
    }
}
