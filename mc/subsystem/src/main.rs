mod calls;
mod manager;
mod signals;

fn main() {
    if !signals::child() {
        mc_kit::main(&[calls::CHECK, manager::CHECK]);
    }
}
