mod r01;
mod r02;

fn main() {
    mc::main_with(&[("R01", r01::explore), ("R02", r02::explore)]);
}
