mod model;
mod o01;
mod o02;
mod o03;
mod o04;
mod o05;
mod o06;
mod o07;
mod problems;

fn main() {
    mc::main_with(&[("O01", o01::run), ("O02", o02::run), ("O03", o03::run), ("O04", o04::run), ("O05", o05::run), ("O06", o06::run), ("O07", o07::run)]);
}
