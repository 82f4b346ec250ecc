mod geo;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;

fn main() {
    mc::main_with(&[("P01", p01::explore), ("P02", p02::explore), ("P03", p03::explore), ("P04", p04::explore), ("P05", p05::explore), ("P06", p06::explore)]);
}
