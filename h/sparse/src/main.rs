mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s07;

fn main() {
    mc::main_with(&[("S01", s01::explore), ("S02", s02::explore), ("S03", s03::explore), ("S04", s04::explore), ("S05", s05::explore), ("S06", s06::explore), ("S07", s07::explore)]);
}
