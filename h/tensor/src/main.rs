mod reft;
mod t01;
mod t02;
mod t03;
mod t04;

fn main() {
    mc::main_with(&[("T01", t01::explore), ("T02", t02::explore), ("T03", t03::explore), ("T04", t04::explore)]);
}
