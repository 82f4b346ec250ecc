// The same exploration as in ../../tensor with the tensors stored on the heap
#[path = "../../tensor/src/reft.rs"]
mod reft;
#[path = "../../tensor/src/t01.rs"]
mod t01;
#[path = "../../tensor/src/t02.rs"]
mod t02;
#[path = "../../tensor/src/t03.rs"]
mod t03;
#[path = "../../tensor/src/t04.rs"]
mod t04;

fn main() {
    mc::main_with(&[("T01", t01::explore), ("T02", t02::explore), ("T03", t03::explore), ("T04", t04::explore)]);
}
