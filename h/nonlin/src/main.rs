mod n01;
mod n02;
mod n03;
mod n04;
mod sys;

fn main() {
    mc::main_with(&[("N01", n01::run), ("N02", n02::run), ("N03", n03::run), ("N04", n04::run)]);
}
