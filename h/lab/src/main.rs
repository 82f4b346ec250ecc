mod l01;
mod l02;
mod l03;
mod l04;
mod l05;
mod l06;
mod l07;
mod l08;
mod l09;

fn main() {
    mc::main_with(&[("L01", l01::explore), ("L02", l02::explore), ("L03", l03::explore), ("L04", l04::explore), ("L05", l05::explore), ("L06", l06::explore), ("L07", l07::explore), ("L08", l08::explore), ("L09", l09::explore)]);
}
