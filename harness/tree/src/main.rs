mod c01;
mod c04;
mod c05;
mod c07;
mod c08;
mod c09;
mod ops;

fn main() {
    let mut checks = c01::checks();
    checks.extend(c04::checks());
    checks.extend(c05::checks());
    checks.extend(c07::checks());
    checks.extend(c08::checks());
    checks.extend(c09::checks());
    vcommon::runner::main(checks)
}
