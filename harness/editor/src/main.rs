mod c10;
mod c12;
mod c13;
mod c14;
mod c18;
mod ed;
mod model;
fn main() {
    let mut checks = c13::checks();
    checks.extend(c10::checks());
    checks.extend(c12::checks());
    checks.extend(c14::checks());
    checks.extend(c18::checks());
    vcommon::runner::main(checks)
}
