mod c17;
mod c19;
mod c21;
mod c27;
mod c29;
mod c31;
mod c32;
mod c35;
mod c36;
mod expr;
mod soup;
fn main() {
    let mut checks = c17::checks();
    checks.extend(c19::checks());
    checks.extend(c21::checks());
    checks.extend(c27::checks());
    checks.extend(c29::checks());
    checks.extend(c31::checks());
    checks.extend(c32::checks());
    checks.extend(c35::checks());
    checks.extend(c36::checks());
    vcommon::runner::main(checks)
}
