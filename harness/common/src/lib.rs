//! Shared machinery of the Rust checks: the check runner (generation, shrinking, evidence, replay files,
//! known findings) and an independent model of formulas.
pub mod gen;
pub mod model;
pub mod runner;
pub use proptest;
pub use serde;
pub use serde_json;

/// `ensure!(cond, "format", args...)`: report a property violation unless `cond` holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}
/// `ensure_eq!(actual, expected, "what")`
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}\n  actual:   {:?}\n  expected: {:?}", format!($($arg)+), a, b));
        }
    }};
}
