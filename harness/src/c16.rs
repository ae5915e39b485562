//! bounds: numbers |x| <= 1e12
//! outside: NaN and infinities
use crate::api::*;
use financelib::*;

fn num() -> f64 { real(-1e12, 1e12) }
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }

#[unsafe(no_mangle)]
pub extern "C" fn h_c16_rule() {
    let (x, y) = (num(), num());
    let (a, b) = (abs(x), abs(y));
    let big = if a > b { a } else { b };
    let want = (big < 1e-8) | (abs(x - y) < 1e-6 * big);
    check(approx(x, y) == want, "c16 relative-tolerance rule");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_laws() {
    let (x, y) = (num(), num());
    check(approx(x, x), "c16 reflexive");
    check(approx(x, y) == approx(y, x), "c16 symmetric");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_zero() {
    let x = num();
    check(is_zero(x) == (abs(x) < 1e-8), "c16 zero-like rule");
}
