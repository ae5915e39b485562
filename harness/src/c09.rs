//! bounds: amounts in [0.01, 1e9], rates in [-0.9, 3], horizons up to 60, any compounding count in [1, 400]
//! outside: differences below floating-point resolution
use crate::{api::*, util::*};
use financelib::*;

fn amt() -> f64 { real(0.01, 1e9) }
/// two rates, the second higher
fn rates(lo: f64) -> (f64, f64) { let (a, b) = (real(lo, 3.0), real(lo, 3.0)); assume(a < b); (a, b) }
fn horizons() -> (f64, f64) { let (a, b) = (real(-60.0, 60.0), real(-60.0, 60.0)); assume(a < b); (a, b) }
fn hor() -> f64 { let n = real(0.0, 60.0); assume(n > 0.0); n }

#[unsafe(no_mangle)]
pub extern "C" fn h_c09_rate() {
    let (n, x, (r, s)) = (hor(), amt(), rates(-0.9));
    check(pv(s, n, x) < pv(r, n, x), "c09 present value falls as the rate grows");
    check(fv(s, n, x) > fv(r, n, x), "c09 future value rises as the rate grows");
    check(dis_fact(s, n) < dis_fact(r, n), "c09 discount factor falls as the rate grows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_rate_multi() {
    let (n, x, (r, s)) = (hor(), amt(), rates(-0.9));
    let m = compounding();
    check(pvm(s, n, m, x) < pvm(r, n, m, x), "c09 multiply compounded present value falls as the rate grows");
    check(fvm(s, n, m, x) > fvm(r, n, m, x), "c09 multiply compounded future value rises as the rate grows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_rate_cont() {
    let (n, x, (r, s)) = (hor(), amt(), rates(-3.0));
    check(pvc(s, n, x) < pvc(r, n, x), "c09 continuous present value falls as the rate grows");
    check(fvc(s, n, x) > fvc(r, n, x), "c09 continuous future value rises as the rate grows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_horizon() {
    let (x, r, (a, b)) = (amt(), real(0.0001, 3.0), horizons());
    check(pv(r, b, x) < pv(r, a, x), "c09 present value falls as the horizon grows");
    check(fv(r, b, x) > fv(r, a, x), "c09 future value rises as the horizon grows");
    check(pvc(r, b, x) < pvc(r, a, x), "c09 continuous present value falls as the horizon grows");
    check(fvc(r, b, x) > fvc(r, a, x), "c09 continuous future value rises as the horizon grows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_horizon_multi() {
    let (x, r, (a, b)) = (amt(), real(0.0001, 3.0), horizons());
    let m = compounding();
    check(pvm(r, b, m, x) < pvm(r, a, m, x), "c09 multiply compounded present value falls as the horizon grows");
    check(fvm(r, b, m, x) > fvm(r, a, m, x), "c09 multiply compounded future value rises as the horizon grows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_between() {
    let (n, x, r) = (real(0.0, 60.0), amt(), real(0.0, 3.0));
    let m = compounding();
    for v in [pv(r, n, x), pvm(r, n, m, x), pvc(r, n, x)] {
        check(v > 0.0, "c09 present value stays positive");
        check(v <= x, "c09 present value is at most the amount");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c09_scale() {
    let (n, x, r, k) = (real(-60.0, 60.0), real(-1e6, 1e6), real(-0.9, 3.0), real(-1e3, 1e3));
    let m = compounding();
    same(pv(r, n, k * x), k * pv(r, n, x), "c09 present value is linear in the amount");
    same(pvm(r, n, m, k * x), k * pvm(r, n, m, x), "c09 multiply compounded present value is linear in the amount");
    same(pvc(r, n, k * x), k * pvc(r, n, x), "c09 continuous present value is linear in the amount");
    same(fv(r, n, k * x), k * fv(r, n, x), "c09 future value is linear in the amount");
    same(fvm(r, n, m, k * x), k * fvm(r, n, m, x), "c09 multiply compounded future value is linear in the amount");
    same(fvc(r, n, k * x), k * fvc(r, n, x), "c09 continuous future value is linear in the amount");
}
