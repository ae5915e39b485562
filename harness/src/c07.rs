//! bounds: amounts |x| <= 1e9, rates in [-0.9, 3], horizons in [-60, 60], any compounding count in [1, 400] and dated periods of the years 1900 to 2200
//! outside: rounding of floating point beyond the tolerance
use crate::{api::*, util::*};
use financelib::*;

fn amt() -> f64 { real(-1e9, 1e9) }
fn rate() -> f64 { real(-0.9, 3.0) }
fn hor() -> f64 { real(-60.0, 60.0) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c07_plain() {
    let (r, n, x) = (rate(), hor(), amt());
    same(pv(r, n, fv(r, n, x)), x, "c07 pv of fv");
    same(fv(r, n, pv(r, n, x)), x, "c07 fv of pv");
    same(fv(r, n, x), x * (1.0 + r).powf(n), "c07 fv grows by (1+r)^n");
    same(pv(r, n, x), x * dis_fact(r, n), "c07 pv is amount times discount factor");
    same(pv(r, 1.0, x), x * dis_fact_annual(r), "c07 one-period pv");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_multi() {
    let m = compounding();
    let (r, n, x) = (rate(), hor(), amt());
    same(pvm(r, n, m, fvm(r, n, m, x)), x, "c07 pvm of fvm");
    same(fvm(r, n, m, pvm(r, n, m, x)), x, "c07 fvm of pvm");
    same(fvm(r, n, m, x), x * (1.0 + r / m).powf(n * m), "c07 fvm grows by (1+r/m)^(nm)");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_cont() {
    let (r, n, x) = (real(-3.0, 3.0), hor(), amt());
    same(pvc(r, n, fvc(r, n, x)), x, "c07 pvc of fvc");
    same(fvc(r, n, pvc(r, n, x)), x, "c07 fvc of pvc");
    same(fvc(r, n, x), x * (r * n).exp(), "c07 fvc grows by e^(rn)");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_dated() {
    let (r, x) = (rate(), amt());
    let (a, b) = (any_date_m(1900, 2200), any_date_m(1900, 2200));
    let p = (a.nd, b.nd);
    let t = yearfrac(a.nd, b.nd, DayCountConvention::US30360);
    same(xpv(r, p, xfv(r, p, x)), x, "c07 xpv of xfv");
    same(xfv(r, p, xpv(r, p, x)), x, "c07 xfv of xpv");
    same(xpv(r, p, x), pv(r, t, x), "c07 xpv at the US 30/360 year fraction");
    same(xfv(r, p, x), fv(r, t, x), "c07 xfv at the US 30/360 year fraction");
    same(xpv(r, p, x), x * xdis_fact(r, p), "c07 xpv is amount times discount factor");
}
