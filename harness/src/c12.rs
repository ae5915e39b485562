//! bounds: rates in [-0.9, 3] (nominal rates above -0.9 of one compounding period), any compounding count in [1, 400]
//! outside: compounding less than once a period
use crate::{api::*, util::*};
use financelib::*;

fn rate() -> f64 { real(-0.9, 3.0) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c12_inverse() {
    let m = compounding();
    let r = rate();
    same(eff_nom_rate(nom_eff_rate(r, m), m), r, "c12 nominal to effective and back");
    same(nom_eff_rate(eff_nom_rate(r, m), m), r, "c12 effective to nominal and back");
    same(exp_eff_rate(eff_exp_rate(r)), r, "c12 effective to exponential and back");
    same(eff_exp_rate(exp_eff_rate(r)), r, "c12 exponential to effective and back");
    same(exp_nom_rate(nom_exp_rate(r, m), m), r, "c12 nominal to exponential and back");
    same(nom_exp_rate(exp_nom_rate(r, m), m), r, "c12 exponential to nominal and back");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_value() {
    let m = compounding();
    let r = rate();
    same(nom_eff_rate(r, m), (1.0 + r / m).powf(m) - 1.0, "c12 effective rate of a nominal rate");
    same(exp_eff_rate(r), r.exp() - 1.0, "c12 effective rate of an exponential rate");
    let (n, x) = (real(-60.0, 60.0), real(-1e6, 1e6));
    same(fv(nom_eff_rate(r, m), n, x), fvm(r, n, m, x), "c12 nominal and effective rate describe the same growth");
    same(fv(exp_eff_rate(r), n, x), fvc(r, n, x), "c12 exponential and effective rate describe the same growth");
    same(fvc(nom_exp_rate(r, m), n, x), fvm(r, n, m, x), "c12 nominal and exponential rate describe the same growth");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_increasing() {
    let m = compounding();
    let (r, s) = (rate(), rate());
    assume(r < s);
    check(nom_eff_rate(r, m) < nom_eff_rate(s, m), "c12 effective rate grows with the nominal rate");
    check(eff_nom_rate(r, m) < eff_nom_rate(s, m), "c12 nominal rate grows with the effective rate");
    check(exp_eff_rate(r) < exp_eff_rate(s), "c12 effective rate grows with the exponential rate");
    check(eff_exp_rate(r) < eff_exp_rate(s), "c12 exponential rate grows with the effective rate");
    check(nom_exp_rate(r, m) < nom_exp_rate(s, m), "c12 exponential rate grows with the nominal rate");
    check(exp_nom_rate(r, m) < exp_nom_rate(s, m), "c12 nominal rate grows with the exponential rate");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_sign() {
    let m = compounding();
    let r = rate();
    if r > 0.0 {
        for x in [nom_eff_rate(r, m), eff_nom_rate(r, m), exp_eff_rate(r), eff_exp_rate(r), nom_exp_rate(r, m), exp_nom_rate(r, m)] { check(x > 0.0, "c12 positive rates stay positive"); }
    } else if r < 0.0 {
        for x in [nom_eff_rate(r, m), eff_nom_rate(r, m), exp_eff_rate(r), eff_exp_rate(r), nom_exp_rate(r, m), exp_nom_rate(r, m)] { check(x < 0.0, "c12 negative rates stay negative"); }
    } else {
        for x in [nom_eff_rate(r, m), eff_nom_rate(r, m), exp_eff_rate(r), eff_exp_rate(r), nom_exp_rate(r, m), exp_nom_rate(r, m)] { same(x, 0.0, "c12 zero rate stays zero"); }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_order() {
    let m = compounding();
    let r = rate();
    check(nom_eff_rate(r, m) >= r, "c12 effective rate is at least the nominal rate");
    check(nom_exp_rate(r, m) <= r, "c12 exponential rate is at most the nominal rate");
    check(eff_nom_rate(r, m) <= r, "c12 nominal rate is at most the effective rate");
    check(exp_nom_rate(r, m) >= r, "c12 nominal rate is at least the exponential rate");
}
