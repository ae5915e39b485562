//! bounds: nominal rates in [-0.5, 3], terms in [1/365, 60], any compounding count in [1, 400], amounts |x| <= 1e6
//! outside: cancellation of floating point for tiny non-zero rates
use crate::{api::*, util::*};
use financelib::*;


#[unsafe(no_mangle)]
pub extern "C" fn h_c11_inverse() {
    let m = compounding();
    let (r, n, x, f) = (real(-0.5, 3.0), real(1.0 / 365.0, 60.0), real(-1e6, 1e6), real(-1e6, 1e6));
    same(pv_annuity(r, n, m, pmt(r, n, m, x, f), f), x, "c11 annuity of the payment");
    same(pmt(r, n, m, pv_annuity(r, n, m, x, f), f), x, "c11 payment of the annuity");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_zero() {
    let m = compounding();
    let (n, x, f) = (real(1.0 / 365.0, 60.0), real(-1e6, 1e6), real(-1e6, 1e6));
    same(pv_annuity(0.0, n, m, pmt(0.0, n, m, x, f), f), x, "c11 annuity of the payment at zero rate");
    same(pmt(0.0, n, m, pv_annuity(0.0, n, m, x, f), f), x, "c11 payment of the annuity at zero rate");
}
