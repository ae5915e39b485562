//! bounds: any bond (par in [1, 1e6], coupon in [0, 1], frequency 1,2,4,12, up to 4 coupons, or any life up to 60 for the par-priced bond) priced at 5%; a one-year zero-coupon bond priced at any rate within 0.01% of 5% (two Newton steps)
//! outside: searches that need more steps (the steps themselves are the subject of C14)
use crate::api::*;
use financelib::fixedincomes::bonds::*;

fn steep(f: impl Fn(f64) -> f64, r: f64) { assume((f(r + 1e-6 / 10.0) - f(r)).abs() > 1e-6); }
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_five() {
    config(Cfg::FeasMs, 2000);
    let freq = pick(&[1.0, 2.0, 4.0, 12.0]);
    let b = CouponBond { par: real(1.0, 1e6), c: real(0.0, 1.0), freq, t_life: (choice(4) + 1) as f64 / freq };
    let r = konst(0.05);
    steep(|x| b.price(x), r);
    same(b.ytm(b.price(r)), 0.05, "c19 the yield of the price at 5% is 5%");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_par() {
    config(Cfg::FeasMs, 2000);
    let freq = pick(&[1.0, 2.0, 4.0, 12.0]);
    let b = CouponBond { par: real(1.0, 1e6), c: konst(0.05), freq, t_life: real(0.1, 60.0) };
    steep(|x| b.price(x), konst(0.05));
    same(b.ytm(b.par), 0.05, "c19 a par-priced 5% bond yields 5%");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c19_near() {
    config(Cfg::FeasMs, 2000);
    let r = real(0.0499, 0.0501);
    let b = CouponBond { par: konst(100.0), c: konst(0.0), freq: konst(1.0), t_life: konst(1.0) };
    let p = b.price(r);
    let y = b.ytm(p);
    close(y, r, 0.0, 1e-6, "c19 yield of a price near that at 5%");
}
