//! bounds: par in [0, 1e6], coupon in [0, 1], nominal rate in [-0.5, 1], frequencies 1,2,3,4,6,12, up to 6 coupons written out (24 in the thorough tier)
//! outside: longer schedules (the annuity step of C10 extends the sum to any length)
use crate::api::*;
use financelib::fixedincomes::bonds::*;

const FS: [f64; 6] = [1.0, 2.0, 3.0, 4.0, 6.0, 12.0];
fn bond(k: u32) -> CouponBond { let freq = pick(&FS); CouponBond { par: real(0.0, 1e6), c: real(0.0, 1.0), freq, t_life: k as f64 / freq } }
fn len() -> u32 { choice(if deep() { 24 } else { 6 }) + 1 }

#[unsafe(no_mangle)]
pub extern "C" fn h_c17_flows() {
    let b = bond(len());
    let r = real(-0.5, 1.0);
    let (mut s, mut d) = (0.0, 1.0);
    for c in b.generate_cashflow() {
        d *= 1.0 + r / b.freq;
        s += c / d;
    }
    same(b.price(r), s, "c17 price is the present value of the schedule");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_zero() {
    let b = bond(len());
    same(b.price(0.0), b.generate_cashflow().iter().sum(), "c17 at a zero rate the price is the plain sum");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_par() {
    let mut b = bond(1);
    b.t_life = real(0.0, 60.0);
    same(b.price(b.c), b.par, "c17 coupon rate prices at par");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_side() {
    let b = bond(choice(if deep() { 6 } else { 4 }) + 1);
    let r = real(-0.5, 1.0);
    assume(b.par > 1.0);
    let p = b.price(r);
    if r < b.c - 1e-6 { check(p > b.par, "c17 above par when the rate is below the coupon"); }
    if r > b.c + 1e-6 { check(p < b.par, "c17 below par when the rate is above the coupon"); }
}
