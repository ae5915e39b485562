//! bounds: par and coupon any real |x| <= 1e6, frequencies 1,2,3,4,6,12,26,52 with 1 to 40 coupons (360 coupons at 12 and 365 at 365 in the thorough tier), life computed in floating point as k/frequency
//! outside: longer schedules, lives that are no whole number of coupon periods
use crate::api::*;
use financelib::fixedincomes::bonds::*;

fn schedule(freq: f64, k: u32) {
    let (par, c) = (real(-1e6, 1e6), real(-1e6, 1e6));
    let v = CouponBond { par, c, freq, t_life: k as f64 / freq }.generate_cashflow();
    check(v.len() == k as usize, "c18 one entry per coupon");
    let mut s = 0.0;
    for i in 0..v.len() {
        same(v[i], par * c / freq + if i + 1 == k as usize { par } else { 0.0 }, "c18 coupons, and the redemption with the last one only");
        s += v[i];
    }
    same(s, par + k as f64 * (par * c / freq), "c18 total is par and all coupons");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c18_schedule() {
    let freq = pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 26.0, 52.0]);
    schedule(freq, choice(40) + 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c18_long_deep() {
    config(Cfg::Steps, 50_000_000);
    let (f, k) = pick(&[(12.0, 360), (52.0, 261), (365.0, 365), (4.0, 120), (2.0, 60), (12.0, 179)]);
    schedule(f, k);
}
