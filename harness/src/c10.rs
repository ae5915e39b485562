//! bounds: nominal rates in [-0.5, 3], any compounding count in [1, 400]; sums written out for up to 6 payments (24 in the thorough tier), one more payment for any real term up to 60 periods, payments and final amounts |x| <= 1e6
//! outside: cancellation of floating point for tiny non-zero rates
use crate::{api::*, util::*};
use financelib::*;

fn amt() -> f64 { real(-1e6, 1e6) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c10_sum() {
    let m = pick(&[1.0, 2.0, 4.0, 12.0]);
    let k = choice(if deep() { 24 } else { 6 }) + 1;
    let (r, p, f) = (real(-0.5, 3.0), amt(), amt());
    let mut s = 0.0;
    let mut d = 1.0;
    for _ in 0..k {
        d *= 1.0 + r / m;
        s += p / d;
    }
    same(pv_annuity(r, k as f64 / m, m, p, f), -(s + f / d), "c10 sum of discounted payments");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_zero() {
    let m = compounding();
    let k = choice(if deep() { 60 } else { 12 }) + 1;
    let (p, f) = (amt(), amt());
    same(pv_annuity(0.0, k as f64 / m, m, p, f), -(k as f64 * p + f), "c10 zero rate gives the plain sum");
}
/// with no payment only the final amount counts, and a longer term adds one discounted payment: by induction the sum
/// over any whole number of payments
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_step() {
    let m = compounding();
    let (r, n, p) = (real(-0.5, 3.0), real(0.0, 60.0), amt());
    let q = 1.0 + r / m;
    same(pv_annuity(r, n + 1.0 / m, m, p, 0.0), pv_annuity(r, n, m, p, 0.0) - p / q.powf(n * m + 1.0), "c10 one more payment");
    same(pv_annuity(r, 0.0, m, p, 0.0), 0.0, "c10 no payment");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_linear() {
    let m = compounding();
    let (r, n, p, f, k) = (real(-0.5, 3.0), real(0.0, 60.0), amt(), amt(), real(-1e3, 1e3));
    same(pv_annuity(r, n, m, p, f), pv_annuity(r, n, m, p, 0.0) + pv_annuity(r, n, m, 0.0, f), "c10 payments and final amount add up");
    same(pv_annuity(r, n, m, k * p, 0.0), k * pv_annuity(r, n, m, p, 0.0), "c10 linear in the payment");
    same(pv_annuity(r, n, m, 0.0, k * f), k * pv_annuity(r, n, m, 0.0, f), "c10 linear in the final amount");
    same(pv_annuity(r, n, m, 0.0, f), -pvm(r, n, m, f), "c10 final amount is discounted over the term");
}
