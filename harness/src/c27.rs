//! bounds: prices and faces in [1, 1e6], income and end values in [0, 1e6], tenors in [1, 1000] days
use crate::api::*;
use financelib::fixedincomes::moneymarkets::*;

fn amt() -> f64 { real(1.0, 1e6) }
fn days() -> f64 { real(1.0, 1000.0) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c27_bill() {
    let (t, p, f, r) = (days(), amt(), amt(), real(-1.0, 1.0));
    same(t_bill_r(t, p, f), (f - p) / f * (360.0 / t), "c27 bank discount rate");
    same(t_bill_d(r, t, f), f * r * (t / 360.0), "c27 discount of a quoted rate");
    same(t_bill_d(t_bill_r(t, p, f), t, f), f - p, "c27 discount from the rate of a price");
    same(t_bill_r(t, f - t_bill_d(r, t, f), f), r, "c27 rate from the discounted price");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_yields() {
    let (t, p0, p1, d) = (days(), amt(), real(0.0, 1e6), real(0.0, 1e6));
    assume(p1 + d > 1e-3);
    let h = holding_per_yield(p0, p1, d);
    same(h, (p1 + d - p0) / p0, "c27 holding period yield");
    same(money_mkt_yield(t, p0, p1, d), h * 360.0 / t, "c27 money market yield");
    same(money_mkt_yield(360.0, p0, p1, d), h, "c27 money market yield over 360 days");
    same(eff_ann_yield(365.0, p0, p1, d), h, "c27 effective yield over a year");
    same(eff_ann_yield(t, p0, p1, d), ((p1 + d) / p0).powf(365.0 / t) - 1.0, "c27 effective annual yield compounds");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_sign() {
    let (t, p0, p1, d) = (days(), amt(), real(0.0, 1e6), real(0.0, 1e6));
    assume(p1 + d > 1e-3);
    let e = eff_ann_yield(t, p0, p1, d);
    let m = money_mkt_yield(t, p0, p1, d);
    if p1 + d > p0 { check((e > 0.0) & (m > 0.0), "c27 gains give positive yields"); }
    if p1 + d < p0 { check((e < 0.0) & (m < 0.0), "c27 losses give negative yields"); }
    if p1 + d == p0 { same(e, 0.0, "c27 no gain, no effective yield"); same(m, 0.0, "c27 no gain, no money market yield"); }
}
/// compounding the effective annual yield back over the tenor
#[unsafe(no_mangle)]
pub extern "C" fn h_c27_compound() {
    let (t, p0, p1, d) = (days(), amt(), real(1.0, 1e6), real(0.0, 1e6));
    let e = eff_ann_yield(t, p0, p1, d);
    same((1.0 + e).powf(t / 365.0), (p1 + d) / p0, "c27 effective yield compounds to the holding period growth");
}
