//! bounds: par in [0, 1e6], coupon in [0, 1], rate in [-0.5, 1], frequencies 1,2,3,4,6,12, any life in [0, 60], any t in [0, 2]
use crate::api::*;
use financelib::fixedincomes::bonds::*;

fn bond() -> CouponBond { let freq = pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 12.0]); CouponBond { par: real(0.0, 1e6), c: real(0.0, 1.0), freq, t_life: real(0.0, 60.0) } }
fn rate() -> f64 { real(-0.5, 1.0) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c20_parts() {
    let (b, r, t) = (bond(), rate(), real(0.0, 2.0));
    let full = b.pv_full(r, t);
    same(full, b.price(r) * (1.0 + r / b.freq).powf(t * b.freq), "c20 full price grows at the periodic rate");
    same(b.accrued_interest(t), t * b.c * b.par, "c20 accrued interest");
    same(b.pv_flat(r, t), full - t * b.c * b.par, "c20 flat price is full price less accrued interest");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c20_start() {
    let (b, r) = (bond(), rate());
    let p = b.price(r);
    same(b.pv_full(r, 0.0), p, "c20 full price on a coupon date");
    same(b.pv_flat(r, 0.0), p, "c20 flat price on a coupon date");
    same(b.accrued_interest(0.0), 0.0, "c20 nothing accrued on a coupon date");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c20_cycle() {
    let (b, r) = (bond(), rate());
    let next = CouponBond { t_life: b.t_life, ..b };
    let b = CouponBond { t_life: b.t_life + 1.0 / b.freq, ..b };
    same(b.pv_full(r, 1.0 / b.freq), next.price(r) + b.par * b.c / b.freq, "c20 at the end of a cycle: next price and the coupon");
    same(b.pv_flat(r, 1.0 / b.freq), next.price(r), "c20 at the end of a cycle the flat price is the next price");
}
