//! bounds: rates in [-0.9, 3], horizons in [-60, 60], dated periods of the years 1900 to 2200
//! outside: rounding of floating point beyond the tolerance
use crate::{api::*, util::*};
use financelib::*;

fn rate() -> f64 { real(-0.9, 3.0) }
fn hor() -> f64 { real(-60.0, 60.0) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c08_compose() {
    let (r, a, b) = (rate(), hor(), hor());
    same(dis_fact(r, a), 1.0 / (1.0 + r).powf(a), "c08 factor is 1/(1+r)^n");
    same(dis_fact(r, 0.0), 1.0, "c08 factor at horizon zero is one");
    same(dis_fact_annual(r), 1.0 / (1.0 + r), "c08 one-period factor is 1/(1+r)");
    same(dis_fact(r, 1.0), dis_fact_annual(r), "c08 one-period factors agree");
    same(dis_fact(r, a) * dis_fact(r, b), dis_fact(r, a + b), "c08 factors over consecutive horizons multiply");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_forward() {
    let (r0, t0, r1, t1) = (rate(), hor(), rate(), hor());
    let f = fwd_dis_fact((r0, t0), (r1, t1));
    same(f * dis_fact(r0, t0), dis_fact(r1, t1), "c08 forward factor links the two horizons");
    same(fwd_dis_fact((r0, t0), (r0, t0)), 1.0, "c08 forward factor over nothing is one");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_dated() {
    let r = rate();
    let (a, b) = (any_date_m(1900, 2200), any_date_m(1900, 2200));
    let t = yearfrac(a.nd, b.nd, DayCountConvention::US30360);
    same(xdis_fact(r, (a.nd, b.nd)), dis_fact(r, t), "c08 dated factor at the US 30/360 year fraction");
}
