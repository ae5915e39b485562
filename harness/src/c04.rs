//! bounds: every pair of dates of the years 1 to 9999, in either order
//! outside: years before 1 and after 9999
use crate::{api::*, util::*};
use financelib::*;

#[unsafe(no_mangle)]
pub extern "C" fn h_c04_eu() {
    let (a, b) = (any_yo(1, 9999), any_yo(1, 9999));
    let f = yearfrac(a.nd, b.nd, DayCountConvention::EU30360);
    let cap = |d: i32| if d == 31 { 30 } else { d };
    let n = 360 * (b.y - a.y) + 30 * (b.m - a.m) + cap(b.d) - cap(a.d);
    same(f, n as f64 / 360.0, "c04 EU rule");
    let g = yearfrac(b.nd, a.nd, DayCountConvention::EU30360);
    close(g, -f, 0.0, 0.0, "c04 swapping flips the sign");
}
