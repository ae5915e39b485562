//! bounds: every pair of dates of the years 1 to 9999, in either order
//! outside: years before 1 and after 9999
use crate::{api::*, util::*};
use financelib::*;

fn last_feb(x: &Ymd) -> bool { x.m == 2 && x.d == mdays(x.y, 2) }
fn nasd(a: &Ymd, b: &Ymd) -> i32 {
    let (mut d1, mut d2) = (a.d, b.d);
    if last_feb(a) && last_feb(b) { d2 = 30; }
    if last_feb(a) { d1 = 30; }
    if d2 == 31 && d1 >= 30 { d2 = 30; }
    if d1 == 31 { d1 = 30; }
    360 * (b.y - a.y) + 30 * (b.m - a.m) + d2 - d1
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c03_us() {
    let (a, b) = (any_yo(1, 9999), any_yo(1, 9999));
    let f = yearfrac(a.nd, b.nd, DayCountConvention::US30360);
    same(f, nasd(&a, &b) as f64 / 360.0, "c03 NASD rule");
    let g = yrfrac((a.nd, b.nd));
    close(g, f, 0.0, 0.0, "c03 period helper is the same number");
}
