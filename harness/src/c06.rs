//! bounds: every pair of dates of the years 1 to 9999, every convention
//! outside: years before 1 and after 9999
use crate::{api::*, util::*};
use financelib::{DayCountConvention::*, *};

fn conv(k: u32) -> DayCountConvention { match k { 0 => US30360, 1 => EU30360, 2 => ACTACT, 3 => ACT360, _ => ACT365 } }

#[unsafe(no_mangle)]
pub extern "C" fn h_c06_zero() {
    let k = choice(5);
    let a = any_yo(1, 9999);
    close(yearfrac(a.nd, a.nd, conv(k)), 0.0, 0.0, 0.0, "c06 zero on equal dates");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c06_sign() {
    let k = choice(5);
    let (a, b) = any_pair(1, 9999);
    let f = yearfrac(a.nd, b.nd, conv(k));
    if k < 2 { check(f >= 0.0, "c06 never negative going forward"); } else { check(f > 0.0, "c06 positive going forward"); }
    check(yearfrac(b.nd, a.nd, conv(k)) <= 0.0, "c06 never positive going backward");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c06_near() {
    let k = choice(5);
    let (a, b) = any_pair(1, 9999);
    for x in [&a, &b] {
        let l = (x.o - 6 <= 30 * (x.m - 1) + x.d) & (30 * (x.m - 1) + x.d <= x.o + 2);
        check(l, "c06 months and days stay close to the day of the year");
        assume(l);
    }
    let days = (b.nd - a.nd).num_days() as f64;
    let f = 360.0 * yearfrac(a.nd, b.nd, conv(k));
    let room = 6.0 * days / 365.0 + 3.0;
    check(f - days <= room, "c06 not far above elapsed time");
    check(days - f <= room, "c06 not far below elapsed time");
}
