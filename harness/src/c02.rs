//! bounds: every date of the years 1 to 9999, every pair of such dates
//! outside: other years
//! assumes: rounding errors of the floating-point operations are modelled by their IEEE error bounds in this check
use crate::{api::*, util::*};
use chrono::{Datelike, NaiveDate};
use financelib::*;

#[unsafe(no_mangle)]
pub extern "C" fn h_c02_roundtrip() {
    config(Cfg::Round, 1);
    let y = int(1, 9999);
    let o = int(1, 366);
    assume(o <= 365 + leap(y) as i32);
    let d = NaiveDate::from_yo_opt(y, o as u32).unwrap();
    let e = date_from_float(date_to_float(d));
    check(e.year() == y, "c02 same year");
    check(e.ordinal() as i32 == o, "c02 same day of the year");
}
/// any date, the two kinds of year on their own paths
fn any() -> (i32, i32, i32, NaiveDate) {
    let l = flag();
    let (y, o) = (int(1, 9999), int(1, 366));
    assume(l == leap(y));
    let len = if l { 366 } else { 365 };
    assume(o <= len);
    (y, o, len, NaiveDate::from_yo_opt(y, o as u32).unwrap())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_value() {
    let (y, o, len, d) = any();
    same(date_to_float(d), y as f64 + o as f64 / len as f64, "c02 year plus day over length");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_increasing() {
    config(Cfg::Round, 1);
    let (a, b) = (any(), any());
    if flag() { assume(a.0 < b.0); } else { assume(a.0 == b.0); assume(a.1 < b.1); }
    check(date_to_float(a.3) < date_to_float(b.3), "c02 strictly increasing");
}
