//! bounds: every year of the 32-bit range; agreement with chrono for every year chrono supports (-262143..=262142)
//! outside: nothing
use crate::{api::*, util::*};
use chrono::NaiveDate;
use financelib::*;

#[unsafe(no_mangle)]
pub extern "C" fn h_c01_rule() {
    let y = int(i32::MIN, i32::MAX);
    let l = is_leap_year(y);
    check(l == leap(y), "c01 leap year rule");
    check(days_in_year(y) == if leap(y) { 366 } else { 365 }, "c01 days in year");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_calendar() {
    let y = int(-262143, 262142);
    let has = NaiveDate::from_yo_opt(y, 366).is_some();
    check(has == is_leap_year(y), "c01 agrees with the calendar");
    check(NaiveDate::from_yo_opt(y, days_in_year(y) as u32).is_some(), "c01 last day exists");
    check(NaiveDate::from_yo_opt(y, days_in_year(y) as u32 + 1).is_none(), "c01 no day after the last");
}
