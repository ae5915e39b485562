//! Shared pieces of the harnesses: symbolic dates and independent oracles.
#![allow(dead_code)]
use crate::api::*;
use chrono::NaiveDate;

/// Gregorian rule, written independently of the library
pub fn leap(y: i32) -> bool { if y % 100 == 0 { y % 400 == 0 } else { y % 4 == 0 } }
pub fn mdays(y: i32, m: i32) -> i32 {
    // lengths packed as (days - 28), two bits per month, January in the lowest bits
    let base = 28 + ((0b11_10_11_10_11_11_10_11_10_11_00_11u32 >> (2 * (m - 1))) & 3) as i32;
    base + ((m == 2) & leap(y)) as i32
}
#[derive(Clone, Copy)]
pub struct Ymd { pub y: i32, pub m: i32, pub d: i32, pub o: i32, pub nd: NaiveDate }
/// any calendar date of the years y0..=y1, with its own year, month and day
pub fn any_date(y0: i32, y1: i32) -> Ymd {
    let (y, m, d) = (int(y0, y1), int(1, 12), int(1, 31));
    assume(d <= mdays(y, m));
    let o = NaiveDate::from_ymd_opt(y, m as u32, d as u32);
    assume(o.is_some());
    Ymd { y, m, d, o: ordinal(y, m, d), nd: o.unwrap() }
}
/// any date; the month is explored month by month
pub fn any_date_m(y0: i32, y1: i32) -> Ymd {
    let m = choice(12) as i32 + 1;
    let (y, d) = (int(y0, y1), int(1, 31));
    assume(d <= mdays(y, m));
    let o = NaiveDate::from_ymd_opt(y, m as u32, d as u32);
    assume(o.is_some());
    Ymd { y, m, d, o: ordinal(y, m, d), nd: o.unwrap() }
}
/// days before the date since 1 January of year 0 (proleptic Gregorian), by the textbook formula
pub fn day_number(y: i32, m: i32, d: i32) -> i32 {
    let p = y - 1;
    let before = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    before + ordinal(y, m, d)
}
pub fn ordinal(y: i32, m: i32, d: i32) -> i32 {
    // 30.6-day months counted from March
    if m <= 2 { 31 * (m - 1) + d } else { (153 * (m - 3) + 2) / 5 + d + 59 + leap(y) as i32 }
}

/// any calendar date of the years y0..=y1 given by year (as 400 q + m) and day of year; month and day are read
/// through chrono
pub fn any_yo(y0: i32, y1: i32) -> Ymd {
    use chrono::Datelike;
    let (q, m, o) = (int(y0 / 400, y1 / 400), int(0, 399), int(1, 366));
    let y = 400 * q + m;
    assume(y >= y0);
    assume(y <= y1);
    let nd = NaiveDate::from_yo_opt(y, o as u32);
    assume(nd.is_some());
    let nd = nd.unwrap();
    Ymd { y: nd.year(), m: nd.month() as i32, d: nd.day() as i32, o, nd }
}
/// as any_yo, leap and common years on their own paths
pub fn any_split(y0: i32, y1: i32) -> Ymd {
    let l = flag();
    let (q, m, o) = (int(y0 / 400, y1 / 400), int(0, 399), int(1, 366));
    let y = 400 * q + m;
    assume(y >= y0);
    assume(y <= y1);
    assume(l == leap(y));
    assume(o <= if l { 366 } else { 365 });
    let nd = NaiveDate::from_yo_opt(y, o as u32).unwrap();
    use chrono::Datelike;
    Ymd { y: nd.year(), m: nd.month() as i32, d: nd.day() as i32, o, nd }
}
/// any two dates, the first strictly earlier; leap and common years, same year, same 400-year cycle and later cycle
/// on their own paths
pub fn any_pair(y0: i32, y1: i32) -> (Ymd, Ymd) {
    let (a, b) = (any_split(y0, y1), any_split(y0, y1));
    match choice(3) {
        0 => { assume(a.y == b.y); assume(a.o < b.o); }
        1 => { assume(a.y < b.y); assume(a.y / 400 == b.y / 400); }
        _ => assume(a.y / 400 < b.y / 400),
    }
    (a, b)
}
/// compoundings per period: the usual counts, and any real count between 1 and 400
pub fn compounding() -> f64 {
    let usual = [1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 52.0, 365.0];
    let i = choice(10) as usize;
    if i < 9 { usual[i] } else { real(1.0, 400.0) }
}
