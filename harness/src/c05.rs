//! bounds: every pair and triple of dates of the years 1 to 9999
//! outside: years before 1 and after 9999
use crate::{api::*, util::*};
use chrono::Datelike;
use financelib::{DayCountConvention::*, *};

/// days of the years 0 to y - 1: every fourth is leap, every hundredth is not, every four-hundredth is
fn before(y: i32) -> i32 { 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400 }
fn dayno(a: &Ymd) -> i32 { before(a.y) + a.o }
fn pos(a: &Ymd) -> f64 { a.y as f64 + a.nd.ordinal() as f64 / (365 + leap(a.y) as i32) as f64 }

#[unsafe(no_mangle)]
pub extern "C" fn h_c05_days() {
    let (a, b) = (any_split(1, 9999), any_split(1, 9999));
    let n = dayno(&b) - dayno(&a);
    same(yearfrac(a.nd, b.nd, ACT360), n as f64 / 360.0, "c05 act/360 counts days");
    same(yearfrac(a.nd, b.nd, ACT365), n as f64 / 365.0, "c05 act/365 counts days");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c05_actact() {
    let (a, b) = (any_yo(1, 9999), any_yo(1, 9999));
    let f = yearfrac(a.nd, b.nd, ACTACT);
    same(f, pos(&b) - pos(&a), "c05 act/act is the difference of positions");
    same(yearfrac(b.nd, a.nd, ACTACT), -f, "c05 act/act flips sign");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c05_flip() {
    let (a, b) = (any_yo(1, 9999), any_yo(1, 9999));
    same(yearfrac(b.nd, a.nd, ACT360), -yearfrac(a.nd, b.nd, ACT360), "c05 act/360 flips sign");
    same(yearfrac(b.nd, a.nd, ACT365), -yearfrac(a.nd, b.nd, ACT365), "c05 act/365 flips sign");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c05_adds_up() {
    let (a, b, c) = (any_yo(1, 9999), any_yo(1, 9999), any_yo(1, 9999));
    same(yearfrac(a.nd, b.nd, ACT360) + yearfrac(b.nd, c.nd, ACT360), yearfrac(a.nd, c.nd, ACT360), "c05 act/360 adds up");
    same(yearfrac(a.nd, b.nd, ACT365) + yearfrac(b.nd, c.nd, ACT365), yearfrac(a.nd, c.nd, ACT365), "c05 act/365 adds up");
    same(yearfrac(a.nd, b.nd, ACTACT) + yearfrac(b.nd, c.nd, ACTACT), yearfrac(a.nd, c.nd, ACTACT), "c05 act/act adds up");
}
