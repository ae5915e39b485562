//! bounds: 2 to 4 flows |x| <= 1e6 at times in [0, 30] (2 or 3 dated flows, one date of the years 1950 to 2100 free) whose net present value vanishes at 10% with a slope there above 10 per unit; an investment over one year at any rate within 0.01% of 10% (two Newton steps)
//! outside: searches that need more steps (the steps themselves are the subject of C14)
use crate::{api::*, util::*};
use financelib::*;

fn value(t: &[f64], c: &[f64], r: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..t.len() { s += c[i] / (1.0 + r).powf(t[i]); }
    s
}
/// any flows at these times, the last one such that the value at 10% vanishes
fn fair(t: &[f64]) -> Vec<f64> {
    let n = t.len();
    let mut c: Vec<f64> = (0..n - 1).map(|_| real(-1e6, 1e6)).collect();
    let r = konst(0.1);
    let v = value(&t[..n - 1], &c, r);
    c.push(-v * (1.0 + r).powf(t[n - 1]));
    assume(value(t, &c, r + 1e-6 / 10.0).abs() > 1e-6);
    c
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_irr() {
    let n = choice(3) as usize + 2;
    let t: Vec<f64> = (0..n).map(|_| real(0.0, 30.0)).collect();
    let c = fair(&t);
    let got = irr(&t, &c);
    check(got.is_some(), "c15 a rate is reported");
    if let Some(r) = got { same(r, 0.1, "c15 the rate at which the net present value vanishes"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_near() {
    config(Cfg::FeasMs, 1000);
    let r = real(0.0999, 0.1001);
    // one unit now against its value with interest after a year
    match irr(&vec![konst(0.0), konst(1.0)], &vec![konst(-1.0), 1.0 + r]) {
        Some(x) => close(x, r, 0.0, 1e-6, "c15 rate of a single investment near 10%"),
        None => check(false, "a rate near 10% is reported"),
    }
}
fn ymd(y: i32, m: u32, d: u32) -> chrono::NaiveDate { chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap() }
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_dated() {
    config(Cfg::FeasMs, 3000);
    let n = choice(2) as usize + 2;
    let free = if n == 2 { choice(2) as usize } else { 1 + choice(2) as usize };
    let fixed = [ymd(2019, 12, 31), ymd(2024, 2, 29), ymd(2022, 8, 30)];
    let mut d: Vec<_> = (0..n).map(|i| fixed[i]).collect();
    d[free] = any_date_m(1950, 2100).nd;
    let t: Vec<f64> = d.iter().map(|&x| yearfrac(d[0], x, DayCountConvention::US30360)).collect();
    let c = fair(&t);
    let got = xirr(&d, &c);
    check(got.is_some(), "c15 a dated rate is reported");
    if let Some(r) = got { same(r, 0.1, "c15 the dated rate at which the net present value vanishes"); }
}
