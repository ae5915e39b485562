//! bounds: up to 4 flows (6 in the thorough tier) |x| <= 1e6 at times in [-30, 30] or up to 3 dated flows (any one date of the years 1950 to 2100 free, the others fixed), rates in [-0.9, 3]
//! outside: more flows; lists of different lengths
use crate::{api::*, util::*};
use financelib::*;

fn flows(n: usize) -> (Vec<f64>, Vec<f64>) { ((0..n).map(|_| real(-30.0, 30.0)).collect(), (0..n).map(|_| real(-1e6, 1e6)).collect()) }
fn rate() -> f64 { real(-0.9, 3.0) }
fn size() -> usize { choice(if deep() { 7 } else { 5 }) as usize }

#[unsafe(no_mangle)]
pub extern "C" fn h_c13_sum() {
    let n = size();
    let (r, t0) = (rate(), real(-30.0, 30.0));
    let (t, c) = flows(n);
    let mut s = 0.0;
    for i in 0..n { s += c[i] / (1.0 + r).powf(t[i]); }
    same(npv_t0(r, &t, &c), s, "c13 sum of discounted flows");
    same(npv(r, &t, t0, &c), s * (1.0 + r).powf(t0), "c13 valued at another time");
    same(npv(r, &t, 0.0, &c), s, "c13 valued at time zero");
    same(npv_t0(0.0, &t, &c), c.iter().sum(), "c13 zero rate gives the plain sum");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_linear() {
    let n = size();
    let (r, k) = (rate(), real(-1e3, 1e3));
    let (t, c) = flows(n);
    let d: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
    let e: Vec<f64> = (0..n).map(|i| k * c[i] + d[i]).collect();
    same(npv_t0(r, &t, &e), k * npv_t0(r, &t, &c) + npv_t0(r, &t, &d), "c13 linear in the flows");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_order() {
    let n = size();
    let r = rate();
    let (mut t, mut c) = flows(n);
    let x = npv_t0(r, &t, &c);
    if n >= 2 {
        let i = choice(n as u32 - 1) as usize;
        t.swap(i, i + 1);
        c.swap(i, i + 1);
    }
    same(npv_t0(r, &t, &c), x, "c13 independent of the order");
}
fn ymd(y: i32, m: u32, d: u32) -> chrono::NaiveDate { chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap() }
/// the valuation date or one of the flow dates is any date, the others are picked
#[unsafe(no_mangle)]
pub extern "C" fn h_c13_dated() {
    let r = rate();
    let n = choice(4) as usize;
    let free = choice(n as u32 + 1) as usize;
    let fixed = [ymd(2019, 12, 31), ymd(2024, 2, 29), ymd(2021, 6, 15), ymd(2018, 8, 30)];
    let mut all: Vec<_> = (0..n + 1).map(|i| fixed[i]).collect();
    all[free] = any_date_m(1950, 2100).nd;
    let d0 = all[0];
    let d = all[1..].to_vec();
    let c: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
    let mut s = 0.0;
    for i in 0..n { s += c[i] / (1.0 + r).powf(yearfrac(d0, d[i], DayCountConvention::US30360)); }
    same(xnpv(r, &d, d0, &c), s, "c13 dated flows at US 30/360 year fractions from the valuation date");
}
