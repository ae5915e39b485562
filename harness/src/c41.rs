//! bounds: sequences of 1 to 4 periods (thorough: 6) and accounts of up to 3 periods, any dates of the years 2020 to 2023; sequences also with dates of the years 1900 to 2100
//! outside: longer sequences; the empty sequence (refused)
use crate::{api::*, stm::*};
use financelib::statements::*;

fn valid(v: &[P]) -> bool {
    let mut ok = true;
    for i in 0..v.len() {
        ok &= v[i].0 <= v[i].1;
        if i > 0 { ok &= v[i].0 == v[i - 1].1; }
    }
    ok
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c41_sequence() {
    let n = choice(if deep() { 6 } else { 4 }) as usize + 1;
    let v: Vec<P> = (0..n).map(|_| (any_day(), any_day())).collect();
    let got = check_dates(&v);
    check(got == valid(&v), "c41 accepted exactly when unbroken and in order");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c41_chained() {
    // periods that do chain are accepted
    let n = choice(if deep() { 6 } else { 4 }) as usize + 1;
    let d: Vec<_> = (0..=n).map(|_| any_day()).collect();
    let v: Vec<P> = (0..n).map(|i| (d[i], d[i + 1])).collect();
    check(check_dates(&v) == valid(&v), "c41 chained periods accepted exactly when in order");
}
fn filled(n: usize) -> (Accounts, Vec<P>) {
    let mut ac = account();
    let v: Vec<P> = (0..n).map(|_| (near_day(), near_day())).collect();
    for p in &v { ac.profit_loss.insert(*p, PlMap::new()); }
    (ac, v)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c41_account() {
    let (ac, _) = filled(choice(3) as usize + 1);
    let sorted: Vec<P> = ac.profit_loss.keys().copied().collect();
    for i in 1..sorted.len() { check(sorted[i - 1] < sorted[i], "c41 account periods are in order"); }
    check(ac.check_dates() == valid(&sorted), "c41 an account is valid when its periods in order are");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c41_collect() {
    let (mut ac, v) = filled(choice(if deep() { 4 } else { 3 }) as usize);
    let old = near_day();
    let had = flag();
    if had { ac.dates.insert(old); }
    let mut bad = false;
    for p in &v { if p.0 > p.1 { bad = true; } }
    if bad { expect_panic(true); }
    ac.set_dates_from_profit_loss();
    for d in &ac.dates {
        let mut from = had && *d == old;
        for p in &v { from |= *d == p.0 || *d == p.1; }
        check(from, "c41 only boundary dates are collected");
    }
    for p in &v {
        check(ac.valid_date(p.0) && ac.valid_date(p.1), "c41 every boundary date is collected");
    }
    if had { check(ac.valid_date(old), "c41 every boundary date is collected"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c41_known() {
    let (mut ac, v) = filled(1);
    let (old, q) = (near_day(), near_day());
    ac.dates.insert(old);
    assume(v[0].0 <= v[0].1);
    ac.set_dates_from_profit_loss();
    check(ac.valid_date(q) == (q == old || q == v[0].0 || q == v[0].1), "c41 a date is valid exactly when it is a collected date");
}
