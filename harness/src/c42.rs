//! bounds: split: one period with any dates of the years 1900 to 2100 whose end year equals or follows its start year, two periods of any dates of the years 2020 to 2023; consecutive periods: one period with any dates of the years 2020 to 2023 (thorough: two periods with any days of month, the latest ending on the 1st or 28th to 31st of January, March, June or December of 2023 or 2024 and starting 2, 3, 4 or 12 months earlier, the second 3 or 12 months long and ending with or at the start of the first); chains of two (thorough: three) steps with quarters, years and 90-day periods from the 1st, 15th and 28th to 31st of each month of 2023 and 2024; restriction: every subset of four periods over three dates, statements present or absent
//! outside: more periods; dates of other years
use crate::{api::*, stm::*, util::*};
use chrono::{Datelike, NaiveDate};
use financelib::statements::{BsType::*, CfType::*, FinOthersTyp::*, PlType::*, *};
use std::collections::BTreeSet;

fn number(d: &Ymd) -> i32 { let p = d.y - 1; 365 * p + p / 4 - p / 100 + p / 400 + d.o }
fn near() -> Ymd { let nd = near_day(); Ymd { y: nd.year(), m: nd.month() as i32, d: nd.day() as i32, o: nd.ordinal() as i32, nd } }
fn sorted(ac: &Accounts, ps: &[(Ymd, Ymd)]) {
    let (long, short) = ac.split_periods();
    for (a, b) in ps {
        let p = (a.nd, b.nd);
        let l = number(b) - number(a) >= 120;
        check(long.contains(&p) == l, "c42 long periods are those of 120 days or more");
        check(short.contains(&p) == !l, "c42 every period is exactly one of long and short");
    }
    check(long.len() + short.len() == ac.profit_loss.len(), "c42 every period is exactly one of long and short");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_split() {
    let (a, b) = (any_yo(1900, 2100), any_yo(1900, 2100));
    assume(a.y <= b.y);
    assume(b.y <= a.y + 1);
    let mut ac = account();
    ac.profit_loss.insert((a.nd, b.nd), PlMap::new());
    sorted(&ac, &[(a, b)]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_split_two() {
    let (a, b, c, d) = (near(), near(), near(), near());
    let mut ac = account();
    ac.profit_loss.insert((a.nd, b.nd), PlMap::new());
    ac.profit_loss.insert((c.nd, d.nd), PlMap::new());
    sorted(&ac, &[(a, b), (c, d)]);
}
/// months from the earlier to the later of two days with the same day of month
fn apart(a: NaiveDate, b: NaiveDate) -> i32 { if a.day() == b.day() { 12 * (b.year() - a.year()) + b.month() as i32 - a.month() as i32 } else { 0 } }
/// the chain back from the latest end date
fn chain(ps: &[P]) -> Vec<P> {
    let mut out = vec![];
    if ps.is_empty() { return out; }
    let mut at = ps[0].1;
    for p in ps { if p.1 > at { at = p.1; } }
    for _ in 0..ps.len() {
        let mut next = None;
        for p in ps { if p.1 == at && apart(p.0, p.1) == 12 { next = Some(*p); } }
        for p in ps { if p.1 == at && apart(p.0, p.1) == 3 { next = Some(*p); } }
        match next { Some(p) => { out.push(p); at = p.0; } None => break }
    }
    out
}
fn chained(ps: &[P]) {
    let set: BTreeSet<P> = ps.iter().copied().collect();
    let got = consecutive_periods(&set);
    let want = chain(ps);
    check(got.len() == want.len(), "c42 consecutive periods: the whole unbroken chain");
    for p in &want { check(got.contains(p), "c42 consecutive periods: the whole unbroken chain"); }
    let v: Vec<P> = got.iter().copied().collect();
    for i in 0..v.len() {
        check(set.contains(&v[i]), "c42 consecutive periods are periods of the set");
        if i > 0 { check(v[i - 1].1 == v[i].0, "c42 consecutive periods follow each other"); }
        let m = apart(v[i].0, v[i].1);
        check(m == 3 || m == 12, "c42 consecutive periods are quarters or years");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_one() { let p = (near_day(), near_day()); chained(&[p]); }
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_none() { chained(&[]); }
/// any day of the month n months before that of the given one
fn before(y: i32, m: i32, n: i32) -> (i32, i32, NaiveDate) {
    let t = y * 12 + m - 1 - n;
    let (y, m) = (t / 12, t % 12 + 1);
    let d = int(1, 31);
    assume(d <= mdays(y, m));
    let o = NaiveDate::from_ymd_opt(y, m as u32, d as u32);
    assume(o.is_some());
    (y, m, o.unwrap())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_two_deep() {
    // a period of any days ending at a fixed date and one ending on the first's start or end
    let (y, m) = (pick(&[2023, 2024]), pick(&[1, 3, 6, 12]));
    let e = NaiveDate::from_ymd_opt(y, m as u32, pick(&[1, 28, 30, 31])).unwrap();
    let s = before(y, m, pick(&[2, 3, 4, 12]));
    let (t, f) = if flag() { (before(y, m, pick(&[3, 12])).2, e) } else { (before(s.0, s.1, pick(&[3, 12])).2, s.2) };
    chained(&[(s.2, e), (t, f)]);
}
/// n months earlier, where the day exists
fn back(d: NaiveDate, n: i32) -> Option<NaiveDate> {
    let t = d.year() * 12 + d.month() as i32 - 1 - n;
    NaiveDate::from_ymd_opt(t / 12, (t % 12 + 1) as u32, d.day())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_mixed() {
    // quarters, years and others ending on the same days, from a day of any month
    let end = NaiveDate::from_ymd_opt(pick(&[2023, 2024]), choice(12) + 1, pick(&[1, 15, 28, 29, 30, 31]));
    assume(end.is_some());
    let mut at = end.unwrap();
    let mut ps: Vec<P> = vec![];
    for _ in 0..if deep() { 3 } else { 2 } {
        let kind = choice(4);
        let (q, y) = (back(at, 3), back(at, 12));
        if kind & 1 > 0 { if let Some(q) = q { ps.push((q, at)); } }
        if kind & 2 > 0 { if let Some(y) = y { ps.push((y, at)); } }
        ps.push((at - chrono::Duration::days(90), at));
        match if flag() { q } else { y } { Some(d) => at = d, None => break }
    }
    chained(&ps);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_restrict() {
    let d = [near_day(), near_day(), near_day()];
    assume(d[0] < d[1]);
    assume(d[1] < d[2]);
    let all = [(d[0], d[1]), (d[1], d[2]), (d[0], d[2]), (d[1], d[1])];
    let mut ac = account();
    let sheets = choice(4);
    for i in 0..3 { if i != sheets { ac.balance_sheet.insert(d[i as usize], BsMap::from([(Cash, real(-1e9, 1e9)), (Assets, real(-1e9, 1e9))])); } }
    let gap = choice(4) as usize;
    for i in 0..4 {
        if i != gap { ac.profit_loss.insert(all[i], PlMap::from([(Salaries, real(-1e9, 1e9))])); }
        if i != (gap + 1) % 4 { ac.cash_flow.insert(all[i], CfMap::from([(ChangePPE, real(-1e9, 1e9))])); }
        if i != (gap + 2) % 4 { ac.others.insert(all[i], FinOthersMap::from([(AcidRatio, real(-1e9, 1e9))])); }
        ac.dates.insert(d[i % 3]);
    }
    let which = choice(16);
    let keep: BTreeSet<P> = (0..4).filter(|i| which >> i & 1 > 0).map(|i| all[i]).collect();
    let e = ac.clone();
    let r = ac.from_periods(keep.clone());
    check(r.currency == e.currency && r.consolidated == e.consolidated, "c42 a restricted account keeps its kind");
    let mut days = 0;
    for x in d {
        let mut edge = false;
        for p in &keep { edge |= p.0 == x || p.1 == x; }
        days += edge as usize;
        check(r.dates.contains(&x) == edge, "c42 a restricted account has the boundary dates");
        let b = r.balance_sheet.get(&x).cloned();
        check(if edge { equal_opt(&b, &e.balance_sheet.get(&x).cloned()) } else { b.is_none() }, "c42 a restricted account keeps the boundary sheets unchanged");
    }
    check(r.dates.len() == days, "c42 a restricted account has the boundary dates");
    for p in all {
        let k = keep.contains(&p);
        let (l, c, o) = (r.profit_loss.get(&p).cloned(), r.cash_flow.get(&p).cloned(), r.others.get(&p).cloned());
        if k { check(equal_opt(&l, &e.profit_loss.get(&p).cloned()) && equal_opt(&c, &e.cash_flow.get(&p).cloned()) && equal_opt(&o, &e.others.get(&p).cloned()), "c42 a restricted account keeps the statements of its periods"); }
        else { check(l.is_none() && c.is_none() && o.is_none(), "c42 a restricted account drops the other periods"); }
    }
    check(r.profit_loss.len() <= keep.len() && r.cash_flow.len() <= keep.len() && r.others.len() <= keep.len(), "c42 a restricted account drops the other periods");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c42_accounts() {
    // the chains of an account's statements: income and cash flow each by their own periods
    let d = [ymd(2022, 3, 31), ymd(2023, 3, 31), ymd(2024, 3, 31), ymd(2023, 12, 31)];
    let all = [(d[0], d[1]), (d[1], d[2]), (d[3], d[2]), (d[1], d[3])];
    let mut ac = account();
    let (a, b) = (choice(16), choice(16));
    for i in 0..4 {
        if a >> i & 1 > 0 { ac.profit_loss.insert(all[i], PlMap::from([(Salaries, real(-1e9, 1e9))])); }
        if b >> i & 1 > 0 { ac.cash_flow.insert(all[i], CfMap::from([(ChangePPE, real(-1e9, 1e9))])); }
        ac.balance_sheet.insert(d[i], BsMap::from([(Cash, real(-1e9, 1e9))]));
    }
    for k in 0..2 {
        let r = if k == 0 { ac.consecutive_profit_loss() } else { ac.consecutive_cash_flow() };
        let own: Vec<P> = if k == 0 { ac.profit_loss.keys().copied().collect() } else { ac.cash_flow.keys().copied().collect() };
        let want: BTreeSet<P> = chain(&own).into_iter().collect();
        for p in all {
            let k = want.contains(&p);
            check(equal_opt(&r.profit_loss.get(&p).cloned(), &if k { ac.profit_loss.get(&p).cloned() } else { None }), "c42 consecutive statements are the account restricted to its chain");
            check(equal_opt(&r.cash_flow.get(&p).cloned(), &if k { ac.cash_flow.get(&p).cloned() } else { None }), "c42 consecutive statements are the account restricted to its chain");
        }
        for x in d {
            let mut edge = false;
            for p in &want { edge |= p.0 == x || p.1 == x; }
            check(r.balance_sheet.contains_key(&x) == edge, "c42 consecutive statements are the account restricted to its chain");
        }
    }
}
