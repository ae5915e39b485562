//! bounds: every item of the three statements written once or twice at either of two dates or periods holding two other items, any values within +/-1e9; reports: any three days of the years 2020 to 2023 in order, two periods between any of them in either direction, balance sheets, cash flows and ratios present or absent, asked for any two of the days; one period and one balance sheet at any days, asked for any two days
//! outside: more dates and periods; reading or writing at a date without a statement (refused)
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, FinOthersTyp::*, PlType::*, *};

fn v() -> f64 { real(-1e9, 1e9) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c40_balance() {
    let ds = [ymd(2019, 3, 31), ymd(2020, 3, 31)];
    let ks = leaves(BS);
    let k = pick(&ks);
    let mut ac = account();
    for d in ds { ac.balance_sheet.insert(d, BsMap::from([(Cash, v()), (Reserves, v()), (Assets, v())])); }
    let e = ac.balance_sheet.clone();
    let (w, x) = (choice(2) as usize, v());
    same(ac.get_balance_sheet(ds[w], k), val(&e[&ds[w]], k), "c40 absent items read as zero");
    ac.put_balance_sheet(ds[w], k, v());
    ac.put_balance_sheet(ds[w], k, x);
    same(ac.get_balance_sheet(ds[w], k), x, "c40 a written cell reads back");
    for i in 0..2 { for q in keys(BS, BST) { if i != w || q != k {
        check(ac.balance_sheet[&ds[i]].contains_key(&q) == e[&ds[i]].contains_key(&q), "c40 other cells stay");
        same(ac.get_balance_sheet(ds[i], q), val(&e[&ds[i]], q), "c40 other cells stay");
    } } }
    check(ac.balance_sheet.len() == 2 && ac.profit_loss.is_empty() && ac.cash_flow.is_empty() && ac.others.is_empty(), "c40 other cells stay");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_income() {
    // periods sharing their start or their end must not be mixed up
    let ps = if flag() { [(ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2019, 3, 31), ymd(2019, 6, 30))] } else { [(ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2019, 12, 31), ymd(2020, 3, 31))] };
    let ks = leaves(PL);
    let k = pick(&ks);
    let mut ac = account();
    for d in ps { ac.profit_loss.insert(d, PlMap::from([(Salaries, v()), (OtherIncome, v()), (EBT, v())])); }
    let e = ac.profit_loss.clone();
    let (w, x) = (choice(2) as usize, v());
    same(ac.get_profit_loss(ps[w], k), val(&e[&ps[w]], k), "c40 absent items read as zero");
    ac.put_profit_loss(ps[w], k, v());
    ac.put_profit_loss(ps[w], k, x);
    same(ac.get_profit_loss(ps[w], k), x, "c40 a written cell reads back");
    for i in 0..2 { for q in keys(PL, PLT) { if i != w || q != k {
        check(ac.profit_loss[&ps[i]].contains_key(&q) == e[&ps[i]].contains_key(&q), "c40 other cells stay");
        same(ac.get_profit_loss(ps[i], q), val(&e[&ps[i]], q), "c40 other cells stay");
    } } }
    check(ac.profit_loss.len() == 2 && ac.balance_sheet.is_empty() && ac.cash_flow.is_empty() && ac.others.is_empty(), "c40 other cells stay");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_cash() {
    let ps = if flag() { [(ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2019, 3, 31), ymd(2019, 6, 30))] } else { [(ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2019, 12, 31), ymd(2020, 3, 31))] };
    let ks = leaves(CF);
    let k = pick(&ks);
    let mut ac = account();
    for d in ps { ac.cash_flow.insert(d, CfMap::from([(ChangePPE, v()), (ChangeDebt, v()), (NetCashFlow, v())])); }
    let e = ac.cash_flow.clone();
    let (w, x) = (choice(2) as usize, v());
    same(ac.get_cash_flow(ps[w], k), val(&e[&ps[w]], k), "c40 absent items read as zero");
    ac.put_cash_flow(ps[w], k, v());
    ac.put_cash_flow(ps[w], k, x);
    same(ac.get_cash_flow(ps[w], k), x, "c40 a written cell reads back");
    for i in 0..2 { for q in keys(CF, CFT) { if i != w || q != k {
        check(ac.cash_flow[&ps[i]].contains_key(&q) == e[&ps[i]].contains_key(&q), "c40 other cells stay");
        same(ac.get_cash_flow(ps[i], q), val(&e[&ps[i]], q), "c40 other cells stay");
    } } }
    check(ac.cash_flow.len() == 2 && ac.balance_sheet.is_empty() && ac.profit_loss.is_empty() && ac.others.is_empty(), "c40 other cells stay");
}
struct Before { ac: Accounts, b: BsMap, l: PlMap, c: CfMap, p: P }
extern "C" fn as_before(w: *mut u8) {
    let w = unsafe { &*(w as *const Before) };
    let a = &w.ac;
    check(a.balance_sheet.len() == 1 && a.profit_loss.len() == 1 && a.cash_flow.len() == 1, "c40 a refused item leaves the account as it was");
    unchanged(&a.balance_sheet[&w.p.0], &w.b, "c40 a refused item leaves the account as it was");
    unchanged(&a.profit_loss[&w.p], &w.l, "c40 a refused item leaves the account as it was");
    unchanged(&a.cash_flow[&w.p], &w.c, "c40 a refused item leaves the account as it was");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_refuse() {
    let p = (ymd(2019, 3, 31), ymd(2020, 3, 31));
    let (i, x) = (choice(3), v());
    let (b, l, c) = (pick(&names(BST)), pick(&names(PLT)), pick(&names(CFT)));
    let mut w = Before { ac: account(), b: BsMap::from([(Cash, v())]), l: PlMap::from([(Salaries, v())]), c: CfMap::from([(ChangePPE, v())]), p };
    if flag() { w.b.insert(b, v()); w.l.insert(l, v()); w.c.insert(c, v()); }
    w.ac.balance_sheet.insert(p.0, w.b.clone());
    w.ac.profit_loss.insert(p, w.l.clone());
    w.ac.cash_flow.insert(p, w.c.clone());
    refusal(&mut w, as_before);
    let ac = &mut w.ac;
    match i { 0 => { ac.put_balance_sheet(p.0, b, x); } 1 => { ac.put_profit_loss(p, l, x); } _ => { ac.put_cash_flow(p, c, x); } }
}
/// an account over any three days in order: two profit-and-loss periods (any ends), some balance sheets, cash flow and ratios of some period
fn build() -> (Accounts, [P; 2], [chrono::NaiveDate; 3]) {
    let mut ac = account();
    let d = [near_day(), near_day(), near_day()];
    assume(d[0] < d[1]);
    assume(d[1] < d[2]);
    let c = choice(9) as usize;
    let ps = [(d[c / 3], d[c % 3]), pick(&[(d[0], d[1]), (d[0], d[2]), (d[2], d[1])])];
    let full = choice(4);
    for i in 0..2 { ac.profit_loss.insert(ps[i], PlMap::from([(Salaries, v())])); }
    if full != 1 { ac.cash_flow.insert(ps[0], CfMap::from([(ChangePPE, v())])); }
    if full == 2 { ac.cash_flow.insert((d[2], d[0]), CfMap::from([(ChangePPE, v())])); }
    if full != 3 { ac.others.insert(ps[1], FinOthersMap::from([(AcidRatio, v())])); }
    for i in 0..3 { if full != i { ac.balance_sheet.insert(d[i as usize], BsMap::from([(Cash, v())])); } }
    (ac, ps, d)
}
fn is_report(r: &FinancialReport, ac: &Accounts, p: P) {
    check(r.period == p, "c40 a report carries its period");
    // looked up by going through all stored statements
    let (mut b0, mut b1, mut l, mut c, mut o) = (None, None, None, None, None);
    for (d, m) in &ac.balance_sheet { if *d == p.0 { b0 = Some(m.clone()); } if *d == p.1 { b1 = Some(m.clone()); } }
    for (d, m) in &ac.profit_loss { if *d == p { l = Some(m.clone()); } }
    for (d, m) in &ac.cash_flow { if *d == p { c = Some(m.clone()); } }
    for (d, m) in &ac.others { if *d == p { o = Some(m.clone()); } }
    check(equal_opt(&r.balance_sheet_beg, &b0), "c40 opening sheet is that of the start date");
    check(equal_opt(&r.balance_sheet_end, &b1), "c40 closing sheet is that of the end date");
    check(equal_opt(&r.profit_loss, &l) && equal_opt(&r.cash_flow, &c) && equal_opt(&r.others, &o), "c40 period statements are those of the period");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_report() {
    let (ac, ps, d) = build();
    let c = choice(9) as usize;
    let q = (d[c / 3], d[c % 3]);
    let r = ac.get_account(q.0, q.1);
    check(r.is_some() == (q == ps[0] || q == ps[1]), "c40 reports exist exactly for profit-and-loss periods");
    if let Some(r) = r { is_report(&r, &ac, q); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_asked() {
    // any two dates asked for, any stored period
    let mut ac = account();
    let p = (near_day(), near_day());
    ac.profit_loss.insert(p, PlMap::from([(Salaries, v())]));
    let b = near_day();
    ac.balance_sheet.insert(b, BsMap::from([(Cash, v())]));
    let q = (near_day(), near_day());
    let r = ac.get_account(q.0, q.1);
    check(r.is_some() == (q == p), "c40 reports exist exactly for profit-and-loss periods");
    if let Some(r) = r { is_report(&r, &ac, q); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c40_reports() {
    let (ac, ps, _) = build();
    let rs = ac.to_financial_reports();
    check(rs.len() == if ps[0] == ps[1] { 1 } else { 2 }, "c40 one report for every profit-and-loss period");
    for (i, r) in rs.iter().enumerate() {
        check(r.period == ps[0] || r.period == ps[1], "c40 one report for every profit-and-loss period");
        if i > 0 { check(rs[i - 1].period < r.period, "c40 reports in order of their periods"); }
        is_report(r, &ac, r.period);
    }
}
