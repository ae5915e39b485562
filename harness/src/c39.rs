//! bounds: any two dates of the years 1900 to 2100 in any order, every combination of present and absent parts, two items of any value in each part; joining: any dates for each statement, equal or not to those of the profit and loss
//! outside: statements with more items (the maps are passed through whole); joining without a profit and loss (refused)
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, FinOthersTyp::*, PlType::*, *};

fn v() -> f64 { real(-1e9, 1e9) }
fn same_bs(a: &BsMap, b: &Option<BsMap>) -> bool { match b { Some(x) => equal(a, x), None => false } }

#[unsafe(no_mangle)]
pub extern "C" fn h_c39_round() {
    let period = (any_day(), any_day());
    let r = FinancialReport {
        period,
        balance_sheet_beg: if flag() { Some(BsMap::from([(Cash, v()), (Assets, v())])) } else { None },
        balance_sheet_end: if flag() { Some(BsMap::from([(Cash, v()), (Equity, v())])) } else { None },
        profit_loss: if flag() { Some(PlMap::from([(Salaries, v()), (EBIT_, v())])) } else { None },
        cash_flow: if flag() { Some(CfMap::from([(ChangePPE, v()), (NetCashFlow, v())])) } else { None },
        others: if flag() { Some(FinOthersMap::from([(CorporateTaxRate, v()), (AcidRatio, v())])) } else { None },
    };
    let (b0, b1, pl, cf, fo) = r.to_statements();
    check(b0.is_some() == r.balance_sheet_beg.is_some() && b1.is_some() == r.balance_sheet_end.is_some() && pl.is_some() == r.profit_loss.is_some()
        && cf.is_some() == r.cash_flow.is_some() && fo.is_some() == r.others.is_some(), "c39 absent parts stay absent");
    if let Some(x) = &b0 { check(x.date == period.0 && same_bs(&x.items, &r.balance_sheet_beg), "c39 opening sheet carries the start date and its items"); }
    if let Some(x) = &b1 { check(x.date == period.1 && same_bs(&x.items, &r.balance_sheet_end), "c39 closing sheet carries the end date and its items"); }
    if let Some(x) = &pl { check(x.period == period && equal_opt(&Some(x.items.clone()), &r.profit_loss), "c39 profit and loss carries the period and its items"); }
    if let Some(x) = &cf { check(x.period == period && equal_opt(&Some(x.items.clone()), &r.cash_flow), "c39 cash flow carries the period and its items"); }
    if let Some(x) = &fo { check(x.period == period && equal_opt(&Some(x.items.clone()), &r.others), "c39 ratios carry the period and their items"); }
    if pl.is_some() {
        let j = FinancialReport::from_statements(&b0, &b1, &pl, &cf, &fo);
        check(j.is_some(), "c39 the statements of a report join again");
        let j = j.unwrap();
        check(j.period == period, "c39 joining returns the same report");
        check(equal_opt(&j.balance_sheet_beg, &r.balance_sheet_beg) && equal_opt(&j.balance_sheet_end, &r.balance_sheet_end), "c39 joining returns the same report");
        check(equal_opt(&j.profit_loss, &r.profit_loss) && equal_opt(&j.cash_flow, &r.cash_flow) && equal_opt(&j.others, &r.others), "c39 joining returns the same report");
    }
}
const EBIT_: PlType = EBITX;
#[unsafe(no_mangle)]
pub extern "C" fn h_c39_dates() {
    let p = (any_day(), any_day());
    let pl = Some(ProfitLoss { period: p, items: PlMap::new() });
    let mut ok = true;
    let which = choice(32);
    let b0 = if which & 1 > 0 { let d = any_day(); ok &= d == p.0; Some(BalanceSheet { date: d, items: BsMap::new() }) } else { None };
    let b1 = if which & 2 > 0 { let d = any_day(); ok &= d == p.1; Some(BalanceSheet { date: d, items: BsMap::new() }) } else { None };
    let cf = if which & 4 > 0 { let d = (any_day(), any_day()); ok &= d.0 == p.0; ok &= d.1 == p.1; Some(CashFlow { period: d, items: CfMap::new() }) } else { None };
    let fo = if which & 8 > 0 { let d = (any_day(), any_day()); ok &= d.0 == p.0; ok &= d.1 == p.1; Some(FinOthers { period: d, items: FinOthersMap::new() }) } else { None };
    assume(which & 16 == 0);
    let j = FinancialReport::from_statements(&b0, &b1, &pl, &cf, &fo);
    check(j.is_some() == ok, "c39 statements join exactly when their dates match");
    if let Some(x) = j { check(x.period == p, "c39 a joined report has the period of its profit and loss"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c39_refuse() {
    let b = Some(BalanceSheet { date: any_day(), items: BsMap::new() });
    expect_panic(true);
    let _ = FinancialReport::from_statements(&b, &None, &None, &None, &None);
}
