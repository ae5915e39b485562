//! bounds: accounts of two periods and three dates with up to three of each statement, each holding one group of entries (multiples of 2^-16 within +/-1e6) or a few fixed kinds of entries, statements present or absent; reports with each part present or absent
//! outside: more periods; periods with both balance sheets but without stored tax rates (refused)
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, FinOthersTyp::*, PlType::*, *};
use std::{collections::HashMap, hash::Hash};

fn one<K: Copy + Eq + Hash + Ord>(m: &HashMap<K, f64>) -> HashMap<K, f64> where HashMap<K, f64>: FinMaps<Key = K> { let mut x = m.clone(); x.calc_elements(); x }
fn small(i: usize) -> BsMap { BsMap::from([(Cash, amount()), (PlantPropertyEquipment, grid(1e3 * (i + 1) as f64, 1e3 * (i + 2) as f64 - 1.0, -16)), (RetainedEarnings, positive())]) }
fn income() -> PlMap { PlMap::from([(OperatingRevenue, grid(5e5, 1e6, -16)), (CostMaterial, grid(1.0, 1e5, -16)), (InterestExpense, grid(1.0, 1e4, -16)), (Depreciation, grid(1.0, 1e4, -16))]) }
fn rates() -> [f64; 3] { [real(0.0, 1.0), real(0.0, 1.0), real(0.0, 1.0)] }
fn stored(r: &[f64; 3]) -> FinOthersMap { FinOthersMap::from([(CorporateTaxRate, r[0]), (GrossProfitTaxRate, r[1]), (RevenueTaxRate, r[2]), (AcidRatio, 0.5)]) }
fn dates() -> [chrono::NaiveDate; 3] { [ymd(2019, 3, 31), ymd(2019, 6, 30), ymd(2020, 3, 31)] }
/// two periods among the three dates: following each other, overlapping from the same start, or to the same end
fn periods() -> [P; 2] { let d = dates(); match choice(3) { 0 => [(d[0], d[1]), (d[1], d[2])], 1 => [(d[0], d[1]), (d[0], d[2])], _ => [(d[0], d[2]), (d[1], d[2])] } }

#[unsafe(no_mangle)]
pub extern "C" fn h_c43_totals() {
    let mut ac = account();
    let (d, p) = (dates(), periods());
    let n = choice(3) as usize + 1;
    for i in 0..n { ac.balance_sheet.insert(d[i], small(i)); }
    ac.profit_loss.insert(p[0], income());
    ac.profit_loss.insert(p[1], income());
    ac.cash_flow.insert(p[0], CfMap::from([(ChangePPE, amount()), (ChangeDebt, positive())]));
    ac.cash_flow.insert(p[1], CfMap::from([(ChangeCurrentAssets, positive()), (CashFlowInterests, positive())]));
    let e = ac.clone();
    ac.calc_elements();
    check(ac.balance_sheet.len() == n && ac.profit_loss.len() == 2 && ac.cash_flow.len() == 2 && ac.others.is_empty(), "c43 account totals: same statements");
    for i in 0..n { agree(&ac.balance_sheet[&d[i]], &one(&e.balance_sheet[&d[i]]), &keys(BS, BST), "c43 account totals are those of the single statements"); }
    for i in 0..2 {
        agree(&ac.profit_loss[&p[i]], &one(&e.profit_loss[&p[i]]), &keys(PL, PLT), "c43 account totals are those of the single statements");
        agree(&ac.cash_flow[&p[i]], &one(&e.cash_flow[&p[i]]), &keys(CF, CFT), "c43 account totals are those of the single statements");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c43_cleaned() {
    let mut ac = account();
    let (d, p) = (dates(), periods());
    for i in 0..3 { ac.balance_sheet.insert(d[i], BsMap::from([(Cash, grid(-1e-3, 1e-3, -24)), (Assets, positive())])); }
    for i in 0..2 {
        ac.profit_loss.insert(p[i], PlMap::from([(Salaries, grid(-1e-3, 1e-3, -24)), (Revenue, positive())]));
        ac.cash_flow.insert(p[i], CfMap::from([(ChangePPE, positive()), (NetCashFlow, positive())]));
    }
    let mut e = ac.clone();
    ac.remove_calc_clean();
    for i in 0..3 { let m = e.balance_sheet.get_mut(&d[i]).unwrap(); m.remove_calc_clean(); agree(&ac.balance_sheet[&d[i]], m, &keys(BS, BST), "c43 account clean-up is that of the single statements"); }
    for i in 0..2 {
        let m = e.profit_loss.get_mut(&p[i]).unwrap(); m.remove_calc_clean(); agree(&ac.profit_loss[&p[i]], m, &keys(PL, PLT), "c43 account clean-up is that of the single statements");
        let m = e.cash_flow.get_mut(&p[i]).unwrap(); m.remove_calc_clean(); agree(&ac.cash_flow[&p[i]], m, &keys(CF, CFT), "c43 account clean-up is that of the single statements");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c43_flows() {
    let mut ac = account();
    let (d, p) = (dates(), periods());
    let missing = choice(4) as usize;
    for i in 0..3 { if i + 1 != missing { ac.balance_sheet.insert(d[i], small(i)); } }
    let r = [rates(), rates()];
    for i in 0..2 {
        let mut m = income();
        m.calc_elements();
        ac.profit_loss.insert(p[i], m);
        ac.others.insert(p[i], stored(&r[i]));
    }
    let e = ac.clone();
    ac.calc_cash_flow();
    for i in 0..2 {
        match (e.balance_sheet.get(&p[i].0), e.balance_sheet.get(&p[i].1)) {
            (Some(b0), Some(b1)) => {
                let mut cf = calc_cash_flow(b0, b1, &e.profit_loss[&p[i]], r[i][0], r[i][1], r[i][2]);
                cf.calc_elements();
                let got = ac.cash_flow.get(&p[i]);
                check(got.is_some(), "c43 account cash flows are those derived for each period");
                agree(got.unwrap(), &cf, &keys(CF, CFT), "c43 account cash flows are those derived for each period");
            }
            _ => check(!ac.cash_flow.contains_key(&p[i]), "c43 no derived cash flow without both balance sheets"),
        }
        agree(&ac.profit_loss[&p[i]], &e.profit_loss[&p[i]], &keys(PL, PLT), "c43 deriving cash flows leaves the other statements");
        check(equal(&ac.others[&p[i]], &e.others[&p[i]]), "c43 deriving cash flows leaves the other statements");
    }
    for (x, m) in &e.balance_sheet { agree(&ac.balance_sheet[x], m, &keys(BS, BST), "c43 deriving cash flows leaves the other statements"); }
    check(ac.balance_sheet.len() == e.balance_sheet.len() && ac.profit_loss.len() == 2 && ac.others.len() == 2, "c43 deriving cash flows leaves the other statements");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c43_report() {
    let p = (ymd(2019, 3, 31), ymd(2020, 3, 31));
    let r = rates();
    let mut rep = FinancialReport {
        period: p,
        balance_sheet_beg: if flag() { Some(small(0)) } else { None },
        balance_sheet_end: if flag() { Some(small(1)) } else { None },
        profit_loss: Some(income()),
        cash_flow: if flag() { Some(CfMap::from([(ChangePPE, positive())])) } else { None },
        others: Some(stored(&r)),
    };
    let e = rep.clone();
    rep.calc_elements();
    check(rep.period == p && equal_opt(&rep.others, &e.others), "c43 a report keeps its period and ratios");
    let pl = one(e.profit_loss.as_ref().unwrap());
    check(rep.profit_loss.is_some() && rep.balance_sheet_beg.is_some() == e.balance_sheet_beg.is_some() && rep.balance_sheet_end.is_some() == e.balance_sheet_end.is_some(), "c43 report totals are those of its statements");
    agree(rep.profit_loss.as_ref().unwrap(), &pl, &keys(PL, PLT), "c43 report totals are those of its statements");
    if let Some(b) = &e.balance_sheet_beg { agree(rep.balance_sheet_beg.as_ref().unwrap(), &one(b), &keys(BS, BST), "c43 report totals are those of its statements"); }
    if let Some(b) = &e.balance_sheet_end { agree(rep.balance_sheet_end.as_ref().unwrap(), &one(b), &keys(BS, BST), "c43 report totals are those of its statements"); }
    match (&e.balance_sheet_beg, &e.balance_sheet_end) {
        (Some(b0), Some(b1)) => {
            let mut cf = calc_cash_flow(b0, b1, &pl, r[0], r[1], r[2]);
            cf.calc_elements();
            check(rep.cash_flow.is_some(), "c43 report cash flow is the one derived from its statements");
            agree(rep.cash_flow.as_ref().unwrap(), &cf, &keys(CF, CFT), "c43 report cash flow is the one derived from its statements");
        }
        _ => check(rep.cash_flow.is_none(), "c43 a report without both balance sheets gets no derived cash flow"),
    }
}
