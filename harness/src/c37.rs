//! bounds: two profit-and-loss periods, each with revenue, material cost, salaries, depreciation and interest (revenue of one of them of either sign, costs positive), one with prior current tax, the other with and without tax depreciation, amounts multiples of 2^-16 up to 1e6; rates in [-1, 1] per period, each present or absent; one balance sheet and one cash flow alongside
//! outside: more periods (handled one by one); periods without any stored ratios (the calculation refuses them)
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, FinOthersTyp::*, PlType::*, *};

fn pl(any: bool) -> PlMap {
    let mut m = PlMap::new();
    m.insert(OperatingRevenue, if any { amount() } else { grid(5e5, 1e6, -16) });
    for k in [CostMaterial, Salaries, Depreciation, InterestExpense] { m.insert(k, if any { positive() } else { grid(1.0, 1e4, -16) }); }
    m
}
fn want(m: &PlMap, ct: f64, gt: f64, mt: f64) -> f64 {
    let rev = val(m, OperatingRevenue);
    let ebitda = rev - val(m, CostMaterial) - val(m, Salaries);
    let ebt = ebitda - val(m, Depreciation) - val(m, InterestExpense);
    let adj = if m.contains_key(&TaxDepreciation) { val(m, Depreciation) - val(m, TaxDepreciation) } else { 0.0 };
    let (a, b) = ((ebt + adj) * ct + ebitda * gt, rev * mt);
    if a >= b { a } else { b }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c37_tax() {
    let (p, q) = ((ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2020, 3, 31), ymd(2021, 3, 31)));
    let mut ac = account();
    let first = flag();
    let (mut m, mut n) = (pl(true), pl(false));
    if flag() { m.insert(TaxDepreciation, amount()); }
    n.insert(TaxesCurrent, grid(1.0, 1e4, -16));
    let (pm, pn) = if first { (p, q) } else { (q, p) };
    ac.profit_loss.insert(pm, m.clone());
    ac.profit_loss.insert(pn, n.clone());
    let absent = choice(4);
    let r: Vec<f64> = (0..3).map(|i| if absent == i + 1 { 0.0 } else { real(-1.0, 1.0) }).collect();
    let s: Vec<f64> = (0..3).map(|_| real(0.0, 1.0)).collect();
    let mut o = FinOthersMap::new();
    for i in 0..3 { if absent != i + 1 { o.insert(RATIOS[i as usize], r[i as usize]); } }
    ac.others.insert(pm, o);
    ac.others.insert(pn, FinOthersMap::from([(CorporateTaxRate, s[0]), (GrossProfitTaxRate, s[1]), (RevenueTaxRate, s[2])]));
    let (b, c) = (BsMap::from([(Cash, amount()), (Reserves, positive())]), CfMap::from([(ChangePPE, amount())]));
    ac.balance_sheet.insert(p.0, b.clone());
    ac.cash_flow.insert(q, c.clone());
    ac.calc_tax();
    same(val(&ac.profit_loss[&pm], TaxesCurrent), want(&m, r[0], r[1], r[2]), "c37 current tax is the larger of income and minimum tax");
    same(val(&ac.profit_loss[&pn], TaxesCurrent), want(&n, s[0], s[1], s[2]), "c37 every period is taxed at its own rates");
    let rest: Vec<PlType> = leaves(PL).into_iter().filter(|k| *k != TaxesCurrent).collect();
    agree(&ac.profit_loss[&pm], &m, &rest, "c37 other entries stay");
    agree(&ac.profit_loss[&pn], &n, &rest, "c37 other entries stay");
    agree(&ac.balance_sheet[&p.0], &b, &leaves(BS), "c37 other entries stay");
    agree(&ac.cash_flow[&q], &c, &leaves(CF), "c37 other entries stay");
    check(ac.profit_loss.len() == 2 && ac.balance_sheet.len() == 1 && ac.cash_flow.len() == 1 && ac.others.len() == 2, "c37 other entries stay");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c37_totals() {
    // tax follows from the entries also when the stored totals are out of date
    let p = (ymd(2019, 3, 31), ymd(2020, 3, 31));
    let mut ac = account();
    let m = pl(false);
    let mut stale = m.clone();
    for k in [Revenue, EBITDA, EBT] { stale.insert(k, amount()); }
    ac.profit_loss.insert(p, stale);
    let (c, g, r) = (real(0.0, 1.0), real(0.0, 1.0), real(0.0, 1.0));
    ac.others.insert(p, FinOthersMap::from([(CorporateTaxRate, c), (GrossProfitTaxRate, g), (RevenueTaxRate, r)]));
    ac.calc_tax();
    same(val(&ac.profit_loss[&p], TaxesCurrent), want(&m, c, g, r), "c37 current tax is the larger of income and minimum tax");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c37_rates() {
    let ps = [(ymd(2018, 3, 31), ymd(2019, 3, 31)), (ymd(2019, 3, 31), ymd(2020, 3, 31)), (ymd(2020, 3, 31), ymd(2020, 6, 30))];
    let mut ac = account();
    let e = PlMap::from([(Salaries, amount())]);
    let mut had = [false; 3];
    let mut old = vec![];
    let n = choice(3) as usize + 1;
    for i in 0..3 {
        if i < n { ac.profit_loss.insert(ps[i], e.clone()); }
        let (x, y) = (real(-10.0, 10.0), real(-1.0, 1.0));
        old.push((x, y));
        had[i] = flag();
        if had[i] { ac.others.insert(ps[i], FinOthersMap::from([(CurrentRatio, x), (CorporateTaxRate, y)])); }
    }
    let (c, g, r) = (real(-1.0, 1.0), real(-1.0, 1.0), real(-1.0, 1.0));
    ac.set_tax_rates(c, g, r);
    for i in 0..3 {
        if i < n {
            let o = ac.others.get(&ps[i]);
            check(o.is_some(), "c37 rates are set for every period");
            let o = o.unwrap();
            same(val(o, CorporateTaxRate), c, "c37 rates are set for every period");
            same(val(o, GrossProfitTaxRate), g, "c37 rates are set for every period");
            same(val(o, RevenueTaxRate), r, "c37 rates are set for every period");
            check(o.len() == 3 + had[i] as usize, "c37 other ratios are kept");
        }
        if had[i] {
            same(val(&ac.others[&ps[i]], CurrentRatio), old[i].0, "c37 other ratios are kept");
            if i >= n { same(val(&ac.others[&ps[i]], CorporateTaxRate), old[i].1, "c37 other ratios are kept"); }
        } else if i >= n { check(!ac.others.contains_key(&ps[i]), "c37 other ratios are kept"); }
    }
    for i in 0..n { same(val(&ac.profit_loss[&ps[i]], Salaries), val(&e, Salaries), "c37 setting rates leaves the statements"); }
    check(ac.profit_loss.len() == n, "c37 setting rates leaves the statements");
}
