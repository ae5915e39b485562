//! bounds: opening and closing balance sheets with all entries but cash behind the derived lines, the items of any two lines with any values within +/-1e6, the others any values with positive changes; profit-and-loss items likewise; amounts multiples of 2^-16; the tax shield for any rates in [0, 1], earnings, gross profit and revenue within +/-1e6, interest within +/-1e6, with and without depreciation and tax depreciation
//! outside: amounts off the grid; changes of sign in more lines at once
use crate::{api::*, stm::*};
use financelib::statements::{CfType::*, PlType::*, *};

fn run(free: &[usize], sparse: bool) {
    let (mut b0, mut b1, mut pl) = (BsMap::new(), BsMap::new(), PlMap::new());
    for (i, (_, p, q)) in FROM_BS.iter().enumerate() {
        let any = free.contains(&i);
        if sparse && !any { continue; }
        for k in *p { b0.insert(*k, if any { amount() } else { grid(0.0, 1e5, -16) }); b1.insert(*k, if any { amount() } else { grid(2e5, 1e6, -16) }); }
        for k in *q { b0.insert(*k, if any { amount() } else { grid(1e3, 1e4, -16) }); b1.insert(*k, if any { amount() } else { grid(0.0, 100.0, -16) }); }
    }
    let any = free.iter().any(|i| *i >= FROM_BS.len());
    if any || !sparse {
        for k in [InterestExpense, CostDebt, Dividends, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible] { pl.insert(k, if any { amount() } else { grid(1.0, 1e4, -16) }); }
        pl.insert(GainsLossesSales, if any { amount() } else { grid(1e5, 1e6, -16) });
    }
    let cf = calc_cash_flow(&b0, &b1, &pl, 0.25, 0.0, 0.0);
    for (k, p, q) in FROM_BS { same(val(&cf, *k), diff(&b1, p, q) - diff(&b0, p, q), "c36 balance-sheet lines are the changes of their own items"); }
    for (k, p, q) in FROM_PL { same(val(&cf, *k), diff(&pl, p, q), "c36 income lines are the amounts of their own items"); }
    let own: Vec<CfType> = FROM_BS.iter().map(|x| x.0).chain(FROM_PL.iter().map(|x| x.0)).collect();
    for k in keys(CF, CFT) { if k != CashFlowTaxShield && !own.contains(&k) { check(!cf.contains_key(&k), "c36 no other line is derived"); } }
}
fn lines() -> u32 { FROM_BS.len() as u32 + 1 }
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_line() { run(&[choice(lines()) as usize], false) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_sparse() { run(&[choice(lines()) as usize], true) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_two() {
    let (i, j) = (choice(lines()) as usize, choice(lines()) as usize);
    assume(i < j);
    run(&[i, j], false)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_shield() {
    let mut pl = PlMap::new();
    let (i, d, ebt, gp, rev) = (amount(), amount(), amount(), amount(), amount());
    pl.insert(InterestExpense, i);
    pl.insert(CostDebt, d);
    pl.insert(EBT, ebt);
    pl.insert(GrossProfit, gp);
    pl.insert(Revenue, rev);
    let mut adj = 0.0;
    let dep = if flag() { let x = amount(); pl.insert(Depreciation, x); x } else { 0.0 };
    if flag() { let x = amount(); pl.insert(TaxDepreciation, x); adj = dep - x; }
    let (c, g, r) = (real(0.0, 1.0), real(0.0, 1.0), real(0.0, 1.0));
    let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, c, g, r);
    let s = val(&cf, CashFlowTaxShield);
    let full = c * (i + d);
    let cap = c * (ebt + (i + d) + adj) + g * gp - r * rev;
    let want = if cap <= 0.0 { if full < 0.0 { full } else { 0.0 } } else if cap < full { cap } else { full };
    same(s, want, "c36 tax shield: saving on interest capped by tax above the minimum");
    if i + d >= 0.0 { check(s >= 0.0, "c36 tax shield is never negative"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c36_shield_absent() {
    // absent income items count as zero
    let mut pl = PlMap::new();
    let i = grid(1.0, 1e6, -16);
    pl.insert(InterestExpense, i);
    let which = choice(3);
    let x = grid(1.0, 1e6, -16);
    if which == 1 { pl.insert(EBT, x); } else if which == 2 { pl.insert(GrossProfit, x); }
    let (c, g) = (real(0.0, 1.0), real(0.0, 1.0));
    let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, c, g, real(0.0, 1.0));
    same(val(&cf, CashFlowTaxShield), c * i, "c36 tax shield: absent income counts as zero");
}
