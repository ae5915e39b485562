//! bounds: opening and closing balance sheets with all 54 entries, the profit and loss with every item the cash flow reads; the items behind any one (thorough: any two) cash-flow lines take any values within +/-1e6, the others any values whose changes are positive; all amounts multiples of 2^-16; also sparse sheets holding only the items of one line
//! outside: amounts off the grid; changes of sign in more lines at once; a line within 1e-5 of zero other than zero itself
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, PlType::*, *};

/// opening values of the balance-sheet items behind cash-flow line i are anything, the others leave every change positive
fn sheets(free: &[usize], sparse: bool) -> (BsMap, BsMap, PlMap) {
    let (mut b0, mut b1, mut pl) = (BsMap::new(), BsMap::new(), PlMap::new());
    for (i, (_, p, q)) in FROM_BS.iter().enumerate() {
        let any = free.contains(&i);
        if sparse && !any { continue; }
        for k in *p { b0.insert(*k, if any { amount() } else { grid(0.0, 1e5, -16) }); b1.insert(*k, if any { amount() } else { grid(2e5, 1e6, -16) }); }
        for k in *q { b0.insert(*k, if any { amount() } else { grid(1e3, 1e4, -16) }); b1.insert(*k, if any { amount() } else { grid(0.0, 100.0, -16) }); }
    }
    b0.insert(Cash, amount());
    b1.insert(Cash, amount());
    let any = free.iter().any(|i| *i >= FROM_BS.len());
    if any || !sparse {
        for k in [InterestExpense, CostDebt, Dividends, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible] { pl.insert(k, if any { amount() } else { grid(1.0, 1e4, -16) }); }
        pl.insert(GainsLossesSales, if any { amount() } else { grid(1e5, 1e6, -16) });
    }
    (b0, b1, pl)
}
fn run(b0: BsMap, b1: BsMap, pl: PlMap, balanced: bool) {
    let (a0, a1) = (sum(&b0, BS, BST[11].1), sum(&b1, BS, BST[11].1));
    if balanced { assume(a0 == 0.0); assume(a1 == 0.0); }
    let cash = val(&b1, Cash) - val(&b0, Cash);
    let mut cf = calc_cash_flow(&b0, &b1, &pl, 0.25, 0.0, 0.0);
    cf.calc_elements();
    if balanced { same(val(&cf, NetCashFlow), cash, "c35 net cash flow of balanced sheets is the change in cash"); }
    else { same(val(&cf, NetCashFlow), cash - (a1 - a0), "c35 net cash flow differs by the change in the balance check"); }
}
fn lines() -> u32 { FROM_BS.len() as u32 + 1 }
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_line() {
    let i = choice(lines()) as usize;
    let (b0, b1, pl) = sheets(&[i], false);
    run(b0, b1, pl, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_balanced() {
    let i = choice(lines()) as usize;
    let (b0, b1, pl) = sheets(&[i], false);
    run(b0, b1, pl, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_sparse() {
    let i = choice(lines()) as usize;
    let (b0, b1, pl) = sheets(&[i], true);
    run(b0, b1, pl, flag());
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c35_two_deep() {
    let (i, j) = (choice(lines()) as usize, choice(lines()) as usize);
    assume(i < j);
    let (b0, b1, pl) = sheets(&[i, j], false);
    run(b0, b1, pl, false);
}
