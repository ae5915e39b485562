//! bounds: all entries of the statement at once, every amount any multiple of 2^-16 within +/-1e6; the same for the entries of any one or two groups alone (groups: the items that enter every total with the same sign), in any one group also any whole amount within +/-1e12; any single entry as a multiple of 2^-40 within +/-1e-4
//! outside: amounts off those grids (rounding of sums), hash orders other than the one explored
use crate::stm::*;
use financelib::statements::*;

fn run(mut m: BsMap) {
    let e = m.clone();
    m.calc_elements();
    totals(&m, &e, BS, BST, "c29 total is the signed sum of its entries", "c29 a total is absent exactly when it is zero");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_group() { run(one_group(BS, false)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_large() { run(one_group(BS, true)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_pairs() { run(two_groups(BS)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_entry() { run(one_entry(BS)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_none() { run(BsMap::new()) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c29_signed() {
    let mut m = BsMap::new();
    for g in BS { fill(&mut m, g); }
    run(m);
}
