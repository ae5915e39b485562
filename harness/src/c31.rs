//! bounds: all entries of the statement at once, every amount any multiple of 2^-16 within +/-1e6; the same for the entries of any one or two groups alone (groups: the items that enter every total with the same sign), in any one group also any whole amount within +/-1e12; any single entry as a multiple of 2^-40 within +/-1e-4
//! outside: amounts off those grids (rounding of sums), hash orders other than the one explored
use crate::stm::*;
use financelib::statements::*;

fn run(mut m: CfMap) {
    let e = m.clone();
    m.calc_elements();
    totals(&m, &e, CF, CFT, "c31 total is the signed sum of its entries", "c31 a total is absent exactly when it is zero");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_group() { run(one_group(CF, false)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_large() { run(one_group(CF, true)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_pairs() { run(two_groups(CF)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_entry() { run(one_entry(CF)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_none() { run(CfMap::new()) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c31_signed() {
    let mut m = CfMap::new();
    for g in CF { fill(&mut m, g); }
    run(m);
}
