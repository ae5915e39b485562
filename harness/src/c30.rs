//! bounds: all entries of any one or two groups of the statement at once (groups: the items that enter every total with the same sign), every amount any multiple of 2^-16 within +/-1e6, in any one group also any whole amount within +/-1e12; all 41 entries of the statement at once with positive amounts between 1 and 1e6 (thorough: any amounts within +/-1e6); any single entry as a multiple of 2^-40 within +/-1e-4
//! outside: amounts off those grids (rounding of sums), hash orders other than the one explored
use crate::stm::*;
use financelib::statements::*;

fn run(mut m: PlMap) {
    let e = m.clone();
    m.calc_elements();
    totals(&m, &e, PL, PLT, "c30 total is the signed sum of its entries", "c30 a total is absent exactly when it is zero");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_group() { run(one_group(PL, false)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_large() { run(one_group(PL, true)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_pairs() { run(two_groups(PL)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_entry() { run(one_entry(PL)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_all() { run(all_groups(PL)) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_none() { run(PlMap::new()) }
#[unsafe(no_mangle)]
pub extern "C" fn h_c30_signed_deep() {
    let mut m = PlMap::new();
    for g in PL { fill(&mut m, g); }
    run(m);
}
