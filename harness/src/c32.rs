//! bounds: each of the three statements; entries of any one group (any multiples of 2^-16 within +/-1e6), or all entries with positive amounts; stale values of every total at once, any multiple of 2^-16 within +/-1e6; removal and cleaning: any two items of the statement (any multiples of 2^-24 within +/-1e-3 or of 2^-16 within +/-1e6) among two fixed ones
//! outside: amounts off those grids, hash orders other than the one explored, three or more near-zero items at once
use crate::{api::*, stm::*};
use financelib::statements::*;
use std::{collections::HashMap, fmt::Debug, hash::Hash};

trait Kk: Copy + Eq + Hash + Ord + Debug + 'static {}
impl<T: Copy + Eq + Hash + Ord + Debug + 'static> Kk for T {}

fn repeat<K: Kk>(g: Groups<K>, t: Totals<K>, full: bool) where HashMap<K, f64>: FinMaps<Key = K> {
    let mut m = if full { all_groups(g) } else { one_group(g, false) };
    let e = m.clone();
    m.calc_elements();
    agree(&m, &e, &leaves(g), "c32 calculation keeps the entries");
    let once = m.clone();
    m.calc_elements();
    agree(&m, &once, &keys(g, t), "c32 calculating again changes nothing");
    check(m.len() == once.len(), "c32 calculating again changes nothing");
}
fn stale<K: Kk>(g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let mut fresh = one_group(g, false);
    let mut m = fresh.clone();
    fresh.calc_elements();
    for k in names(t) { m.insert(k, amount()); }
    m.calc_elements();
    agree(&m, &fresh, &keys(g, t), "c32 stale totals do not matter");
    check(m.len() == fresh.len(), "c32 stale totals do not matter");
}
fn small() -> f64 { if flag() { grid(-1e-3, 1e-3, -24) } else { amount() } }
fn remove<K: Kk>(g: Groups<K>, t: Totals<K>, clean: bool) where HashMap<K, f64>: FinMaps<Key = K> {
    let ks = keys(g, t);
    let n = ks.len();
    let i = choice(n as u32) as usize;
    let j = (i + 1 + 7 * choice(4) as usize) % n;
    let mut m: HashMap<K, f64> = HashMap::new();
    m.insert(ks[0], 5.0);
    m.insert(ks[n - 1], 7.0);
    m.insert(ks[i], small());
    m.insert(ks[j], small());
    let e = m.clone();
    let tot = names(t);
    if clean { m.clean(); } else { m.remove_calc_clean(); }
    for k in ks {
        let stays = e.contains_key(&k) && val(&e, k).abs() > 1e-5 && (clean || !tot.contains(&k));
        if clean { check(m.contains_key(&k) == stays, "c32 cleaning removes exactly the near-zero items"); }
        else { check(m.contains_key(&k) == stays, "c32 removing totals deletes exactly totals and near-zero entries"); }
        if stays { same(val(&m, k), val(&e, k), "c32 what stays keeps its value"); }
    }
}
fn restore<K: Kk>(g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let mut m = all_groups(g);
    m.calc_elements();
    let e = m.clone();
    m.remove_calc_clean();
    for k in names(t) { check(!m.contains_key(&k), "c32 removing totals deletes exactly totals and near-zero entries"); }
    m.calc_elements();
    agree(&m, &e, &keys(g, t), "c32 totals come back after removal");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_repeat() { match choice(3) { 0 => repeat(BS, BST, false), 1 => repeat(PL, PLT, false), _ => repeat(CF, CFT, false) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_repeat_all() { match choice(3) { 0 => repeat(BS, BST, true), 1 => repeat(PL, PLT, true), _ => repeat(CF, CFT, true) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_stale() { match choice(3) { 0 => stale(BS, BST), 1 => stale(PL, PLT), _ => stale(CF, CFT) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_remove() { match choice(3) { 0 => remove(BS, BST, false), 1 => remove(PL, PLT, false), _ => remove(CF, CFT, false) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_clean() { match choice(3) { 0 => remove(BS, BST, true), 1 => remove(PL, PLT, true), _ => remove(CF, CFT, true) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c32_restore() { match choice(3) { 0 => restore(BS, BST), 1 => restore(PL, PLT), _ => restore(CF, CFT) } }
