//! bounds: each of the three statements; every pair of items besides the base, any values within +/-1e9, base of either sign with magnitude between 1e-3 and 1e9; the base together with the full list of items for positive values
//! outside: a missing or zero base (the library refuses a missing one)
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, CfType::*, PlType::*, *};
use std::{collections::HashMap, fmt::Debug, hash::Hash};

trait Kk: Copy + Eq + Hash + Ord + Debug + 'static {}
impl<T: Copy + Eq + Hash + Ord + Debug + 'static> Kk for T {}

fn base() -> f64 { if flag() { real(1e-3, 1e9) } else { real(-1e9, -1e-3) } }
fn run<K: Kk>(m: HashMap<K, f64>, b: K, g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let e = m.clone();
    let s = m.common_size();
    for k in keys(g, t) {
        check(s.contains_key(&k) == e.contains_key(&k), "c38 same items");
        if e.contains_key(&k) { close(val(&s, k) * val(&e, b), val(&e, k), 1e-9, 1e-9, "c38 every item divided by the base"); }
    }
    same(val(&s, b), 1.0, "c38 the base becomes one");
    agree(&m, &e, &keys(g, t), "c38 the original is unchanged");
}
fn two<K: Kk>(b: K, g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let ks = keys(g, t);
    let i = choice(ks.len() as u32) as usize;
    let mut m: HashMap<K, f64> = HashMap::new();
    m.insert(ks[i], real(-1e9, 1e9));
    m.insert(ks[(i + 5) % ks.len()], real(-1e9, 1e9));
    m.insert(b, base());
    run(m, b, g, t);
}
fn all<K: Kk>(b: K, g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let mut m: HashMap<K, f64> = HashMap::new();
    for k in keys(g, t) { m.insert(k, real(0.0, 1e9)); }
    m.insert(b, base());
    run(m, b, g, t);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c38_two() { match choice(3) { 0 => two(Assets, BS, BST), 1 => two(Revenue, PL, PLT), _ => two(NetCashFlow, CF, CFT) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c38_all() { match choice(3) { 0 => all(Assets, BS, BST), 1 => all(Revenue, PL, PLT), _ => all(NetCashFlow, CF, CFT) } }
