//! bounds: each of the three statements; every item of the statement as the one updated, with any earlier value (or none), any amount within +/-1e9, two neighbouring items; vectors of up to three updates of any of four items
//! outside: longer vectors; the state of the map after a refused update (the panic ends the path)
use crate::{api::*, stm::*};
use financelib::statements::*;
use std::{collections::HashMap, fmt::Debug, hash::Hash};

trait Kk: FinType + Copy + Eq + Hash + Ord + Debug + 'static {}
impl<T: FinType + Copy + Eq + Hash + Ord + Debug + 'static> Kk for T {}
fn v() -> f64 { real(-1e9, 1e9) }

fn single<K: Kk>(g: Groups<K>, t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let ks = leaves(g);
    let i = choice(ks.len() as u32) as usize;
    let k = ks[i];
    let mut m: HashMap<K, f64> = HashMap::new();
    // neighbours and a total are there before and must stay as they are
    let (a, b) = (ks[(i + 1) % ks.len()], t[i % t.len()].0);
    m.insert(a, v());
    m.insert(b, v());
    let old = if flag() { let x = v(); m.insert(k, x); x } else { 0.0 };
    let e = m.clone();
    same(m.value(k), old, "c33 value reads the entry or zero");
    same(m.value(a), val(&e, a), "c33 value reads the entry or zero");
    let x = v();
    let add = flag();
    if add { m.add(k, x); } else { m.upsert(k, x); }
    let want = if add { old + x } else { x };
    same(m.value(k), want, "c33 add accumulates, upsert replaces");
    for q in keys(g, t) {
        if q != k {
            check(m.contains_key(&q) == e.contains_key(&q), "c33 other items untouched");
            same(m.value(q), val(&e, q), "c33 other items untouched");
        }
    }
    check(m.contains_key(&k), "c33 add accumulates, upsert replaces");
}
fn series<K: Kk>(g: Groups<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let ks = leaves(g);
    let n = ks.len();
    let four = [ks[0], ks[n / 3], ks[n / 2], ks[n - 1]];
    let mut m: HashMap<K, f64> = HashMap::new();
    m.insert(four[0], v());
    let mut e = m.clone();
    let len = choice(4) as usize;
    let ops: Vec<(K, f64)> = (0..len).map(|_| (pick(&four), v())).collect();
    let add = flag();
    if add { m.add_vec(&ops); } else { m.upsert_vec(&ops); }
    for (k, x) in &ops { let o = if add { val(&e, *k) } else { 0.0 }; e.insert(*k, o + *x); }
    agree(&m, &e, &four, "c33 vectors act as the operations in order");
    check(m.len() == e.len(), "c33 vectors act as the operations in order");
}
fn kind<K: Kk>(g: Groups<K>, t: Totals<K>) {
    for k in leaves(g) { check(!k.is_calc(), "c33 entries are not calculated items"); }
    for k in names(t) { check(k.is_calc(), "c33 totals are calculated items"); }
}
fn refuse<K: Kk>(t: Totals<K>) where HashMap<K, f64>: FinMaps<Key = K> {
    let k = pick(&names(t));
    let mut w = Kept { m: HashMap::new(), e: HashMap::new(), what: "c33 a refused item leaves the map as it was" };
    let x = v();
    if flag() { w.m.insert(k, v()); }
    w.e = w.m.clone();
    let op = choice(4);
    refusal(&mut w, kept::<K>);
    let m = &mut w.m;
    match op { 0 => { m.add(k, x); } 1 => { m.upsert(k, x); } 2 => { m.add_vec(&vec![(k, x)]); } _ => { m.upsert_vec(&vec![(k, x)]); } }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_single() { match choice(3) { 0 => single(BS, BST), 1 => single(PL, PLT), _ => single(CF, CFT) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_series() { match choice(3) { 0 => series(BS), 1 => series(PL), _ => series(CF) } }
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_kind() { kind(BS, BST); kind(PL, PLT); kind(CF, CFT); }
#[unsafe(no_mangle)]
pub extern "C" fn h_c33_refuse() { match choice(3) { 0 => refuse(BST), 1 => refuse(PLT), _ => refuse(CFT) } }
