//! bounds: every item for single entries, every ordered pair of items for transactions, any amount within +/-1e9 on any earlier balances; series of up to three transactions over six items of every kind
//! outside: longer series; amounts whose sums lose digits
use crate::{api::*, stm::*};
use financelib::statements::{BsType::*, *};

fn v() -> f64 { real(-1e9, 1e9) }
/// +1 for items a debit increases
fn side(k: BsType) -> f64 {
    match k {
        AccumulatedDepreciation | AccumulatedAmortization | AccumulatedAmortizationLease => -1.0,
        _ => { for g in [9, 10, 11] { if BS[g].contains(&k) { return -1.0; } } 1.0 }
    }
}
/// assets minus liabilities minus equity, from the entries
fn balance(m: &BsMap) -> f64 { sum(m, BS, BST[11].1) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c34_entry() {
    let ks = leaves(BS);
    let i = choice(ks.len() as u32) as usize;
    let (k, other) = (ks[i], ks[(i + 1) % ks.len()]);
    let mut m = BsMap::new();
    m.insert(other, v());
    let old = if flag() { let x = v(); m.insert(k, x); x } else { 0.0 };
    let keep = val(&m, other);
    let x = v();
    let debit = flag();
    if debit { m.debit(k, x); } else { m.credit(k, x); }
    let d = if debit { x } else { -x };
    same(val(&m, k), old + side(k) * d, "c34 direction of debits and credits");
    same(val(&m, other), keep, "c34 other items stay");
    check(m.len() == 2, "c34 other items stay");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c34_transact() {
    let ks = leaves(BS);
    let (a, b) = (pick(&ks), pick(&ks));
    let (p, q, x) = (v(), v(), v());
    let mut m = BsMap::new();
    m.insert(a, p);
    if b != a { m.insert(b, q); }
    let e = m.clone();
    m.transact((a, b, x));
    same(balance(&m), balance(&e), "c34 a transaction keeps the balance");
    if a != b {
        same(val(&m, a), p + side(a) * x, "c34 a transaction debits one item");
        same(val(&m, b), q - side(b) * x, "c34 a transaction credits the other item");
    } else { same(val(&m, a), p, "c34 a transaction of an item with itself changes nothing"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c34_series() {
    let six = [Cash, AccumulatedDepreciation, PlantPropertyEquipment, CurrentPayables, LongTermBorrowings, RetainedEarnings];
    let n = choice(if deep() { 4 } else { 3 }) as usize;
    let mut m = BsMap::new();
    for k in [Cash, PlantPropertyEquipment, CommonStock] { m.insert(k, v()); }
    let e = m.clone();
    let tr: Vec<(BsType, BsType, f64)> = (0..n).map(|_| (pick(&six), pick(&six), v())).collect();
    let want: Vec<f64> = six.iter().map(|k| {
        let mut s = val(&e, *k);
        for (d, c, x) in &tr { if d == k { s += side(*k) * x; } if c == k { s -= side(*k) * x; } }
        s
    }).collect();
    m.transact_series(tr);
    same(balance(&m), balance(&e), "c34 a series keeps the balance");
    for i in 0..6 { same(val(&m, six[i]), want[i], "c34 a series acts as its transactions"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c34_refuse() {
    let k = pick(&names(BST));
    let mut w = Kept { m: BsMap::from([(Cash, v())]), e: BsMap::new(), what: "c34 a refused entry leaves the sheet as it was" };
    if flag() { w.m.insert(k, v()); }
    w.e = w.m.clone();
    let (op, x) = (choice(4), v());
    if op < 3 { refusal(&mut w, kept::<BsType>); } else { expect_panic(true); }
    let m = &mut w.m;
    match op { 0 => { m.debit(k, x); } 1 => { m.credit(k, x); } 2 => { m.transact((k, Cash, x)); } _ => { m.transact((Cash, k, x)); } }
}
