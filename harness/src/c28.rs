//! bounds: 2 to 6 balances in [0, 1e6], flows |x| <= 1e6 with starting balances after flows above 0.001, periods n in [0.1, 60]; with and without a flow after the last balance; common growth for up to 5 balances, scaling for up to 4
//! outside: more sub-periods
use crate::api::*;
use financelib::fixedincomes::moneymarkets::*;

fn lists(n: usize) -> (Vec<f64>, Vec<f64>) {
    let b: Vec<f64> = (0..n).map(|_| real(0.001, 1e6)).collect();
    let f: Vec<f64> = (0..n - 1).map(|_| real(-1e6, 1e6)).collect();
    for i in 0..n - 1 { assume(b[i] + f[i] > 1e-3); }
    (b, f)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_chain() {
    let n = choice(5) as usize + 2;
    let (b, f) = lists(n);
    let mut g = 1.0;
    for i in 0..n - 1 { g *= b[i + 1] / (b[i] + f[i]); }
    same(twrr_n(1.0, &b, &f), g - 1.0, "c28 one period: product of the sub-period growths");
    let k = real(0.1, 60.0);
    same(twrr_n(k, &b, &f), g.powf(1.0 / k) - 1.0, "c28 n periods: the n-th root");
    same((1.0 + twrr(&b, &f)).powi(n as i32 - 1), g, "c28 the default is one period per sub-period");
    // a flow after the last balance belongs to no sub-period yet
    let mut late = f.clone();
    late.push(real(-1e6, 1e6));
    same(twrr_n(k, &b, &late), twrr_n(k, &b, &f), "c28 a flow after the last balance changes nothing");
    same(twrr(&b, &late), twrr(&b, &f), "c28 a flow after the last balance changes nothing");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_scale() {
    let n = choice(3) as usize + 2;
    let (b, f) = lists(n);
    let (k, s) = (real(0.1, 60.0), real(0.1, 10.0));
    let (b2, f2) = (b.iter().map(|x| s * x).collect(), f.iter().map(|x| s * x).collect());
    same(twrr_n(k, &b2, &f2), twrr_n(k, &b, &f), "c28 scaling all amounts changes nothing");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c28_common() {
    let n = choice(4) as usize + 2;
    let r = real(-0.5, 1.0);
    let mut b = vec![real(0.001, 1e6)];
    let mut f = vec![];
    for i in 0..n - 1 {
        // the flow takes the balance to any start of the sub-period
        let start = real(0.001, 1e6);
        f.push(start - b[i]);
        b.push(start * (1.0 + r));
    }
    same(twrr(&b, &f), r, "c28 common growth is the return whatever the flows");
}
