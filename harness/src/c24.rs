//! bounds: nominal curves of 1 to 3 points (4 in the thorough tier), par rates in [0, 0.5] and spot rates in [-0.1, 0.5], frequencies 1,2,4,12; round trips for up to 2 points
//! outside: longer curves; par curves so steep that no spot rate exists
use crate::api::*;
use financelib::fixedincomes::bonds::rates::*;

fn nominal(rate: Vec<f64>, freq: f64) -> RateCurve { RateCurve::NominalRateCurve { rate, freq } }
fn rates(r: &Rates) -> (bool, &Vec<f64>, f64) {
    match r {
        Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate, freq } } => (true, rate, *freq),
        Rates::ParRates { rate: RateCurve::NominalRateCurve { rate, freq } } => (false, rate, *freq),
        _ => panic!("another kind of rates"),
    }
}
fn freq() -> f64 { pick(&[1.0, 2.0, 4.0, 12.0]) }
fn size() -> usize { choice(if deep() { 4 } else { 3 }) as usize + 1 }

#[unsafe(no_mangle)]
pub extern "C" fn h_c24_par() {
    let (n, f) = (size(), freq());
    let s: Vec<f64> = (0..n).map(|_| real(-0.1, 0.5)).collect();
    let p = Rates::SpotRates { rate: nominal(s.clone(), f) }.to_par();
    let (spot, p, g) = rates(&p);
    check(!spot && g == f && p.len() == n, "c24 shape of the par curve");
    for i in 0..n {
        // a bond paying the i-th par rate, discounted at the spot rates
        let mut v = 0.0;
        for k in 0..=i {
            let flow = p[i] / f + if k == i { 1.0 } else { 0.0 };
            v += flow / (1.0 + s[k] / f).powi(k as i32 + 1);
        }
        same(v, 1.0, "c24 par bond is worth par at the spot rates");
    }
    same(p[0], s[0], "c24 first par rate is the first spot rate");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_spot() {
    let (n, f) = (size(), freq());
    let p: Vec<f64> = (0..n).map(|_| real(0.0, 0.5)).collect();
    // every discount factor of the curve is positive
    let mut sum = 0.0;
    for i in 0..n {
        let d = (1.0 - p[i] / f * sum) / (1.0 + p[i] / f);
        assume(d > 1e-3);
        sum += d;
    }
    let s = Rates::ParRates { rate: nominal(p.clone(), f) }.to_spot();
    let (spot, s, g) = rates(&s);
    check(spot && g == f && s.len() == n, "c24 shape of the spot curve");
    same(s[0], p[0], "c24 first spot rate is the first par rate");
    let mut sum = 0.0;
    for i in 0..n {
        let d = (1.0 - p[i] / f * sum) / (1.0 + p[i] / f);
        sum += d;
        same(d * (1.0 + s[i] / f).powi(i as i32 + 1), 1.0, "c24 spot rates discount at the bootstrapped factors");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_back() {
    let (n, f) = (choice(2) as usize + 1, freq());
    let s: Vec<f64> = (0..n).map(|_| real(-0.1, 0.5)).collect();
    let b = Rates::SpotRates { rate: nominal(s.clone(), f) }.to_par().to_spot();
    let (spot, b, g) = rates(&b);
    check(spot && g == f && b.len() == n, "c24 shape after the round trip");
    for i in 0..n { same(b[i], s[i], "c24 spot to par and back"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_forth() {
    let (n, f) = (choice(2) as usize + 1, freq());
    let p: Vec<f64> = (0..n).map(|_| real(0.0, 0.5)).collect();
    if n == 2 { assume(1.0 - p[1] / f / (1.0 + p[0] / f) > 1e-3); }
    let b = Rates::ParRates { rate: nominal(p.clone(), f) }.to_spot().to_par();
    let (spot, b, g) = rates(&b);
    check(!spot && g == f && b.len() == n, "c24 shape after the other round trip");
    for i in 0..n { same(b[i], p[i], "c24 par to spot and back"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c24_flat() {
    let (n, f, r) = (size(), freq(), real(0.0001, 0.5));
    let c = nominal(vec![r; n], f);
    let to_spot = flag();
    let g = if to_spot { Rates::ParRates { rate: c }.to_spot() } else { Rates::SpotRates { rate: c }.to_par() };
    let g = rates(&g).1;
    for i in 0..n { same(g[i], r, "c24 flat stays flat"); }
}
