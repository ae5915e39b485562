//! bounds: curves of 1 to 4 points with rates in [-0.2, 1], frequencies 1,2,4,12, cash flows |x| <= 1e6
//! outside: longer curves (every point is converted on its own)
use crate::api::*;
use financelib::fixedincomes::bonds::rates::*;

fn curve(kind: u32, rate: Vec<f64>, freq: f64) -> RateCurve {
    match kind {
        0 => RateCurve::NominalRateCurve { rate, freq },
        1 => RateCurve::EffectiveRateCurve { rate, freq },
        _ => RateCurve::ExponentialRateCurve { rate, freq },
    }
}
fn parts(c: &RateCurve) -> (u32, &Vec<f64>, f64) {
    match c {
        RateCurve::NominalRateCurve { rate, freq } => (0, rate, *freq),
        RateCurve::EffectiveRateCurve { rate, freq } => (1, rate, *freq),
        RateCurve::ExponentialRateCurve { rate, freq } => (2, rate, *freq),
    }
}
fn to(c: &RateCurve, kind: u32) -> RateCurve { match kind { 0 => c.to_nominal(), 1 => c.to_effective(), _ => c.to_exponential() } }
fn any() -> (u32, Vec<f64>, f64) {
    let n = choice(4) as usize + 1;
    (choice(3), (0..n).map(|_| real(-0.2, 1.0)).collect(), pick(&[1.0, 2.0, 4.0, 12.0]))
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_back() {
    let (k, r, f) = any();
    let c = curve(k, r.clone(), f);
    let k2 = choice(3);
    let d = to(&c, k2);
    let p = parts(&d);
    check(p.0 == k2, "c23 kind after conversion");
    check(p.1.len() == r.len(), "c23 number of points after conversion");
    check(p.2 == f, "c23 frequency after conversion");
    if k2 == k { for i in 0..r.len() { check(p.1[i] == r[i], "c23 conversion to its own kind changes nothing"); } }
    let e = to(&d, k);
    let q = parts(&e);
    check(q.0 == k && q.1.len() == r.len() && q.2 == f, "c23 shape after converting back");
    for i in 0..r.len() { same(q.1[i], r[i], "c23 converting back returns the rates"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_value() {
    let (k, r, f) = any();
    let n = r.len();
    let c = curve(k, r, f);
    let k2 = choice(3);
    let d = to(&c, k2);
    let i = choice(n as u32) as usize;
    let (x, t) = (real(-1e6, 1e6), (i + 1) as f64 / f);
    same(d.pv(x, t), c.pv(x, t), "c23 conversion keeps present values at the points");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c23_pv() {
    let (k, r, f) = any();
    let n = r.len();
    let c = curve(k, r.clone(), f);
    let i = choice(n as u32) as usize;
    let x = real(-1e6, 1e6);
    let (t, y) = if i + 1 == n { (n as f64 / f, r[i]) } else {
        let w = real(0.0, 1.0);
        assume((w == 0.0) | (w > 1e-6));
        assume(w < 1.0);
        ((i as f64 + 1.0 + w) / f, r[i] * (1.0 - w) + r[i + 1] * w)
    };
    let want = match k { 0 => x / (1.0 + y / f).powf(f * t), 1 => x / (1.0 + y).powf(t), _ => x / (y * t).exp() };
    same(c.pv(x, t), want, "c23 present value compounds as the curve's kind says");
}
