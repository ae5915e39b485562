//! bounds: curves of 1 to 6 points with rates |x| <= 10, frequencies 1,2,3,4,6,12, any time between the first and the last point, all three curve kinds, spot, par and forward rate sets
//! outside: longer curves; times before the first or after the last point
use crate::api::*;
use financelib::fixedincomes::bonds::rates::*;

pub fn curve(kind: u32, rate: Vec<f64>, freq: f64) -> RateCurve {
    match kind {
        0 => RateCurve::NominalRateCurve { rate, freq },
        1 => RateCurve::EffectiveRateCurve { rate, freq },
        _ => RateCurve::ExponentialRateCurve { rate, freq },
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_between() {
    let n = choice(6) as usize + 1;
    let r: Vec<f64> = (0..n).map(|_| real(-10.0, 10.0)).collect();
    let freq = pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 12.0]);
    let c = curve(choice(3), r.clone(), freq);
    let i = choice(n as u32) as usize;
    if i + 1 == n {
        same(c.rate_estim(n as f64 / freq), r[n - 1], "c22 the last point is returned at its time");
        return;
    }
    let w = real(0.0, 1.0);
    let y = c.rate_estim((i as f64 + 1.0 + w) / freq);
    close(y, r[i] + w * (r[i + 1] - r[i]), 0.0, 1e-7, "c22 linear between neighbouring points");
    let (a, b) = if r[i] < r[i + 1] { (r[i], r[i + 1]) } else { (r[i + 1], r[i]) };
    check((y >= a - 1e-7) & (y <= b + 1e-7), "c22 between the neighbouring rates");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_points() {
    let n = choice(6) as usize + 1;
    let r: Vec<f64> = (0..n).map(|_| real(-10.0, 10.0)).collect();
    let freq = pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 12.0]);
    let c = curve(choice(3), r.clone(), freq);
    for i in 0..n { same(c.rate_estim((i + 1) as f64 / freq), r[i], "c22 each point is returned at its time"); }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c22_sets() {
    let n = choice(4) as usize + 1;
    let r: Vec<f64> = (0..n).map(|_| real(-10.0, 10.0)).collect();
    let freq = pick(&[1.0, 2.0, 4.0]);
    let c = curve(choice(3), r, freq);
    let y = real(1.0, n as f64) / freq;
    let want = c.rate_estim(y);
    let s = match choice(3) { 0 => Rates::SpotRates { rate: c }, 1 => Rates::ParRates { rate: c }, _ => Rates::ForwardRates { rate: c } };
    same(s.rate_estim(y), want, "c22 rate sets read their curve");
}
