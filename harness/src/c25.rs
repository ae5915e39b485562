//! bounds: nominal spot curves of 2 to 6 points with rates in [-0.2, 1], frequencies 1,2,4,12; start and end at points or anywhere between
//! outside: other curve kinds and par or forward rate sets, which the library leaves unimplemented
use crate::api::*;
use financelib::fixedincomes::bonds::rates::*;

fn spot(rate: Vec<f64>, freq: f64) -> Rates { Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate, freq } } }

#[unsafe(no_mangle)]
pub extern "C" fn h_c25_points() {
    let n = choice(5) as usize + 2;
    let f = pick(&[1.0, 2.0, 4.0, 12.0]);
    let r: Vec<f64> = (0..n).map(|_| real(-0.2, 1.0)).collect();
    let a = choice(n as u32 - 1) as usize;
    let b = a + 1 + choice((n - a - 1) as u32) as usize;
    let (t0, tenor) = ((a + 1) as f64 / f, (b - a) as f64 / f);
    let fw = spot(r.clone(), f).forward_rate(t0, tenor);
    let start = (1.0 + r[a] / f).powf((a + 1) as f64);
    let end = (1.0 + r[b] / f).powf((b + 1) as f64);
    same(start * (1.0 + fw / f).powf((b - a) as f64), end, "c25 rolling at the forward rate gives the spot growth");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c25_between() {
    config(Cfg::FeasMs, 1000);
    let n = choice(3) as usize + 2;
    let f = pick(&[1.0, 2.0, 4.0, 12.0]);
    let r: Vec<f64> = (0..n).map(|_| real(-0.2, 1.0)).collect();
    let s = spot(r, f);
    let (t0, tenor) = (real(1.0, n as f64 - 0.1) / f, real(0.05, 5.0) / f);
    assume((t0 + tenor) * f <= n as f64);
    let (a, b) = (s.rate_estim(t0), s.rate_estim(t0 + tenor));
    let fw = s.forward_rate(t0, tenor);
    same((1.0 + a / f).powf(t0 * f) * (1.0 + fw / f).powf(tenor * f), (1.0 + b / f).powf((t0 + tenor) * f), "c25 rolling at the forward rate from any time");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c25_flat() {
    let n = choice(5) as usize + 2;
    let f = pick(&[1.0, 2.0, 4.0, 12.0]);
    let r = real(-0.2, 1.0);
    let a = choice(n as u32 - 1) as usize;
    let b = a + 1 + choice((n - a - 1) as u32) as usize;
    same(spot(vec![r; n], f).forward_rate((a + 1) as f64 / f, (b - a) as f64 / f), r, "c25 flat curve has flat forward rates");
}
