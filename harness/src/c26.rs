//! bounds: bonds of 1 to 4 coupons (8 in the thorough tier), par in [0, 1e6], coupon in [0, 1], frequencies 1,2,4,12, curve rates in [-0.2, 1]
//! outside: curves of another frequency than the bond's
use crate::api::*;
use financelib::fixedincomes::bonds::{rates::*, *};

fn size() -> usize { choice(if deep() { 8 } else { 4 }) as usize + 1 }
fn bond(n: usize) -> CouponBond { let freq = pick(&[1.0, 2.0, 4.0, 12.0]); CouponBond { par: real(0.0, 1e6), c: real(0.0, 1.0), freq, t_life: n as f64 / freq } }
fn curve(kind: u32, rate: Vec<f64>, freq: f64) -> RateCurve {
    match kind {
        0 => RateCurve::NominalRateCurve { rate, freq },
        1 => RateCurve::EffectiveRateCurve { rate, freq },
        _ => RateCurve::ExponentialRateCurve { rate, freq },
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_flows() {
    let n = size();
    let b = bond(n);
    let r: Vec<f64> = (0..n).map(|_| real(-0.2, 1.0)).collect();
    let kind = choice(3);
    let mut s = 0.0;
    for i in 0..n {
        let flow = b.par * b.c / b.freq + if i + 1 == n { b.par } else { 0.0 };
        let t = (i + 1) as f64 / b.freq;
        s += match kind { 0 => flow / (1.0 + r[i] / b.freq).powf((i + 1) as f64), 1 => flow / (1.0 + r[i]).powf(t), _ => flow / (r[i] * t).exp() };
    }
    same(b.price_ratecurve(&curve(kind, r, b.freq)), s, "c26 every flow discounted at its own rate");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_flat() {
    let n = size();
    let b = bond(n);
    let r = real(-0.2, 1.0);
    same(b.price_ratecurve(&curve(0, vec![r; n], b.freq)), b.price(r), "c26 flat curve gives the price at its rate");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c26_kinds() {
    let n = choice(4) as usize + 1;
    let b = bond(n);
    let c = curve(0, (0..n).map(|_| real(-0.2, 1.0)).collect(), b.freq);
    let p = b.price_ratecurve(&c);
    same(b.price_ratecurve(&c.to_effective()), p, "c26 same price on the effective curve");
    same(b.price_ratecurve(&c.to_exponential()), p, "c26 same price on the exponential curve");
}
