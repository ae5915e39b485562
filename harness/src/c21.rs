//! bounds: par in [1, 1e6], margins and index rate in [-0.2, 0.5], frequencies 1,2,4,12, up to 6 payments written out (24 in the thorough tier); par identity for any life up to 60; the discount margin of the price at 0.5% for up to 4 payments, and of any price within 0.01% of it for one payment without coupon
//! outside: margin searches that need more than two Newton steps; the rate-curve variants, which the library leaves unimplemented
use crate::api::*;
use financelib::fixedincomes::bonds::*;

fn note(k: u32) -> FloatingRateNotes { let freq = pick(&[1.0, 2.0, 4.0, 12.0]); FloatingRateNotes { par: real(1.0, 1e6), quoted_margin: rate(), freq, t_life: k as f64 / freq } }
fn rate() -> f64 { real(-0.2, 0.5) }

#[unsafe(no_mangle)]
pub extern "C" fn h_c21_price() {
    let k = choice(if deep() { 24 } else { 6 }) + 1;
    let (n, i, d) = (note(k), rate(), rate());
    let (mut s, mut v) = (0.0, 1.0);
    for _ in 0..k {
        v *= 1.0 + (i + d) / n.freq;
        s += (i + n.quoted_margin) / n.freq * n.par / v;
    }
    same(n.price(i, d), s + n.par / v, "c21 price is the discounted projected payments");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_par() {
    let mut n = note(1);
    n.t_life = real(0.0, 60.0);
    same(n.price(rate(), n.quoted_margin), n.par, "c21 equal margins price at par");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_margin() {
    config(Cfg::FeasMs, 2000);
    let (n, i, m) = (note(choice(4) + 1), real(0.0, 0.5), konst(0.005));
    let p = n.price(i, m);
    assume((n.price(i, m + 1e-6 / 10.0) - p).abs() > 1e-6);
    same(n.discount_margin(p, i), 0.005, "c21 the margin of the price at 0.5% is 0.5%");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c21_near() {
    config(Cfg::FeasMs, 2000);
    let n = FloatingRateNotes { par: konst(100.0), quoted_margin: konst(0.0), freq: konst(1.0), t_life: konst(1.0) };
    let (i, m) = (konst(0.0), real(0.0049, 0.0051));
    let p = n.price(i, m);
    let d = n.discount_margin(p, i);
    close(d, m, 0.0, 1e-6, "c21 margin of a price near that at 0.5%");
}
