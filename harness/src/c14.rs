//! bounds: arbitrary functions (every evaluation returns any real |y| <= 1e6), any start |x| <= 1e3, tolerance 1e-6 over all 100 steps of the iteration, tolerances 1e-8 and 1e-3 over the first ten (all in the thorough tier)
//! outside: functions returning NaN or infinity
//! assumes: an arbitrary function is modelled by a fresh symbolic value per evaluation
use crate::api::*;
use financelib::*;
use std::cell::RefCell;

fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }

/// the points evaluated come in pairs, a point and the same point plus dx; order within a pair does not matter
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_any() {
    config(Cfg::MaxForks, 100000);
    config(Cfg::FeasMs, 200);
    let tol = pick(&[1e-6, 1e-8, 1e-3]);
    let dx = tol / 10.0;
    let x0 = real(-1e3, 1e3);
    let log: RefCell<Vec<(f64, f64)>> = RefCell::new(Vec::with_capacity(256));
    let r = newt_raph(|x| {
        let y = real(-1e6, 1e6);
        // the other tolerances are followed for ten steps only
        assume(tol == 1e-6 || deep() || log.borrow().len() < 20);
        log.borrow_mut().push((x, y));
        y
    }, x0, tol);
    let log = log.into_inner();
    let n = log.len();
    check(n >= 2 && n <= 200, "c14 at most 200 evaluations");
    check(n % 2 == 0, "c14 two evaluations per step");
    // earlier steps are checked on the shorter runs, which are cut from the same sequence of evaluations
    let from = if deep() || n < 8 { 0 } else { n / 2 - 3 };
    let mut x = if from == 0 { x0 } else { let (a, b) = (log[2 * from].0, log[2 * from + 1].0); if a < b { a } else { b } };
    let mut flat = false;
    let mut last = 1.0;
    for k in from..n / 2 {
        let (a, b) = (log[2 * k], log[2 * k + 1]);
        let (p, q) = if a.0 < b.0 { (a, b) } else { (b, a) };
        same(p.0, x, "c14 evaluated at the current point");
        same(q.0 - p.0, dx, "c14 forward difference of a tenth of the tolerance");
        let df = (q.1 - p.1) / dx;
        flat = abs(df) < 1e-8;
        if k + 1 < n / 2 {
            check(!flat, "c14 stops when the slope vanishes");
            last = p.1 / df;
            check(abs(last) >= 1e-8, "c14 stops when converged");
            x -= last;
        } else if !flat {
            last = p.1 / df;
            x -= last;
        }
    }
    match r {
        Some(y) => {
            check(!flat, "c14 no root from a vanishing slope");
            check(abs(last) < 1e-8, "c14 the last step is below 1e-8");
            same(y, x, "c14 root is the last Newton point");
        }
        None => {
            check(flat | (n == 200), "c14 gives up only on a vanishing slope or after 100 steps");
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_c14_linear() {
    let (a, b, x0) = (real(-1e3, 1e3), real(-1e3, 1e3), real(-1e3, 1e3));
    let tol = pick(&[1e-6, 1e-8, 1e-3]);
    assume(abs(a) > 1e-6);
    let got = newt_raph(|x| a * x + b, x0, tol);
    check(got.is_some(), "c14 linear function always has a root");
    match got {
        Some(y) => { reach("c14 linear root found"); same(a * y + b, 0.0, "c14 linear function: exact root"); }
        None => (),
    }
}
