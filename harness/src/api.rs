//! Interface between the harnesses and the symbolic executor (or the native replay driver).
#![allow(dead_code)]
mod ffi {
    unsafe extern "C" {
        pub fn verif_f64(lo: f64, hi: f64) -> f64;
        pub fn verif_grid(lo: f64, hi: f64, g: i32) -> f64;
        pub fn verif_i32(lo: i32, hi: i32) -> i32;
        pub fn verif_choice(n: u32) -> u32;
        pub fn verif_assume(b: bool);
        pub fn verif_assert(b: bool, p: *const u8, n: usize);
        pub fn verif_close(a: f64, b: f64, rel: f64, abs: f64, p: *const u8, n: usize);
        pub fn verif_reach(p: *const u8, n: usize);
        pub fn verif_note(x: f64, p: *const u8, n: usize);
        pub fn verif_expect_panic(v: i32);
        pub fn verif_on_refusal(f: extern "C" fn(*mut u8), p: *mut u8);
        pub fn verif_deep() -> i32;
        pub fn verif_config(k: i32, v: u64);
    }
}
/// any real in [lo, hi]
pub fn real(lo: f64, hi: f64) -> f64 { unsafe { ffi::verif_f64(lo, hi) } }
/// a constant the compiler does not see through, so that arithmetic on it is not folded (and rounded) at compile time
pub fn konst(x: f64) -> f64 { real(x, x) }
/// any multiple of 2^g in [lo, hi]
pub fn grid(lo: f64, hi: f64, g: i32) -> f64 { unsafe { ffi::verif_grid(lo, hi, g) } }
/// any integer in [lo, hi]
pub fn int(lo: i32, hi: i32) -> i32 { unsafe { ffi::verif_i32(lo, hi) } }
/// one of 0..n; the executor explores every value on its own path
pub fn choice(n: u32) -> u32 { unsafe { ffi::verif_choice(n) } }
pub fn pick<T: Copy>(v: &[T]) -> T { v[choice(v.len() as u32) as usize] }
pub fn flag() -> bool { choice(2) == 1 }
pub fn assume(b: bool) { unsafe { ffi::verif_assume(b) } }
pub fn check(b: bool, what: &str) { unsafe { ffi::verif_assert(b, what.as_ptr(), what.len()) } }
/// a equals b up to |a-b| <= abs + rel*|b|
pub fn close(a: f64, b: f64, rel: f64, abs: f64, what: &str) { unsafe { ffi::verif_close(a, b, rel, abs, what.as_ptr(), what.len()) } }
/// a equals b up to rounding
pub fn same(a: f64, b: f64, what: &str) { close(a, b, 1e-9, 1e-9, what) }
pub fn reach(what: &str) { unsafe { ffi::verif_reach(what.as_ptr(), what.len()) } }
pub fn note(x: f64, what: &str) { unsafe { ffi::verif_note(x, what.as_ptr(), what.len()) } }
pub fn expect_panic(on: bool) { unsafe { ffi::verif_expect_panic(on as i32) } }
/// from here on the library has to refuse (panic); `f` then inspects what it left behind in `w`
pub fn refusal<W>(w: &mut W, f: extern "C" fn(*mut u8)) { unsafe { ffi::verif_on_refusal(f, w as *mut W as *mut u8) }; expect_panic(true) }
pub enum Cfg { Fp, Round, MaxForks, FeasMs, AssertMs, FloatIte, MaxConcr, Steps }
pub fn config(k: Cfg, v: u64) { unsafe { ffi::verif_config(k as i32, v) } }
/// true in the thorough tier
pub fn deep() -> bool { unsafe { ffi::verif_deep() != 0 } }
