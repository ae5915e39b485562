//! Hash-consed terms: booleans, bit-vectors, and floats (kept as exact real expressions with interval, granularity and
//! concrete-shadow information).
use crate::ir::{BinOp, FBinOp};
use std::collections::HashMap;
use std::rc::Rc;

pub type Tid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Pow }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FUn { Neg, Abs, Sqrt, Floor, Ceil, Trunc, Round, RoundEven, Exp, Ln, Expm1, Ln1p }

impl From<BinOp> for B {
    fn from(b: BinOp) -> B {
        match b {
            BinOp::Add => B::Add, BinOp::Sub => B::Sub, BinOp::Mul => B::Mul, BinOp::UDiv => B::UDiv, BinOp::SDiv => B::SDiv,
            BinOp::URem => B::URem, BinOp::SRem => B::SRem, BinOp::And => B::And, BinOp::Or => B::Or, BinOp::Xor => B::Xor,
            BinOp::Shl => B::Shl, BinOp::LShr => B::LShr, BinOp::AShr => B::AShr,
        }
    }
}
impl From<FBinOp> for FOp {
    fn from(b: FBinOp) -> FOp {
        match b { FBinOp::Add => FOp::Add, FBinOp::Sub => FOp::Sub, FBinOp::Mul => FOp::Mul, FBinOp::Div => FOp::Div, FBinOp::Rem => FOp::Rem }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    True,
    False,
    Not(Tid),
    And(Tid, Tid),
    Or(Tid, Tid),
    BoolEq(Tid, Tid),
    Eq(Tid, Tid),
    Ult(Tid, Tid),
    Ule(Tid, Tid),
    Slt(Tid, Tid),
    Sle(Tid, Tid),
    FEq(Tid, Tid),
    FLt(Tid, Tid),
    FLe(Tid, Tid),
    BC(u128, u32),
    BVar(u32, u32), // input id, width
    Bin(B, Tid, Tid),
    ZExt(Tid, u32),
    SExt(Tid, u32),
    Extract(Tid, u32, u32), // lo, width
    Concat(Tid, Tid),       // hi, lo
    Ite(Tid, Tid, Tid),
    Table(Tid, Rc<Vec<u64>>, u32), // index, values, width
    FToBits(Tid),
    FpToSi(Tid, u32),
    FpToUi(Tid, u32),
    FC(u64),
    FVar(u32),
    FBin(FOp, Tid, Tid),
    FUn(FUn, Tid),
    SiToFp(Tid),
    UiToFp(Tid),
    FOfBits(Tid),
}

#[derive(Clone, Debug)]
pub enum Info {
    Bool,
    Bv { w: u32, ulo: u128, uhi: u128, slo: i128, shi: i128 },
    /// value interval, granularity (value is a multiple of 2^g), whether the machine value equals the real value, concrete machine value
    Fl { lo: f64, hi: f64, g: Option<i32>, exact: bool, shadow: Option<f64> },
}

pub struct InputVar {
    pub name: String,
    pub kind: VarKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum VarKind {
    Real { lo: f64, hi: f64, grid: Option<i32> },
    Bv { w: u32, lo: i128, hi: i128 },
}

pub struct Arena {
    pub n: Vec<N>,
    pub info: Vec<Info>,
    map: HashMap<N, Tid>,
    pub vars: Vec<InputVar>,
    pub var_tid: Vec<Tid>,
    pub ops_exact: u64,
    pub ops_inexact: u64,
    pub fp_mode: bool,
}

pub const T: Tid = 0;
pub const F: Tid = 1;

fn umask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}
fn smin(w: u32) -> i128 { if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
fn smax(w: u32) -> i128 { if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }

pub fn bin_c(o: B, a: u128, b: u128, w: u32) -> u128 {
    let m = umask(w);
    (match o {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { m } else { x.wrapping_div(y) as u128 } }
        B::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => if b >= w as u128 { 0 } else { a << b },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let x = sx(a, w); if b >= w as u128 { if x < 0 { m } else { 0 } } else { (x >> b) as u128 } }
    }) & m
}

pub fn gran_of(c: f64) -> i32 {
    if c == 0.0 { return 1000; }
    let b = c.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    e + m.trailing_zeros() as i32
}
fn dn(x: f64) -> f64 { if x.is_finite() { x.next_down() } else { x } }
fn up(x: f64) -> f64 { if x.is_finite() { x.next_up() } else { x } }

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], info: vec![], map: HashMap::new(), vars: vec![], var_tid: vec![], ops_exact: 0, ops_inexact: 0, fp_mode: false };
        a.mk(N::True, Info::Bool);
        a.mk(N::False, Info::Bool);
        a
    }
    fn mk(&mut self, n: N, i: Info) -> Tid {
        if let Some(t) = self.map.get(&n) { return *t; }
        let t = self.n.len() as Tid;
        self.n.push(n.clone());
        self.info.push(i);
        self.map.insert(n, t);
        t
    }
    fn get(&self, n: &N) -> Option<Tid> { self.map.get(n).copied() }
    pub fn bool(&self, b: bool) -> Tid { if b { T } else { F } }
    pub fn width(&self, t: Tid) -> u32 {
        match &self.info[t as usize] { Info::Bv { w, .. } => *w, Info::Bool => 1, Info::Fl { .. } => 64 }
    }
    pub fn is_bool(&self, t: Tid) -> bool { matches!(self.info[t as usize], Info::Bool) }
    pub fn is_fl(&self, t: Tid) -> bool { matches!(self.info[t as usize], Info::Fl { .. }) }
    pub fn bc(&mut self, v: u128, w: u32) -> Tid {
        let v = v & umask(w);
        self.mk(N::BC(v, w), Info::Bv { w, ulo: v, uhi: v, slo: sx(v, w), shi: sx(v, w) })
    }
    pub fn as_bc(&self, t: Tid) -> Option<u128> {
        match self.n[t as usize] { N::BC(v, _) => Some(v), _ => None }
    }
    pub fn as_fc(&self, t: Tid) -> Option<f64> {
        match self.n[t as usize] { N::FC(v) => Some(f64::from_bits(v)), _ => None }
    }
    pub fn shadow(&self, t: Tid) -> Option<f64> {
        match self.info[t as usize] { Info::Fl { shadow, .. } => shadow, _ => None }
    }
    pub fn frange(&self, t: Tid) -> (f64, f64) {
        match self.info[t as usize] { Info::Fl { lo, hi, .. } => (lo, hi), _ => (f64::NEG_INFINITY, f64::INFINITY) }
    }
    pub fn fexact(&self, t: Tid) -> bool {
        match self.info[t as usize] { Info::Fl { exact, .. } => exact, _ => false }
    }
    pub fn ur(&self, t: Tid) -> (u128, u128) {
        match self.info[t as usize] { Info::Bv { ulo, uhi, .. } => (ulo, uhi), _ => (0, 1) }
    }
    pub fn sr(&self, t: Tid) -> (i128, i128) {
        match self.info[t as usize] { Info::Bv { slo, shi, .. } => (slo, shi), _ => (-1, 0) }
    }
    fn mk_bv(&mut self, n: N, w: u32, u: Option<(u128, u128)>, s: Option<(i128, i128)>) -> Tid {
        if let Some(t) = self.get(&n) { return t; }
        let (mut ulo, mut uhi) = u.unwrap_or((0, umask(w)));
        let (mut slo, mut shi) = s.unwrap_or((smin(w), smax(w)));
        let half = smax(w) as u128;
        if uhi <= half {
            slo = slo.max(ulo as i128);
            shi = shi.min(uhi as i128);
        } else if ulo > half {
            slo = slo.max(sx(ulo, w));
            shi = shi.min(sx(uhi, w));
        }
        if slo >= 0 {
            ulo = ulo.max(slo as u128);
            uhi = uhi.min(shi as u128);
        } else if shi < 0 {
            ulo = ulo.max(slo as u128 & umask(w));
            uhi = uhi.min(shi as u128 & umask(w));
        }
        if ulo > uhi || slo > shi { // contradictory interval information can only arise on infeasible paths; fall back to full
            ulo = 0; uhi = umask(w); slo = smin(w); shi = smax(w);
        }
        if ulo == uhi { return self.bc(ulo, w); }
        if slo == shi { return self.bc(slo as u128, w); }
        self.mk(n, Info::Bv { w, ulo, uhi, slo, shi })
    }
    pub fn new_bvar(&mut self, name: &str, w: u32, lo: i128, hi: i128) -> Tid {
        let id = self.vars.len() as u32;
        self.vars.push(InputVar { name: name.into(), kind: VarKind::Bv { w, lo, hi } });
        let n = N::BVar(id, w);
        let t = if lo >= 0 { self.mk(n, Info::Bv { w, ulo: lo as u128, uhi: hi as u128, slo: if hi <= smax(w) { lo } else { smin(w) }, shi: hi.min(smax(w)) }) }
            else { self.mk(n, Info::Bv { w, ulo: 0, uhi: umask(w), slo: lo, shi: hi }) };
        self.var_tid.push(t);
        t
    }
    pub fn new_fvar(&mut self, name: &str, lo: f64, hi: f64, grid: Option<i32>) -> Tid {
        let id = self.vars.len() as u32;
        self.vars.push(InputVar { name: name.into(), kind: VarKind::Real { lo, hi, grid } });
        let t = self.mk(N::FVar(id), Info::Fl { lo, hi, g: grid, exact: true, shadow: None });
        self.var_tid.push(t);
        t
    }
    pub fn fc(&mut self, v: f64) -> Tid {
        let v = if v == 0.0 { 0.0 } else { v };
        self.mk(N::FC(v.to_bits()), Info::Fl { lo: v, hi: v, g: if v.is_finite() { Some(gran_of(v)) } else { None }, exact: true, shadow: Some(v) })
    }
    // ---- booleans
    pub fn not(&mut self, a: Tid) -> Tid {
        match self.n[a as usize] {
            N::True => F,
            N::False => T,
            N::Not(x) => x,
            N::FLt(x, y) if !self.fp_mode => self.fle(y, x),
            N::FLe(x, y) if !self.fp_mode => self.flt(y, x),
            N::Ult(x, y) => self.ule(y, x),
            N::Ule(x, y) => self.ult(y, x),
            N::Slt(x, y) => self.sle(y, x),
            N::Sle(x, y) => self.slt(y, x),
            _ => self.mk(N::Not(a), Info::Bool),
        }
    }
    pub fn and(&mut self, a: Tid, b: Tid) -> Tid {
        if a == F || b == F { return F; }
        if a == T || a == b { return b; }
        if b == T { return a; }
        let na = self.not(a);
        if na == b { return F; }
        self.mk(N::And(a.min(b), a.max(b)), Info::Bool)
    }
    pub fn or(&mut self, a: Tid, b: Tid) -> Tid {
        if a == T || b == T { return T; }
        if a == F || a == b { return b; }
        if b == F { return a; }
        let na = self.not(a);
        if na == b { return T; }
        self.mk(N::Or(a.min(b), a.max(b)), Info::Bool)
    }
    pub fn booleq(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return T; }
        if a == T { return b; }
        if b == T { return a; }
        if a == F { return self.not(b); }
        if b == F { return self.not(a); }
        self.mk(N::BoolEq(a.min(b), a.max(b)), Info::Bool)
    }
    pub fn ite(&mut self, c: Tid, a: Tid, b: Tid) -> Tid {
        if c == T || a == b { return a; }
        if c == F { return b; }
        if let N::Not(x) = self.n[c as usize] { return self.ite(x, b, a); }
        if self.is_bool(a) {
            if a == T && b == F { return c; }
            let nc = self.not(c);
            let x = self.and(c, a);
            let y = self.and(nc, b);
            return self.or(x, y);
        }
        if let N::Ite(c2, x, _) = self.n[a as usize] { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(c2, _, y) = self.n[b as usize] { if c2 == c { return self.ite(c, a, y); } }
        let n = N::Ite(c, a, b);
        if let Info::Fl { lo, hi, g, exact, .. } = self.info[a as usize].clone() {
            if let Info::Fl { lo: l2, hi: h2, g: g2, exact: e2, .. } = self.info[b as usize].clone() {
                let g = match (g, g2) { (Some(x), Some(y)) => Some(x.min(y)), _ => None };
                return self.mk(n, Info::Fl { lo: lo.min(l2), hi: hi.max(h2), g, exact: exact && e2, shadow: None });
            }
        }
        let w = self.width(a);
        let (u1, u2) = (self.ur(a), self.ur(b));
        let (s1, s2) = (self.sr(a), self.sr(b));
        self.mk_bv(n, w, Some((u1.0.min(u2.0), u1.1.max(u2.1))), Some((s1.0.min(s2.0), s1.1.max(s2.1))))
    }
    // leaves of an ite-tree of constants, if small
    fn const_tree(&self, t: Tid, lim: &mut u32) -> bool {
        if *lim == 0 { return false; }
        *lim -= 1;
        match self.n[t as usize] {
            N::BC(..) => true,
            N::Ite(_, a, b) => self.const_tree(a, lim) && self.const_tree(b, lim),
            _ => false,
        }
    }
    fn is_ctree(&self, t: Tid) -> bool {
        if !matches!(self.n[t as usize], N::Ite(..)) { return false; }
        let mut l = 40;
        self.const_tree(t, &mut l)
    }
    fn map_tree(&mut self, t: Tid, f: &dyn Fn(&mut Arena, Tid) -> Tid) -> Tid {
        match self.n[t as usize] {
            N::Ite(c, a, b) => {
                let x = self.map_tree(a, f);
                let y = self.map_tree(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, t),
        }
    }
    // ---- comparisons on bit-vectors
    pub fn eq(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return T; }
        if self.is_bool(a) { return self.booleq(a, b); }
        let (u1, u2) = (self.ur(a), self.ur(b));
        if u1.1 < u2.0 || u2.1 < u1.0 { return F; }
        let (s1, s2) = (self.sr(a), self.sr(b));
        if s1.1 < s2.0 || s2.1 < s1.0 { return F; }
        let (a, b) = if self.as_bc(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_bc(b) {
            let w = self.width(a);
            if let Some(ka) = self.as_bc(a) { return self.bool(ka == k); }
            if self.is_ctree(a) { return self.map_tree(a, &move |s, x| { let v = s.as_bc(x).unwrap() == k; s.bool(v) }); }
            match self.n[a as usize].clone() {
                N::Ite(c, x, y) if self.as_bc(y).is_some() => {
                    let e = self.eq(x, b);
                    return if self.as_bc(y) == Some(k) { let n = self.not(c); self.or(n, e) } else { self.and(c, e) };
                }
                N::Ite(c, x, y) if self.as_bc(x).is_some() => {
                    let e = self.eq(y, b);
                    return if self.as_bc(x) == Some(k) { self.or(c, e) } else { let n = self.not(c); self.and(n, e) };
                }
                N::ZExt(x, _) => { let wx = self.width(x); if k > umask(wx) { return F; } let c = self.bc(k, wx); return self.eq(x, c); }
                N::SExt(x, _) => { let wx = self.width(x); if sx(k & umask(wx), wx) as u128 & umask(w) != k { return F; } let c = self.bc(k, wx); return self.eq(x, c); }
                N::Bin(B::Add, x, y) => if let Some(c) = self.as_bc(y) { let c = self.bc(k.wrapping_sub(c), w); return self.eq(x, c); },
                N::Bin(B::Sub, x, y) => {
                    if k == 0 { return self.eq(x, y); }
                    if let Some(c) = self.as_bc(x) { let c = self.bc(c.wrapping_sub(k), w); return self.eq(y, c); }
                }
                N::Bin(B::Xor, x, y) => if let Some(c) = self.as_bc(y) { let c = self.bc(k ^ c, w); return self.eq(x, c); } else if k == 0 { return self.eq(x, y); },
                N::Table(i, vals, _) => {
                    if !vals.iter().any(|v| *v as u128 == k) { return F; }
                    let hits: Vec<usize> = vals.iter().enumerate().filter(|(_, v)| **v as u128 == k).map(|x| x.0).collect();
                    if hits.len() <= 4 {
                        let mut r = F;
                        let wi = self.width(i);
                        for h in hits { let c = self.bc(h as u128, wi); let e = self.eq(i, c); r = self.or(r, e); }
                        return r;
                    }
                }
                _ => {}
            }
        }
        self.mk(N::Eq(a.min(b), a.max(b)), Info::Bool)
    }
    pub fn ult(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return F; }
        let (u1, u2) = (self.ur(a), self.ur(b));
        if u1.1 < u2.0 { return T; }
        if u1.0 >= u2.1 { return F; }
        if self.as_bc(b).is_some() && self.is_ctree(a) { let k = self.as_bc(b).unwrap(); return self.map_tree(a, &move |s, x| { let v = s.as_bc(x).unwrap() < k; s.bool(v) }); }
        if let (Some(k), N::ZExt(x, _)) = (self.as_bc(b), self.n[a as usize].clone()) { let w = self.width(x); let c = self.bc(k, w); return self.ult(x, c); }
        if let (Some(k), N::ZExt(x, _)) = (self.as_bc(a), self.n[b as usize].clone()) { let w = self.width(x); let c = self.bc(k, w); return self.ult(c, x); }
        self.mk(N::Ult(a, b), Info::Bool)
    }
    pub fn ule(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return T; }
        let (u1, u2) = (self.ur(a), self.ur(b));
        if u1.1 <= u2.0 { return T; }
        if u1.0 > u2.1 { return F; }
        self.mk(N::Ule(a, b), Info::Bool)
    }
    pub fn slt(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return F; }
        let (u1, u2) = (self.sr(a), self.sr(b));
        if u1.1 < u2.0 { return T; }
        if u1.0 >= u2.1 { return F; }
        if self.as_bc(b) == Some(0) { if let N::FToBits(x) = self.n[a as usize] { let z = self.fc(0.0); return self.flt(x, z); } }
        if self.as_bc(b).is_some() && self.is_ctree(a) { let (k, w) = (self.as_bc(b).unwrap(), self.width(a)); return self.map_tree(a, &move |s, x| { let v = sx(s.as_bc(x).unwrap(), w) < sx(k, w); s.bool(v) }); }
        self.mk(N::Slt(a, b), Info::Bool)
    }
    pub fn sle(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b { return T; }
        let (u1, u2) = (self.sr(a), self.sr(b));
        if u1.1 <= u2.0 { return T; }
        if u1.0 > u2.1 { return F; }
        self.mk(N::Sle(a, b), Info::Bool)
    }
    // ---- bit-vector operations
    pub fn bin(&mut self, o: B, a: Tid, b: Tid) -> Tid {
        if self.is_bool(a) {
            return match o {
                B::And => self.and(a, b),
                B::Or => self.or(a, b),
                B::Xor => { let e = self.booleq(a, b); self.not(e) }
                B::Add | B::Sub => { let e = self.booleq(a, b); self.not(e) }
                B::Mul => self.and(a, b),
                _ => panic!("bool op {:?}", o),
            };
        }
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_bc(a), self.as_bc(b)) { return self.bc(bin_c(o, x, y, w), w); }
        let comm = matches!(o, B::Add | B::Mul | B::And | B::Or | B::Xor);
        let (a, b) = if comm && (self.as_bc(a).is_some() || (self.as_bc(b).is_none() && a > b)) { (b, a) } else { (a, b) };
        let kb = self.as_bc(b);
        if let Some(k) = kb {
            match (o, k) {
                (B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr, 0) => return a,
                (B::Mul | B::And, 0) => return b,
                (B::Mul | B::UDiv | B::SDiv, 1) => return a,
                (B::URem, 1) => return self.bc(0, w),
                _ => {}
            }
            if o == B::And && k == umask(w) { return a; }
            if o == B::Sub { let c = self.bc((!k).wrapping_add(1), w); return self.bin(B::Add, a, c); }
            if self.is_ctree(a) { return self.map_tree(a, &move |s, x| { let v = bin_c(o, s.as_bc(x).unwrap(), k, w); s.bc(v, w) }); }
            if w <= 64 { if let N::Table(i, v, _) = self.n[a as usize].clone() { if v.len() <= 1024 {
                let vv: Vec<u64> = v.iter().map(|x| bin_c(o, *x as u128, k, w) as u64).collect();
                return self.table(i, Rc::new(vv), w);
            } } }
            match (o, self.n[a as usize].clone()) {
                (B::Add, N::Bin(B::Add, x, y)) => if let Some(c) = self.as_bc(y) { let c = self.bc(c.wrapping_add(k), w); return self.bin(B::Add, x, c); },
                (B::Xor, N::Bin(B::Xor, x, y)) => if let Some(c) = self.as_bc(y) { let c = self.bc(c ^ k, w); return self.bin(B::Xor, x, c); },
                (B::And, N::Bin(B::And, x, y)) => if let Some(c) = self.as_bc(y) { let c = self.bc(c & k, w); return self.bin(B::And, x, c); },
                (B::Mul, N::Bin(B::Mul, x, y)) => if let Some(c) = self.as_bc(y) { let c = self.bc(c.wrapping_mul(k), w); return self.bin(B::Mul, x, c); },
                (B::And, N::FToBits(x)) if k == 0x7fff_ffff_ffff_ffff => { let y = self.fun(FUn::Abs, x); return self.f_to_bits(y); }
                (B::Xor, N::FToBits(x)) if k == 1 << 63 => { let y = self.fun(FUn::Neg, x); return self.f_to_bits(y); }
                (B::Shl, _) if k < w as u128 => { let c = self.bc(1u128 << k, w); return self.bin(B::Mul, a, c); }
                (B::And, N::ZExt(x, _)) => { let wx = self.width(x); if k & umask(wx) == umask(wx) { return a; } let c = self.bc(k & umask(wx), wx); let r = self.bin(B::And, x, c); return self.zext(r, w); }
                _ => {}
            }
        } else if let Some(k) = self.as_bc(a) {
            if !comm && self.is_ctree(b) { return self.map_tree(b, &move |s, x| { let v = bin_c(o, k, s.as_bc(x).unwrap(), w); s.bc(v, w) }); }
            if matches!(o, B::UDiv|B::URem|B::Shl|B::LShr|B::AShr|B::SRem|B::SDiv) && k == 0 { return a; }
        }
        if a == b {
            match o {
                B::Sub | B::Xor => return self.bc(0, w),
                B::And | B::Or => return a,
                _ => {}
            }
        }
        if w <= 64 { if let Some(t) = self.split(o, a, b, w) { return t; } }
        let (u1, u2) = (self.ur(a), self.ur(b));
        let (s1, s2) = (self.sr(a), self.sr(b));
        let mx = umask(w);
        let (mut u, mut s) = (None, None);
        let inw = |lo: i128, hi: i128| lo >= smin(w) && hi <= smax(w);
        if w <= 64 {
            match o {
                B::Add => {
                    if u1.1 + u2.1 <= mx { u = Some((u1.0 + u2.0, u1.1 + u2.1)); }
                    let (l, h) = (s1.0 + s2.0, s1.1 + s2.1);
                    if inw(l, h) { s = Some((l, h)); }
                }
                B::Sub => {
                    if u1.0 >= u2.1 { u = Some((u1.0 - u2.1, u1.1 - u2.0)); }
                    let (l, h) = (s1.0 - s2.1, s1.1 - s2.0);
                    if inw(l, h) { s = Some((l, h)); }
                }
                B::Mul => {
                    if let Some(h) = u1.1.checked_mul(u2.1) { if h <= mx { u = Some((u1.0 * u2.0, h)); } }
                    let c = [s1.0 * s2.0, s1.0 * s2.1, s1.1 * s2.0, s1.1 * s2.1];
                    let (l, h) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                    if inw(l, h) { s = Some((l, h)); }
                }
                B::UDiv => if u2.0 > 0 { u = Some((u1.0 / u2.1, u1.1 / u2.0)); },
                B::URem => if u2.0 > 0 { if u1.1 < u2.0 { return a; } if u2.0 == u2.1 && u1.0 / u2.0 == u1.1 / u2.0 { let q = self.bc(u1.0 / u2.0 * u2.0, w); return self.bin(B::Sub, a, q); } u = Some((0, u1.1.min(u2.1 - 1))); },
                B::SDiv => if s2.0 > 0 { 
                    let c = [s1.0 / s2.0, s1.0 / s2.1, s1.1 / s2.0, s1.1 / s2.1];
                    s = Some((*c.iter().min().unwrap(), *c.iter().max().unwrap())); },
                B::SRem => if s2.0 > 0 { if s1.0 >= 0 && s1.1 < s2.0 { return a; } if s2.0 == s2.1 && s1.0 >= 0 && s1.0 / s2.0 == s1.1 / s2.0 { let q = self.bc((s1.0 / s2.0 * s2.0) as u128, w); return self.bin(B::Sub, a, q); } s = Some((if s1.0 >= 0 { 0 } else { s1.0.max(-(s2.1 - 1)) }, if s1.1 <= 0 { 0 } else { s1.1.min(s2.1 - 1) })); },
                B::And => u = Some((0, u1.1.min(u2.1))),
                B::Or | B::Xor => {
                    let m = u1.1.max(u2.1);
                    let bits = 128 - m.leading_zeros();
                    u = Some((if o == B::Or { u1.0.max(u2.0) } else { 0 }, umask(bits.min(w))));
                    if bits == 0 { u = Some((0, 0)); }
                }
                B::LShr => if u2.0 == u2.1 && u2.0 < w as u128 { u = Some((u1.0 >> u2.0, u1.1 >> u2.0)); },
                B::AShr => if u2.0 == u2.1 && u2.0 < w as u128 { s = Some((s1.0 >> u2.0, s1.1 >> u2.0)); },
                B::Shl => {}
            }
        }
        self.mk_bv(N::Bin(o, a, b), w, u, s)
    }
    /// number of known trailing zero bits
    pub fn tz(&self, t: Tid) -> u32 {
        match &self.n[t as usize] {
            N::BC(v, w) => if *v == 0 { *w } else { v.trailing_zeros() },
            N::Bin(B::Shl, a, k) => match self.as_bc(*k) { Some(k) if k < 64 => self.tz(*a) + k as u32, _ => 0 },
            N::Bin(B::Mul, a, b) => self.tz(*a) + self.tz(*b),
            N::Bin(B::And, a, b) => self.tz(*a).max(self.tz(*b)),
            N::Bin(B::Or | B::Add | B::Sub | B::Xor, a, b) => self.tz(*a).min(self.tz(*b)),
            N::ZExt(a, _) | N::SExt(a, _) => { let k = self.tz(*a); if k >= self.width(*a) { 0 } else { k } }
            N::Ite(_, a, b) => self.tz(*a).min(self.tz(*b)),
            _ => 0,
        }
    }
    fn addends(&self, t: Tid, out: &mut Vec<Tid>) {
        if let N::Bin(B::Add, x, y) = self.n[t as usize] { if out.len() < 8 { self.addends(x, out); self.addends(y, out); return; } }
        out.push(t);
    }
    fn sum(&mut self, v: &[Tid], w: u32) -> Tid {
        let mut r = self.bc(0, w);
        for x in v { r = self.bin(B::Add, r, *x); }
        r
    }
    /// packed fields and exact divisions
    fn split(&mut self, o: B, a: Tid, b: Tid, w: u32) -> Option<Tid> {
        let kb = self.as_bc(b);
        let (u1, s1) = (self.ur(a), self.sr(a));
        let below = |s: &Self, y: Tid, j: u32| j < 64 && s.ur(y).1 < 1u128 << j;
        match o {
            B::Or | B::Xor => {
                let d = |x: Tid, y: Tid| below(self, y, self.tz(x).min(63));
                if d(a, b) || d(b, a) { return Some(self.bin(B::Add, a, b)); }
            }
            B::And => {
                let k = kb?;
                if (k & (k.wrapping_add(1))) == 0 && u1.1 <= k { return Some(a); }
                let top = 128 - k.leading_zeros();
                let low = k.trailing_zeros();
                if let N::Bin(B::Add, ..) = self.n[a as usize] {
                    let mut v = vec![];
                    self.addends(a, &mut v);
                    let n = v.len();
                    v.retain(|x| self.tz(*x) < top);
                    let lo: u128 = v.iter().filter(|x| self.tz(**x) < low).map(|x| self.ur(*x).1).sum();
                    if low > 0 && lo < 1u128 << low { v.retain(|x| self.tz(*x) >= low); }
                    if v.len() < n { let r = self.sum(&v, w); return Some(self.bin(B::And, r, b)); }
                }
                if low > 0 && self.tz(a) >= low && u1.1 <= k && (k >> low) & ((k >> low) + 1) == 0 { return Some(a); }
            }
            B::AShr => if s1.0 >= 0 { return Some(self.bin(B::LShr, a, b)); },
            B::LShr => {
                let j = kb?;
                if j == 0 || j >= w as u128 { return None; }
                let j = j as u32;
                if below(self, a, j) { return Some(self.bc(0, w)); }
                match self.n[a as usize].clone() {
                    N::Bin(B::Add, ..) => {
                        let mut v = vec![];
                        self.addends(a, &mut v);
                        let tot: u128 = v.iter().map(|x| self.ur(*x).1).sum();
                        if tot > umask(w) || !v.iter().any(|x| self.tz(*x) >= j) { return None; }
                        let (hi, lo): (Vec<Tid>, Vec<Tid>) = v.iter().partition(|x| self.tz(**x) >= j);
                        let mut hs = vec![];
                        for h in hi { hs.push(self.bin(B::LShr, h, b)); }
                        let l = self.sum(&lo, w);
                        hs.push(self.bin(B::LShr, l, b));
                        return Some(self.sum(&hs, w));
                    }
                    N::Bin(B::Mul, x, c) => {
                        let c = self.as_bc(c)?;
                        if c.trailing_zeros() >= j && self.ur(x).1.checked_mul(c)? <= umask(w) { let d = self.bc(c >> j, w); return Some(self.bin(B::Mul, x, d)); }
                    }
                    _ => {}
                }
            }
            B::SDiv => {
                let k = sx(kb?, w);
                if k < 0 && k != smin(w) { let c = self.bc(-k as u128, w); let q = self.bin(B::SDiv, a, c); let z = self.bc(0, w); return Some(self.bin(B::Sub, z, q)); }
                if k > 0 && s1.0 >= 0 { return Some(self.bin(B::UDiv, a, b)); }
                if k > 0 { if let N::Bin(B::Mul, x, c) = self.n[a as usize] {
                    let c = sx(self.as_bc(c)?, w);
                    let (l, h) = self.sr(x);
                    if c > 0 && c % k == 0 && l.checked_mul(c)? >= smin(w) && h.checked_mul(c)? <= smax(w) { let d = self.bc((c / k) as u128, w); return Some(self.bin(B::Mul, x, d)); }
                } }
            }
            B::SRem => { 
                let k = sx(kb?, w);
                if k < 0 && k != smin(w) { let c = self.bc(-k as u128, w); return Some(self.bin(B::SRem, a, c)); }
                if k > 0 && s1.0 >= 0 { return Some(self.bin(B::URem, a, b)); }
                if k > 0 { if let N::Bin(B::Mul, x, c) = self.n[a as usize] {
                    let c = sx(self.as_bc(c)?, w);
                    let (l, h) = self.sr(x);
                    if c > 0 && c % k == 0 && l.checked_mul(c)? >= smin(w) && h.checked_mul(c)? <= smax(w) { return Some(self.bc(0, w)); }
                } }
            }
            B::UDiv | B::URem => {
                let k = kb?;
                if k == 0 { return None; }
                if let N::Bin(B::Add, ..) = self.n[a as usize] {
                    let mut v = vec![];
                    self.addends(a, &mut v);
                    let tot: u128 = v.iter().map(|x| self.ur(*x).1).sum();
                    if tot <= umask(w) {
                        let mult = |s: &Self, t: Tid| match s.n[t as usize] { N::BC(c, _) => c % k == 0, N::Bin(B::Mul, x, c) => match s.as_bc(c) { Some(c) => c % k == 0 && s.ur(x).1.checked_mul(c).map(|h| h <= umask(w)).unwrap_or(false), None => false }, _ => false };
                        let (hi, lo): (Vec<Tid>, Vec<Tid>) = v.iter().partition(|x| mult(self, **x));
                        if !hi.is_empty() {
                            let l = self.sum(&lo, w);
                            if o == B::URem { return Some(self.bin(B::URem, l, b)); }
                            let mut hs = vec![];
                            for h in hi { hs.push(self.bin(B::UDiv, h, b)); }
                            hs.push(self.bin(B::UDiv, l, b));
                            return Some(self.sum(&hs, w));
                        }
                    }
                }
                if let N::Bin(B::Mul, x, c) = self.n[a as usize] {
                    let c = self.as_bc(c)?;
                    if c % k == 0 && self.ur(x).1.checked_mul(c)? <= umask(w) {
                        if o == B::URem { return Some(self.bc(0, w)); }
                        let d = self.bc(c / k, w);
                        return Some(self.bin(B::Mul, x, d));
                    }
                }
            }
            _ => {}
        }
        None
    }
    pub fn zext(&mut self, a: Tid, w: u32) -> Tid {
        if self.is_bool(a) { let (x, y) = (self.bc(1, w), self.bc(0, w)); return self.ite(a, x, y); }
        let wa = self.width(a);
        if wa == w { return a; }
        if let Some(v) = self.as_bc(a) { return self.bc(v, w); }
        if self.is_ctree(a) { return self.map_tree(a, &move |s, x| { let v = s.as_bc(x).unwrap(); s.bc(v, w) }); }
        if let N::ZExt(x, _) = self.n[a as usize] { return self.zext(x, w); }
        if let N::Table(i, v, _) = self.n[a as usize].clone() { let u = self.ur(a); return self.mk_bv(N::Table(i, v, w), w, Some(u), None); }
        let u = self.ur(a);
        self.mk_bv(N::ZExt(a, w), w, Some(u), None)
    }
    pub fn sext(&mut self, a: Tid, w: u32) -> Tid {
        if self.is_bool(a) { let (x, y) = (self.bc(u128::MAX, w), self.bc(0, w)); return self.ite(a, x, y); }
        let wa = self.width(a);
        if wa == w { return a; }
        if let Some(v) = self.as_bc(a) { return self.bc(sx(v, wa) as u128, w); }
        if self.is_ctree(a) { return self.map_tree(a, &move |s, x| { let v = sx(s.as_bc(x).unwrap(), wa) as u128; s.bc(v, w) }); }
        let s = self.sr(a);
        if s.0 >= 0 { return self.zext(a, w); }
        if let N::SExt(x, _) = self.n[a as usize] { return self.sext(x, w); }
        self.mk_bv(N::SExt(a, w), w, None, Some(s))
    }
    pub fn extract(&mut self, a: Tid, lo: u32, w: u32) -> Tid {
        let wa = self.width(a);
        if lo == 0 && w == wa { return a; }
        if let Some(v) = self.as_bc(a) { return self.bc(v >> lo, w); }
        if self.is_ctree(a) { return self.map_tree(a, &move |s, x| { let v = s.as_bc(x).unwrap() >> lo; s.bc(v, w) }); }
        match self.n[a as usize].clone() {
            N::Extract(x, l2, _) => return self.extract(x, lo + l2, w),
            N::ZExt(x, _) => {
                let wx = self.width(x);
                if lo >= wx { return self.bc(0, w); }
                if lo + w <= wx { return self.extract(x, lo, w); }
                if lo == 0 { return self.zext(x, w); }
            }
            N::SExt(x, _) => {
                let wx = self.width(x);
                if lo + w <= wx { return self.extract(x, lo, w); }
                if lo == 0 { return self.sext(x, w); }
            }
            N::Concat(h, l) => {
                let wl = self.width(l);
                if lo + w <= wl { return self.extract(l, lo, w); }
                if lo >= wl { return self.extract(h, lo - wl, w); }
            }
            N::Bin(o @ (B::Add | B::Sub | B::Mul | B::And | B::Or | B::Xor), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(o, p, q);
            }
            N::Ite(c, x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.ite(c, p, q);
            }
            N::Table(i, v, _) => { let vv: Vec<u64> = v.iter().map(|x| (x >> lo) & umask(w) as u64).collect(); return self.table(i, Rc::new(vv), w); }
            _ => {}
        }
        let u = self.ur(a);
        let u2 = if u.1 >> lo <= umask(w) { Some((u.0 >> lo, u.1 >> lo)) } else { None };
        let s2 = if lo == 0 { let s = self.sr(a); if s.0 >= smin(w) && s.1 <= smax(w) { Some(s) } else { None } } else { None };
        self.mk_bv(N::Extract(a, lo, w), w, u2, s2)
    }
    pub fn trunc(&mut self, a: Tid, w: u32) -> Tid {
        if w == 1 && !self.is_bool(a) { let e = self.extract(a, 0, 1); return self.to_bool(e); }
        self.extract(a, 0, w)
    }
    /// width-1 bit-vector (or wider 0/1 value) to boolean
    pub fn to_bool(&mut self, a: Tid) -> Tid {
        if self.is_bool(a) { return a; }
        let w = self.width(a);
        let o = self.bc(1, w);
        self.eq(a, o)
    }
    pub fn concat(&mut self, h: Tid, l: Tid) -> Tid {
        let (wh, wl) = (self.width(h), self.width(l));
        if let (Some(a), Some(b)) = (self.as_bc(h), self.as_bc(l)) { return self.bc(a << wl | b, wh + wl); }
        if let (N::Extract(x, l1, w1), N::Extract(y, l2, w2)) = (self.n[h as usize].clone(), self.n[l as usize].clone()) {
            if x == y && l2 + w2 == l1 { return self.extract(x, l2, w1 + w2); }
        }
        if self.as_bc(h) == Some(0) { return self.zext(l, wh + wl); }
        let (uh, ul) = (self.ur(h), self.ur(l));
        self.mk_bv(N::Concat(h, l), wh + wl, Some((uh.0 << wl | ul.0, uh.1 << wl | ul.1)), None)
    }
    pub fn table(&mut self, i: Tid, vals: Rc<Vec<u64>>, w: u32) -> Tid {
        if let Some(k) = self.as_bc(i) { return self.bc(vals[k as usize] as u128, w); }
        let (lo, hi) = self.ur(i);
        let s = &vals[(lo as usize).min(vals.len() - 1)..=(hi.min(vals.len() as u128 - 1) as usize)];
        let (mn, mx) = (*s.iter().min().unwrap(), *s.iter().max().unwrap());
        if mn == mx { return self.bc(mn as u128, w); }
        self.mk_bv(N::Table(i, vals, w), w, Some((mn as u128, mx as u128)), None)
    }
    // ---- floats
    pub fn f_to_bits(&mut self, a: Tid) -> Tid {
        match self.n[a as usize] {
            N::FC(b) => self.bc(b as u128, 64),
            N::FOfBits(x) => x,
            _ => self.mk_bv(N::FToBits(a), 64, None, None),
        }
    }
    pub fn f_of_bits(&mut self, a: Tid) -> Tid {
        match self.n[a as usize] {
            N::BC(b, _) => self.fc(f64::from_bits(b as u64)),
            N::FToBits(x) => x,
            _ => self.mk(N::FOfBits(a), Info::Fl { lo: f64::NEG_INFINITY, hi: f64::INFINITY, g: None, exact: true, shadow: None }),
        }
    }
    pub fn fbin(&mut self, o: FOp, a: Tid, b: Tid) -> Tid {
        let (ia, ib) = (self.info[a as usize].clone(), self.info[b as usize].clone());
        let (Info::Fl { lo: l1, hi: h1, g: g1, exact: e1, shadow: s1 }, Info::Fl { lo: l2, hi: h2, g: g2, exact: e2, shadow: s2 }) = (ia, ib) else { panic!("fbin on non-floats") };
        let mut shadow = None;
        if let (Some(x), Some(y)) = (s1, s2) {
            let r = match o {
                FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y, FOp::Pow => x.powf(y),
            };
            if !r.is_finite() || self.fp_mode { return self.fc(r); }
            if let (Some(x), Some(y)) = (self.as_fc(a), self.as_fc(b)) {
                let ex = match o {
                    FOp::Add | FOp::Sub => { let y = if o == FOp::Sub { -y } else { y }; let bb = r - x; (x - (r - bb)) + (y - bb) == 0.0 }
                    FOp::Mul => r == 0.0 && (x == 0.0 || y == 0.0) || (r.abs() > 1e-250 && x.mul_add(y, -r) == 0.0),
                    FOp::Div => x == 0.0 || (r.abs() > 1e-250 && r.mul_add(y, -x) == 0.0),
                    FOp::Rem => true,
                    FOp::Pow => y == 0.0 || x == 1.0 || y == 1.0 || (y.fract() == 0.0 && y.abs() <= 64.0 && x.fract() == 0.0 && r.abs() < 9e15 && r.fract() == 0.0),
                };
                if ex { return self.fc(r); }
            }
            shadow = Some(r);
        }
        // constants that absorb
        for (k, t, c) in [(0, a, s1), (1, b, s2)] {
            if let Some(c) = c {
                if c.is_nan() { return self.fc(f64::NAN); }
                if c.is_infinite() {
                    match o {
                        FOp::Add => return t,
                        FOp::Sub => return if k == 0 { t } else { self.fc(-c) },
                        FOp::Div => if k == 1 { return self.fc(0.0); },
                        _ => {}
                    }
                }
            }
        }
        if !self.fp_mode {
            let (ca, cb) = (self.as_fc(a), self.as_fc(b));
            match o {
                FOp::Add => { if ca == Some(0.0) { return b; } if cb == Some(0.0) { return a; } }
                FOp::Sub => { if cb == Some(0.0) { return a; } if a == b { return self.fc(0.0); } if ca == Some(0.0) { return self.fun(FUn::Neg, b); } }
                FOp::Mul => {
                    if ca == Some(1.0) { return b; } if cb == Some(1.0) { return a; }
                    if ca == Some(0.0) || cb == Some(0.0) { return self.fc(0.0); }
                    if ca == Some(-1.0) { return self.fun(FUn::Neg, b); } if cb == Some(-1.0) { return self.fun(FUn::Neg, a); }
                }
                FOp::Div => { if cb == Some(1.0) { return a; } if ca == Some(0.0) { return a; } if a == b { return self.fc(1.0); } if cb == Some(-1.0) { return self.fun(FUn::Neg, a); } }
                FOp::Pow => { if cb == Some(0.0) { return self.fc(1.0); } if cb == Some(1.0) { return a; } if ca == Some(1.0) { return a; } }
                FOp::Rem => {}
            }
        }
        let (a, b) = if !self.fp_mode && matches!(o, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) };
        let n = N::FBin(o, a, b);
        if let Some(t) = self.get(&n) { return t; }
        let inf = f64::INFINITY;
        let p = |x: f64, y: f64| -> f64 { let r = x * y; if r.is_nan() { 0.0 } else { r } };
        let (lo, hi) = match o {
            FOp::Add => (dn(l1 + l2), up(h1 + h2)),
            FOp::Sub => (dn(l1 - h2), up(h1 - l2)),
            FOp::Mul => {
                let c = [p(l1, l2), p(l1, h2), p(h1, l2), p(h1, h2)];
                (dn(c.iter().cloned().fold(inf, f64::min)), up(c.iter().cloned().fold(-inf, f64::max)))
            }
            FOp::Div => {
                if l2 > 0.0 || h2 < 0.0 {
                    let q = |x: f64, y: f64| -> f64 { let r = x / y; if r.is_nan() { 0.0 } else { r } };
                    let c = [q(l1, l2), q(l1, h2), q(h1, l2), q(h1, h2)];
                    (dn(c.iter().cloned().fold(inf, f64::min)), up(c.iter().cloned().fold(-inf, f64::max)))
                } else { (-inf, inf) }
            }
            FOp::Rem => (if l1 < 0.0 { -inf } else { 0.0 }, if h1 > 0.0 { inf } else { 0.0 }),
            FOp::Pow => {
                if l1 > 0.0 {
                    let c = [l1.powf(l2), l1.powf(h2), h1.powf(l2), h1.powf(h2)];
                    let mut lo = c.iter().cloned().fold(inf, f64::min);
                    let mut hi = c.iter().cloned().fold(0.0, f64::max);
                    if l1 <= 1.0 && h1 >= 1.0 || l2 <= 0.0 && h2 >= 0.0 { lo = lo.min(1.0); hi = hi.max(1.0); }
                    if lo.is_nan() || hi.is_nan() { (0.0, inf) } else { ((lo * (1.0 - 1e-12)).max(0.0), hi * (1.0 + 1e-12)) }
                } else { (if l1 < 0.0 { -inf } else { 0.0 }, inf) }
            }
        };
        let (lo, hi) = match shadow { Some(s) => (s - s.abs() * 1e-12 - 1e-300, s + s.abs() * 1e-12 + 1e-300), None => (lo, hi) };
        let (lo, hi) = if lo.is_nan() || hi.is_nan() { (-inf, inf) } else { (lo, hi) };
        let mut g = None;
        match (o, g1, g2) {
            (FOp::Add | FOp::Sub, Some(x), Some(y)) => g = Some(x.min(y)),
            (FOp::Mul, Some(x), Some(y)) => g = Some(x + y),
            (FOp::Div, Some(x), _) => if let Some(c) = self.as_fc(b) { if c.abs().log2().fract() == 0.0 { g = Some(x - c.abs().log2() as i32); } },
            _ => {}
        }
        let fits = match g { Some(g) if g > -1000 => { let m = lo.abs().max(hi.abs()); g >= 900 || m <= 2f64.powi((53 + g).min(1000)) } _ => false };
        let exact = e1 && e2 && fits;
        if !fits { g = None; }
        if exact { self.ops_exact += 1 } else { self.ops_inexact += 1 }
        self.mk(n, Info::Fl { lo, hi, g, exact, shadow })
    }
    pub fn fun(&mut self, o: FUn, a: Tid) -> Tid {
        let Info::Fl { lo, hi, g, exact, shadow } = self.info[a as usize].clone() else { panic!("fun on non-float") };
        let ap = |x: f64| match o {
            FUn::Neg => -x, FUn::Abs => x.abs(), FUn::Sqrt => x.sqrt(), FUn::Floor => x.floor(), FUn::Ceil => x.ceil(), FUn::Trunc => x.trunc(),
            FUn::Round => x.round(), FUn::RoundEven => x.round_ties_even(), FUn::Exp => x.exp(), FUn::Ln => x.ln(), FUn::Expm1 => x.exp_m1(), FUn::Ln1p => x.ln_1p(),
        };
        let mut sh = None;
        if let Some(s) = shadow {
            let r = ap(s);
            let keep = matches!(o, FUn::Exp | FUn::Ln | FUn::Sqrt | FUn::Expm1 | FUn::Ln1p) || ((o == FUn::Neg || o == FUn::Abs) && self.as_fc(a).is_none());
            let special = (o == FUn::Exp && s == 0.0) || (o == FUn::Ln && s == 1.0) || (o == FUn::Sqrt && r * r == s && s.fract() == 0.0);
            if !keep || !r.is_finite() || self.fp_mode || special { return self.fc(r); }
            sh = Some(r);
        }
        match (o, self.n[a as usize].clone()) {
            (FUn::Neg, N::FUn(FUn::Neg, x)) => return x,
            (FUn::Neg, N::FBin(FOp::Sub, x, y)) if !self.fp_mode => return self.fbin(FOp::Sub, y, x),
            (FUn::Abs, N::FUn(FUn::Neg | FUn::Abs, x)) => return self.fun(FUn::Abs, x),
            (FUn::Abs, N::FBin(FOp::Sub, x, y)) if !self.fp_mode && x > y => { let r = self.fbin(FOp::Sub, y, x); return self.fun(FUn::Abs, r); }
            _ => {}
        }
        if o == FUn::Abs && !self.fp_mode {
            if lo >= 0.0 { return a; }
            if hi <= 0.0 { return self.fun(FUn::Neg, a); }
        }
        let rounding = matches!(o, FUn::Floor | FUn::Ceil | FUn::Trunc | FUn::Round | FUn::RoundEven);
        if rounding && matches!(g, Some(k) if k >= 0) { return a; }
        let inf = f64::INFINITY;
        let (l, h) = match o {
            FUn::Neg => (-hi, -lo),
            FUn::Abs => (0.0, lo.abs().max(hi.abs())),
            FUn::Exp => ((lo.exp() * (1.0 - 1e-12)).max(0.0), hi.exp() * (1.0 + 1e-12)),
            FUn::Ln => (if lo > 0.0 { lo.ln() - 1e-9 } else { -inf }, if hi > 0.0 { hi.ln() + 1e-9 } else { inf }),
            FUn::Sqrt => (if lo > 0.0 { dn(lo.sqrt()) } else { 0.0 }, up(hi.sqrt())),
            FUn::Expm1 => (lo.exp_m1() * (1.0 + 1e-12) - 1e-12, hi.exp_m1() * (1.0 + 1e-12) + 1e-12),
            FUn::Ln1p => (if lo > -1.0 { lo.ln_1p() - 1e-9 } else { -inf }, hi.ln_1p() + 1e-9),
            _ => (ap(lo), ap(hi)),
        };
        let (l, h) = if l.is_nan() || h.is_nan() { (-inf, inf) } else { (l, h) };
        let (l, h) = match sh { Some(s) => (s - s.abs() * 1e-12 - 1e-300, s + s.abs() * 1e-12 + 1e-300), None => (l, h) };
        let (g2, ex) = match o { FUn::Neg | FUn::Abs => (g, exact), _ if rounding => (Some(0), exact), _ => (None, false) };
        self.mk(N::FUn(o, a), Info::Fl { lo: l, hi: h, g: g2, exact: ex, shadow: sh })
    }
    pub fn si_to_fp(&mut self, a: Tid, signed: bool) -> Tid {
        if let Some(v) = self.as_bc(a) {
            let w = self.width(a);
            return self.fc(if signed { sx(v, w) as f64 } else { v as f64 });
        }
        if self.is_bool(a) { let (x, y) = (self.fc(if signed { -1.0 } else { 1.0 }), self.fc(0.0)); return self.ite(a, x, y); }
        let (lo, hi) = if signed { let s = self.sr(a); (s.0 as f64, s.1 as f64) } else { let s = self.ur(a); (s.0 as f64, s.1 as f64) };
        let exact = lo.abs().max(hi.abs()) <= 9007199254740992.0;
        let signed2 = signed && lo < 0.0;
        // look through extensions
        let mut x = a;
        loop {
            match self.n[x as usize] {
                N::ZExt(y, _) if !signed2 => x = y,
                N::SExt(y, _) if signed2 => x = y,
                _ => break,
            }
        }
        let n = if signed2 { N::SiToFp(x) } else { N::UiToFp(x) };
        self.mk(n, Info::Fl { lo, hi, g: Some(0), exact, shadow: None })
    }
    pub fn fp_to_i(&mut self, a: Tid, w: u32, signed: bool) -> Tid {
        if let Some(s) = self.shadow(a) {
            let v = if signed {
                if s.is_nan() { 0 } else { (s.trunc().max(smin(w) as f64).min(smax(w) as f64) as i128).min(smax(w)) as u128 }
            } else if s.is_nan() || s <= 0.0 { 0 } else { (s.trunc().min(umask(w) as f64) as u128).min(umask(w)) };
            return self.bc(v, w);
        }
        let (lo, hi) = self.frange(a);
        match self.n[a as usize].clone() {
            N::SiToFp(x) if signed && (self.width(x) <= w || (self.sr(x).0 >= smin(w) && self.sr(x).1 <= smax(w))) => { let wx = self.width(x); if wx <= w { return self.sext(x, w); } return self.extract(x, 0, w); }
            N::SiToFp(x) if !signed && self.sr(x).0 >= 0 && self.sr(x).1 as u128 <= umask(w) => { let wx = self.width(x); if wx <= w { return self.zext(x, w); } return self.extract(x, 0, w); }
            N::UiToFp(x) if self.ur(x).1 <= smax(w) as u128 => { let wx = self.width(x); if wx <= w { return self.zext(x, w); } return self.extract(x, 0, w); }
            _ => {}
        }
        if signed {
            let s = if lo.is_finite() && hi.is_finite() && lo >= smin(w) as f64 && hi <= smax(w) as f64 { Some((lo.trunc() as i128, hi.trunc() as i128)) } else { None };
            self.mk_bv(N::FpToSi(a, w), w, None, s)
        } else {
            let u = if hi.is_finite() && hi <= umask(w) as f64 && lo > -1.0 { Some((lo.max(0.0).trunc() as u128, hi.max(0.0).trunc() as u128)) } else { None };
            self.mk_bv(N::FpToUi(a, w), w, u, None)
        }
    }
    /// for an exactly computed term that is a multiple of 2^g: the bound c as a multiple of 2^g
    fn grid_of(&self, t: Tid) -> Option<f64> {
        match &self.info[t as usize] { Info::Fl { g: Some(g), exact: true, shadow: None, hi, .. } if *g > -60 && *g < 60 && hi.is_finite() => Some(2f64.powi(*g)), _ => None }
    }
    pub fn flt(&mut self, a: Tid, b: Tid) -> Tid {
        if let (Some(x), Some(y)) = (self.shadow(a), self.shadow(b)) { return self.bool(x < y); }
        if a == b { return F; }
        let (r1, r2) = (self.frange(a), self.frange(b));
        if r1.0.is_nan() || r2.0.is_nan() { return F; }
        if r1.1 < r2.0 { return T; }
        if r1.0 >= r2.1 { return F; }
        if !self.fp_mode {
            match (self.n[a as usize].clone(), self.n[b as usize].clone()) {
                (N::FUn(FUn::Abs, x), _) => { let nb = self.fun(FUn::Neg, b); let p = self.flt(x, b); let q = self.flt(nb, x); return self.and(p, q); }
                (_, N::FUn(FUn::Abs, x)) => { let na = self.fun(FUn::Neg, a); let p = self.flt(a, x); let q = self.flt(x, na); return self.or(p, q); }
                (N::FUn(FUn::Neg, x), N::FUn(FUn::Neg, y)) => return self.flt(y, x),
                (N::FUn(FUn::Neg, x), N::FC(c)) => { let c = self.fc(-f64::from_bits(c)); return self.flt(c, x); }
                (N::FC(c), N::FUn(FUn::Neg, x)) => { let c = self.fc(-f64::from_bits(c)); return self.flt(x, c); }
                (N::FBin(FOp::Sub, x, y), N::FC(0)) => return self.flt(x, y),
                (N::FC(0), N::FBin(FOp::Sub, x, y)) => return self.flt(y, x),
                _ => {}
            }
        }
        if !self.fp_mode {
            if let (Some(s), Some(c)) = (self.grid_of(a), self.shadow(b)) { let k = ((c / s).ceil() - 1.0) * s; if c.abs() < 1e14 * s { let k = self.fc(k); return self.fle(a, k); } }
            if let (Some(c), Some(s)) = (self.shadow(a), self.grid_of(b)) { let k = ((c / s).floor() + 1.0) * s; if c.abs() < 1e14 * s { let k = self.fc(k); return self.fle(k, b); } }
        }
        self.mk(N::FLt(a, b), Info::Bool)
    }
    pub fn fle(&mut self, a: Tid, b: Tid) -> Tid {
        if let (Some(x), Some(y)) = (self.shadow(a), self.shadow(b)) { return self.bool(x <= y); }
        let (r1, r2) = (self.frange(a), self.frange(b));
        if r1.0.is_nan() || r2.0.is_nan() { return F; }
        if a == b { return T; }
        if r1.1 <= r2.0 { return T; }
        if r1.0 > r2.1 { return F; }
        if !self.fp_mode {
            match (self.n[a as usize].clone(), self.n[b as usize].clone()) {
                (N::FUn(FUn::Abs, x), _) => { let nb = self.fun(FUn::Neg, b); let p = self.fle(x, b); let q = self.fle(nb, x); return self.and(p, q); }
                (_, N::FUn(FUn::Abs, x)) => { let na = self.fun(FUn::Neg, a); let p = self.fle(a, x); let q = self.fle(x, na); return self.or(p, q); }
                (N::FUn(FUn::Neg, x), N::FUn(FUn::Neg, y)) => return self.fle(y, x),
                (N::FUn(FUn::Neg, x), N::FC(c)) => { let c = self.fc(-f64::from_bits(c)); return self.fle(c, x); }
                (N::FC(c), N::FUn(FUn::Neg, x)) => { let c = self.fc(-f64::from_bits(c)); return self.fle(x, c); }
                (N::FBin(FOp::Sub, x, y), N::FC(0)) => return self.fle(x, y),
                (N::FC(0), N::FBin(FOp::Sub, x, y)) => return self.fle(y, x),
                _ => {}
            }
        }
        if !self.fp_mode {
            if let (Some(s), Some(c)) = (self.grid_of(a), self.shadow(b)) { let k = (c / s).floor() * s; if k != c && c.abs() < 1e14 * s { let k = self.fc(k); return self.fle(a, k); } }
            if let (Some(c), Some(s)) = (self.shadow(a), self.grid_of(b)) { let k = (c / s).ceil() * s; if k != c && c.abs() < 1e14 * s { let k = self.fc(k); return self.fle(k, b); } }
        }
        self.mk(N::FLe(a, b), Info::Bool)
    }
    pub fn feq(&mut self, a: Tid, b: Tid) -> Tid {
        if let (Some(x), Some(y)) = (self.shadow(a), self.shadow(b)) { return self.bool(x == y); }
        let (r1, r2) = (self.frange(a), self.frange(b));
        if r1.0.is_nan() || r2.0.is_nan() { return F; }
        if a == b { return T; }
        if r1.1 < r2.0 || r2.1 < r1.0 { return F; }
        if !self.fp_mode {
            if let (N::SiToFp(x), N::SiToFp(y)) = (self.n[a as usize].clone(), self.n[b as usize].clone()) { if self.width(x) == self.width(y) { return self.eq(x, y); } }
            if let (N::UiToFp(x), N::UiToFp(y)) = (self.n[a as usize].clone(), self.n[b as usize].clone()) { if self.width(x) == self.width(y) { return self.eq(x, y); } }
        }
        self.mk(N::FEq(a.min(b), a.max(b)), Info::Bool)
    }
    pub fn kids(&self, t: Tid, f: &mut dyn FnMut(Tid)) {
        match &self.n[t as usize] {
            N::True | N::False | N::BC(..) | N::BVar(..) | N::FC(_) | N::FVar(_) => {}
            N::Not(a) | N::ZExt(a, _) | N::SExt(a, _) | N::Extract(a, _, _) | N::Table(a, _, _) | N::FToBits(a) | N::FpToSi(a, _) | N::FpToUi(a, _)
            | N::FUn(_, a) | N::SiToFp(a) | N::UiToFp(a) | N::FOfBits(a) => f(*a),
            N::And(a, b) | N::Or(a, b) | N::BoolEq(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::FEq(a, b)
            | N::FLt(a, b) | N::FLe(a, b) | N::Bin(_, a, b) | N::Concat(a, b) | N::FBin(_, a, b) => { f(*a); f(*b) }
            N::Ite(c, a, b) => { f(*c); f(*a); f(*b) }
        }
    }
}
