//! Generalised Laurent polynomials over "atoms" (inputs, named bases, powers, exponentials, logarithms, ...), used to put
//! real-valued terms into a canonical form before they are handed to the SMT solver.
use crate::term::*;
use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Rat = BigRational;
pub type Q = Ratio<i64>;
pub type Aid = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Mono(pub Vec<(Aid, Q)>);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly(pub BTreeMap<Mono, Rat>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PBase { Atom(Aid), Const(Rat) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    Var(Tid),
    Base(Poly),
    Pow(PBase, Mono, Rat), // base ^ (rat * mono)
    Exp(Mono, Rat),        // e ^ (rat * mono)
    Ln(PBase),
    Ite(Tid),
    I2F(Tid),
    Rnd(FUn, Poly, Tid),
    Abs(Poly),
    Err(Tid),
}

pub fn q(n: i64) -> Q { Q::from_integer(n) }
pub fn rat(n: i64) -> Rat { Rat::from_integer(BigInt::from(n)) }
pub fn rat_f64(c: f64) -> Rat { Rat::from_float(c).expect("finite") }

impl Mono {
    pub fn one() -> Mono { Mono(vec![]) }
    pub fn atom(a: Aid) -> Mono { Mono(vec![(a, q(1))]) }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut v = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() || j < o.0.len() {
            if j >= o.0.len() || (i < self.0.len() && self.0[i].0 < o.0[j].0) { v.push(self.0[i]); i += 1; }
            else if i >= self.0.len() || o.0[j].0 < self.0[i].0 { v.push(o.0[j]); j += 1; }
            else {
                let e = self.0[i].1 + o.0[j].1;
                if !e.is_zero() { v.push((self.0[i].0, e)); }
                i += 1; j += 1;
            }
        }
        Mono(v)
    }
    pub fn pow(&self, e: Q) -> Mono {
        if e.is_zero() { return Mono::one(); }
        Mono(self.0.iter().map(|(a, x)| (*a, x * e)).collect())
    }
    pub fn exp_of(&self, a: Aid) -> Q { self.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(q(0)) }
    pub fn without(&self, a: Aid) -> Mono { Mono(self.0.iter().filter(|x| x.0 != a).cloned().collect()) }
}
impl Poly {
    pub fn zero() -> Poly { Poly(BTreeMap::new()) }
    pub fn cst(c: Rat) -> Poly { let mut m = BTreeMap::new(); if !c.is_zero() { m.insert(Mono::one(), c); } Poly(m) }
    pub fn mono(m: Mono, c: Rat) -> Poly { let mut b = BTreeMap::new(); if !c.is_zero() { b.insert(m, c); } Poly(b) }
    pub fn atom(a: Aid) -> Poly { Poly::mono(Mono::atom(a), Rat::one()) }
    pub fn add_to(&mut self, m: Mono, c: Rat) {
        if c.is_zero() { return; }
        match self.0.entry(m) {
            std::collections::btree_map::Entry::Vacant(v) => { v.insert(c); }
            std::collections::btree_map::Entry::Occupied(mut o) => {
                *o.get_mut() += c;
                if o.get().is_zero() { o.remove(); }
            }
        }
    }
    pub fn add(&self, o: &Poly, k: &Rat) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 { r.add_to(m.clone(), c * k); }
        r
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in &self.0 { for (n, d) in &o.0 { r.add_to(m.mul(n), c * d); } }
        r
    }
    pub fn scale(&self, m: &Mono, k: &Rat) -> Poly { 
        let mut r = Poly::zero();
        for (n, c) in &self.0 { r.add_to(n.mul(m), c * k); }
        r
    }
    pub fn as_const(&self) -> Option<Rat> {
        if self.0.is_empty() { return Some(Rat::zero()); }
        if self.0.len() == 1 { let (m, c) = self.0.iter().next().unwrap(); if m.0.is_empty() { return Some(c.clone()); } }
        None
    }
    pub fn as_mono(&self) -> Option<(Mono, Rat)> {
        if self.0.len() == 1 { let (m, c) = self.0.iter().next().unwrap(); Some((m.clone(), c.clone())) } else { None }
    }
    pub fn powu(&self, n: u32) -> Poly {
        let mut r = Poly::cst(Rat::one());
        for _ in 0..n { r = r.mul(self); }
        r
    }
    pub fn atoms(&self) -> Vec<Aid> {
        let mut v: Vec<Aid> = self.0.keys().flat_map(|m| m.0.iter().map(|x| x.0)).collect();
        v.sort(); v.dedup(); v
    }
    pub fn has(&self, a: Aid) -> bool { self.0.keys().any(|m| m.0.iter().any(|x| x.0 == a)) }
}

#[derive(Clone, Debug)]
pub struct AInfo { pub pos: bool, pub elim: Option<Aid>, /* for a Var: polynomial replacing it */ pub subst: Option<Rc<Poly>>, pub lo: f64, pub hi: f64 }

pub struct Polys {
    pub atoms: Vec<Atom>,
    pub ainfo: Vec<AInfo>,
    map: HashMap<Atom, Aid>,
    memo: HashMap<Tid, Rc<Poly>>,
    pub round_mode: bool,
    pub snapped: u64,
    pub max_terms: usize,
    pins: HashMap<Tid, f64>,
}
pub type R<X> = Result<X, String>;

fn simple_q(c: &Rat) -> Option<Q> {
    let d = c.denom().to_i64()?;
    let n = c.numer().to_i64()?;
    if d <= 4096 && n.abs() <= 1 << 20 { Some(Q::new(n, d)) } else { None }
}
/// nearest small rational when within 1e-13 relative
fn snap_q(c: &Rat) -> Option<Q> {
    if let Some(x) = simple_q(c) { return Some(x); }
    let f = c.to_f64()?;
    for d in 1..=1000i64 {
        let n = (f * d as f64).round();
        if n.abs() < 1e9 && n != 0.0 && ((n / d as f64) - f).abs() <= 4e-16 * f.abs() { return Some(Q::new(n as i64, d)); }
    }
    None
}
pub fn qr(x: Q) -> Rat { Rat::new(BigInt::from(*x.numer()), BigInt::from(*x.denom())) }

impl Polys {
    pub fn new() -> Polys {
        Polys { atoms: vec![], ainfo: vec![], map: HashMap::new(), memo: HashMap::new(), round_mode: false, snapped: 0, max_terms: 6000, pins: HashMap::new() }
    }
    pub fn pin(&mut self, t: Tid, c: f64) { self.pins.insert(t, c); }
    pub fn atom(&mut self, a: Atom, lo: f64, hi: f64, pos: bool) -> Aid {
        if let Some(i) = self.map.get(&a) {
            if pos { self.ainfo[*i as usize].pos = true; }
            return *i;
        }
        let i = self.atoms.len() as Aid;
        self.map.insert(a.clone(), i);
        self.atoms.push(a.clone());
        self.ainfo.push(AInfo { pos: pos || lo > 0.0, elim: None, subst: None, lo, hi });
        if let Atom::Base(p) = &a { self.try_elim(i, p); }
        i
    }
    fn try_elim(&mut self, b: Aid, p: &Poly) {
        let Ok(p) = self.substitute(p) else { return };
        let mut best: Option<((usize, Aid), Aid, Mono, Rat)> = None;
        for v in p.atoms() {
            if !matches!(self.atoms[v as usize], Atom::Var(_)) || self.ainfo[v as usize].subst.is_some() { continue; }
            let occ: Vec<_> = p.0.iter().filter(|(m, _)| !m.exp_of(v).is_zero()).collect();
            if occ.len() != 1 || occ[0].0.exp_of(v) != q(1) { continue; }
            let co = occ[0].0.without(v);
            if !co.0.iter().all(|(a, e)| e.is_integer() && matches!(self.atoms[*a as usize], Atom::Var(_)) && { let i = &self.ainfo[*a as usize]; i.pos || i.lo > 0.0 || i.hi < 0.0 }) { continue; }
            let score = (co.0.len(), v);
            if best.as_ref().map(|(s, ..)| score < *s).unwrap_or(true) { best = Some((score, v, occ[0].0.clone(), occ[0].1.clone())); }
        }
        if let Some((_, v, m, c)) = best {
            let mut rest = p.clone();
            rest.0.remove(&m);
            let num = Poly::atom(b).add(&rest, &rat(-1));
            let sub = num.scale(&m.without(v).pow(q(-1)), &(Rat::one() / c));
            self.ainfo[v as usize].subst = Some(Rc::new(sub));
            self.ainfo[b as usize].elim = Some(v);
        }
    }
    /// replace eliminated variables occurring with non-negative integer exponents
    fn substitute(&self, p: &Poly) -> R<Poly> {
        let mut cur = p.clone();
        for _ in 0..64 {
            let mut todo = None;
            for v in cur.atoms() {
                if self.ainfo[v as usize].subst.is_some() && cur.0.keys().all(|m| { let e = m.exp_of(v); e.is_integer() && !e.is_negative() }) { todo = Some(v); break; }
            }
            let Some(v) = todo else { return Ok(cur) };
            let s = self.ainfo[v as usize].subst.clone().unwrap();
            cur = self.subst1(&cur, v, &s)?;
        }
        Ok(cur)
    }
    fn subst1(&self, p: &Poly, v: Aid, s: &Poly) -> R<Poly> {
        let mut pows: Vec<Poly> = vec![Poly::cst(Rat::one())];
        let mut r = Poly::zero();
        for (m, c) in &p.0 {
            let e = m.exp_of(v);
            if e.is_zero() { r.add_to(m.clone(), c.clone()); continue; }
            let e = e.to_integer() as usize;
            if e > 200 { return Err("degree".into()); }
            while pows.len() <= e { let n = pows.last().unwrap().mul(s); if n.0.len() > self.max_terms { return Err("poly too large".into()); } pows.push(n); }
            let w = m.without(v);
            for (m2, c2) in &pows[e].0 { r.add_to(w.mul(m2), c * c2); }
            if r.0.len() > self.max_terms { return Err("poly too large".into()); }
        }
        Ok(r)
    }
    pub fn sign(&self, a: Aid) -> Option<bool> {
        let i = &self.ainfo[a as usize];
        if i.pos { return Some(true); }
        match &self.atoms[a as usize] { Atom::Pow(..) | Atom::Exp(..) => return Some(true), _ => {} }
        if i.lo > 0.0 { Some(true) } else if i.hi < 0.0 { Some(false) } else { None }
    }
    pub fn ival(&self, p: &Poly) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0, 0.0);
        for (m, c) in &p.0 {
            let c = c.to_f64().unwrap_or(f64::INFINITY);
            let (mut l, mut h) = (c, c);
            for (a, e) in &m.0 {
                let i = &self.ainfo[*a as usize];
                let (al, ah) = if i.pos { (i.lo.max(0.0), i.hi) } else { (i.lo, i.hi) };
                let ef = e.to_f64().unwrap();
                let (pl, ph) = if al >= 0.0 {
                    let (x, y) = (al.powf(ef), ah.powf(ef));
                    (x.min(y), x.max(y))
                } else if e.is_integer() && *e.numer() > 0 {
                    let (x, y) = (al.powf(ef), ah.powf(ef));
                    if e.numer() % 2 == 0 { (0.0, x.max(y)) } else { (x, y) }
                } else { (f64::NEG_INFINITY, f64::INFINITY) };
                let pr = |x: f64, y: f64| { let r = x * y; if r.is_nan() { 0.0 } else { r } };
                let cs = [pr(l, pl), pr(l, ph), pr(h, pl), pr(h, ph)];
                l = cs.iter().cloned().fold(f64::INFINITY, f64::min);
                h = cs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            }
            lo += l;
            hi += h;
        }
        let s = 1e-9;
        if lo.is_nan() { lo = f64::NEG_INFINITY }
        if hi.is_nan() { hi = f64::INFINITY }
        (lo - s * lo.abs() - 1e-300, hi + s * hi.abs() + 1e-300)
    }
    fn base_atom(&mut self, p: &Poly, pos: bool) -> Aid {
        let (lo, hi) = self.ival(p);
        self.atom(Atom::Base(p.clone()), lo, hi, pos)
    }
    /// p as (coefficient, atom) with the polynomial scaled to leading coefficient one
    fn norm_base(&mut self, p: &Poly, pos: bool) -> (Rat, Aid) {
        let c = p.0.iter().next().unwrap().1.clone();
        let c = if pos { c.abs() } else { c };
        let n = p.scale(&Mono::one(), &(Rat::one() / &c));
        let a = self.base_atom(&n, pos);
        (c, a)
    }
    pub fn inv(&mut self, p: &Poly) -> R<Poly> {
        if let Some((m, c)) = p.as_mono() { return Ok(Poly::mono(m.pow(q(-1)), Rat::one() / c)); }
        if p.0.is_empty() { return Err("division by zero polynomial".into()); }
        let (c, a) = self.norm_base(p, false);
        Ok(Poly::mono(Mono(vec![(a, q(-1))]), Rat::one() / c))
    }
    fn rat_pow(c: &Rat, n: i64) -> R<Rat> {
        if n.abs() > 5000 { return Err("power too large".into()); }
        let b = if n < 0 { if c.is_zero() { return Err("0^-n".into()); } Rat::one() / c } else { c.clone() };
        let r = num_traits::pow(b, n.unsigned_abs() as usize);
        Ok(r)
    }
    fn pow_const_base(&mut self, c: &Rat, e: &Poly) -> R<Poly> {
        // c^e for rational c > 0
        if c.is_one() { return Ok(Poly::cst(Rat::one())); }
        let mut r = Poly::cst(Rat::one());
        for (m, k) in &e.0 {
            if m.0.is_empty() && k.is_integer() && k.to_i64().map(|x| x.abs() < 2000).unwrap_or(false) {
                r = r.scale(&Mono::one(), &Self::rat_pow(c, k.to_i64().unwrap())?);
                continue;
            }
            let (a, ex) = self.pow_atom(PBase::Const(c.clone()), m, k);
            r = r.scale(&Mono(vec![(a, ex)]), &Rat::one());
        }
        Ok(r)
    }
    fn pow_atom(&mut self, b: PBase, m: &Mono, k: &Rat) -> (Aid, Q) {
        // constant exponents of constants keep their integer part outside
        let (lo, hi) = (0.0, f64::INFINITY);
        match snap_q(k) {
            Some(x) => {
                if simple_q(k).is_none() { self.snapped += 1; }
                if m.0.is_empty() {
                    // c^(n/d) -> atom c^(1/d)
                    let d = *x.denom();
                    let a = self.atom(Atom::Pow(b, Mono::one(), Rat::new(BigInt::one(), BigInt::from(d))), lo, hi, true);
                    (a, q(*x.numer()))
                } else {
                    let a = self.atom(Atom::Pow(b, m.clone(), Rat::one()), lo, hi, true);
                    (a, x)
                }
            }
            None => (self.atom(Atom::Pow(b, m.clone(), k.clone()), lo, hi, true), q(1)),
        }
    }
    /// a^e for a positive atom a
    fn atom_pow(&mut self, a: Aid, e: &Poly) -> R<Poly> {
        let mut r = Poly::cst(Rat::one());
        match self.atoms[a as usize].clone() {
            Atom::Exp(m, k) => return { let p = Poly::mono(m, k).mul(e); self.exp(&p) },
            Atom::Pow(b, m, k) => {
                let p = Poly::mono(m, k).mul(e);
                return match b { PBase::Atom(x) => self.atom_pow(x, &p), PBase::Const(c) => self.pow_const_base(&c, &p) };
            }
            _ => {}
        }
        for (m, k) in &e.0 {
            if m.0.is_empty() {
                if let Some(x) = snap_q(k) {
                    if simple_q(k).is_none() { self.snapped += 1; }
                    r = r.scale(&Mono(vec![(a, x)]), &Rat::one());
                    continue;
                }
            }
            // a^(k * m), m containing Ln(a') handled as exp
            let (p, ex) = self.pow_atom(PBase::Atom(a), m, k);
            r = r.scale(&Mono(vec![(p, ex)]), &Rat::one());
        }
        Ok(r)
    }
    /// integer constant power, no sign requirement (the interpreter guards zero for negative exponents)
    pub fn powi(&mut self, p: &Poly, n: i64) -> R<Poly> {
        if n == 0 { return Ok(Poly::cst(Rat::one())); }
        if n == 1 { return Ok(p.clone()); }
        if let Some(c) = p.as_const() { return Ok(Poly::cst(Self::rat_pow(&c, n)?)); }
        if let Some((m, c)) = p.as_mono() { return Ok(Poly::mono(m.pow(q(n)), Self::rat_pow(&c, n)?)); }
        let (c, a) = self.norm_base(p, false);
        Ok(Poly::mono(Mono(vec![(a, q(n))]), Self::rat_pow(&c, n)?))
    }
    pub fn pow(&mut self, b: &Poly, e: &Poly) -> R<Poly> {
        if let Some(k) = e.as_const() {
            if k.is_integer() { if let Some(n) = k.to_i64() { return self.powi(b, n); } }
        }
        if let Some(c) = b.as_const() {
            if !c.is_positive() { return Err("power of a non-positive constant".into()); }
            return self.pow_const_base(&c, e);
        }
        if let Some((m, c)) = b.as_mono() {
            if c.is_positive() && m.0.iter().all(|(a, x)| self.sign(*a) == Some(true) || (m.0.len() == 1 && x.is_integer() && x.numer() % 2 != 0)) {
                let mut r = self.pow_const_base(&c, e)?;
                for (a, x) in &m.0 {
                    self.ainfo[*a as usize].pos = true;
                    let e2 = e.scale(&Mono::one(), &qr(*x));
                    let p = self.atom_pow(*a, &e2)?;
                    r = r.mul(&p);
                }
                return Ok(r);
            }
        }
        let (c, a) = self.norm_base(b, true);
        let r = self.pow_const_base(&c, e)?;
        let p = self.atom_pow(a, e)?;
        Ok(r.mul(&p))
    }
    pub fn exp(&mut self, p: &Poly) -> R<Poly> {
        let mut r = Poly::cst(Rat::one());
        for (m, k) in &p.0 {
            // exp(k * x * ln(b)) = b^(k x)
            if let Some((la, _)) = m.0.iter().find(|(a, e)| *e == q(1) && matches!(self.atoms[*a as usize], Atom::Ln(_))) {
                let Atom::Ln(b) = self.atoms[*la as usize].clone() else { unreachable!() };
                let e = Poly::mono(m.without(*la), k.clone());
                let f = match b { PBase::Atom(x) => self.atom_pow(x, &e)?, PBase::Const(c) => self.pow_const_base(&c, &e)? };
                r = r.mul(&f);
                continue;
            }
            match if m.0.is_empty() { None } else { snap_q(k) } {
                Some(x) => {
                    let a = self.atom(Atom::Exp(m.clone(), Rat::one()), 0.0, f64::INFINITY, true);
                    r = r.scale(&Mono(vec![(a, x)]), &Rat::one());
                }
                None => {
                    let a = self.atom(Atom::Exp(m.clone(), k.clone()), 0.0, f64::INFINITY, true);
                    r = r.scale(&Mono(vec![(a, q(1))]), &Rat::one());
                }
            }
        }
        Ok(r)
    }
    fn ln_base(&mut self, b: PBase) -> Poly {
        match &b {
            PBase::Const(c) if c.is_one() => return Poly::zero(),
            PBase::Atom(a) => match self.atoms[*a as usize].clone() {
                Atom::Exp(m, k) => return Poly::mono(m, k),
                Atom::Pow(b2, m, k) => { let l = self.ln_base(b2); return l.scale(&m, &k); }
                _ => self.ainfo[*a as usize].pos = true,
            },
            _ => {}
        }
        let a = self.atom(Atom::Ln(b), f64::NEG_INFINITY, f64::INFINITY, false);
        Poly::atom(a)
    }
    pub fn ln(&mut self, p: &Poly) -> R<Poly> {
        if let Some(c) = p.as_const() { if !c.is_positive() { return Err("ln of non-positive".into()); } return Ok(self.ln_base(PBase::Const(c))); }
        if let Some((m, c)) = p.as_mono() {
            if c.is_positive() && (m.0.iter().all(|(a, _)| self.sign(*a) == Some(true)) || (m.0.len() == 1 && m.0[0].1.is_integer() && m.0[0].1.numer() % 2 != 0)) {
                let mut r = self.ln_base(PBase::Const(c));
                for (a, x) in &m.0 { let l = self.ln_base(PBase::Atom(*a)); r = r.add(&l, &qr(*x)); }
                return Ok(r);
            }
        }
        let (c, a) = self.norm_base(p, true);
        let r = self.ln_base(PBase::Const(c));
        let l = self.ln_base(PBase::Atom(a));
        Ok(r.add(&l, &Rat::one()))
    }
    fn i2f(&mut self, ar: &Arena, t: Tid, signed: bool) -> Poly {
        // push the conversion through additions, subtractions and constant multiples that provably do not wrap
        let w = ar.width(t);
        if let Some(c) = ar.as_bc(t) { return Poly::cst(Rat::from_integer(if signed { BigInt::from(sx(c, w)) } else { BigInt::from(c) })); }
        let val = |x: Tid| -> (i128, i128) { if signed { ar.sr(x) } else { let u = ar.ur(x); (u.0.min(i128::MAX as u128) as i128, u.1.min(i128::MAX as u128) as i128) } };
        let fits = |lo: i128, hi: i128| if signed { lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1)) } else { lo >= 0 && (w >= 127 || hi < (1i128 << w)) };
        if w <= 64 {
            match ar.n[t as usize].clone() {
                N::ZExt(x, _) => return self.i2f(ar, x, false),
                N::SExt(x, _) => return self.i2f(ar, x, true),
                N::Bin(B::Add, x, y) => {
                    // constants on the right may be negative two's complement
                    let ((a, b), (c, d)) = (val(x), val(y));
                    if fits(a + c, b + d) { let p = self.i2f(ar, x, signed); let r = self.i2f(ar, y, signed); return p.add(&r, &rat(1)); }
                    if let (false, Some(k)) = (signed, ar.as_bc(y)) {
                        let k = sx(k, w);
                        if fits(a + k, b + k) { let p = self.i2f(ar, x, false); return p.add(&Poly::cst(Rat::from_integer(BigInt::from(k))), &rat(1)); }
                    }
                }
                N::Bin(B::Sub, x, y) => {
                    let ((a, b), (c, d)) = (val(x), val(y));
                    if fits(a - d, b - c) { let p = self.i2f(ar, x, signed); let r = self.i2f(ar, y, signed); return p.add(&r, &rat(-1)); }
                }
                N::Bin(B::Mul, x, y) => {
                    if let Some(k) = ar.as_bc(y) {
                        let (a, b) = val(x);
                        let k = if signed { sx(k, w) } else { k as i128 };
                        if let (Some(p), Some(r)) = (a.checked_mul(k), b.checked_mul(k)) {
                            if fits(p.min(r), p.max(r)) { let p = self.i2f(ar, x, signed); return p.scale(&Mono::one(), &Rat::from_integer(BigInt::from(k))); }
                        }
                    }
                }
                _ => {}
            }
        }
        let signed = signed && ar.sr(t).0 < 0;
        let (lo, hi) = if signed { let s = ar.sr(t); (s.0 as f64, s.1 as f64) } else { let s = ar.ur(t); (s.0 as f64, s.1 as f64) };
        let a = self.atom(Atom::I2F(t), lo, hi, false);
        Poly::atom(a)
    }
    pub fn poly(&mut self, ar: &Arena, t: Tid) -> R<Rc<Poly>> {
        if let Some(p) = self.memo.get(&t) { return Ok(p.clone()); }
        let p = self.poly0(ar, t)?;
        if p.0.len() > self.max_terms { return Err("poly too large".into()); }
        let p = Rc::new(p);
        self.memo.insert(t, p.clone());
        Ok(p)
    }
    fn with_err(&mut self, ar: &Arena, t: Tid, p: Poly) -> R<Poly> {
        if !self.round_mode || ar.fexact(t) { return Ok(p); }
        let (lo, hi) = ar.frange(t);
        let m = lo.abs().max(hi.abs());
        if !m.is_finite() { return Err("rounding error of an unbounded value".into()); }
        let a = self.atom(Atom::Err(t), -1.0, 1.0, false);
        let mut p = p;
        p.add_to(Mono::atom(a), rat_f64(m * 2f64.powi(-53) + 1e-300));
        Ok(p)
    }
    fn poly0(&mut self, ar: &Arena, t: Tid) -> R<Poly> {
        let (lo, hi) = ar.frange(t);
        Ok(match ar.n[t as usize].clone() {
            N::FC(b) => { let c = f64::from_bits(b); if !c.is_finite() { return Err("non-finite constant".into()); } Poly::cst(rat_f64(c)) }
            N::FVar(_) if self.pins.contains_key(&t) => Poly::cst(rat_f64(self.pins[&t])),
            N::FVar(_) => { let a = self.atom(Atom::Var(t), lo, hi, false); Poly::atom(a) }
            N::FBin(o, a, b) => {
                let pa = self.poly(ar, a)?;
                let pb = self.poly(ar, b)?;
                let r = match o {
                    FOp::Add => pa.add(&pb, &rat(1)),
                    FOp::Sub => pa.add(&pb, &rat(-1)),
                    FOp::Mul => { if pa.0.len() * pb.0.len() > 40000 { return Err("poly too large".into()); } pa.mul(&pb) }
                    FOp::Div => {
                        if *pa == *pb { Poly::cst(Rat::one()) } else {
                            let i = self.inv(&pb)?;
                            pa.mul(&i)
                        }
                    }
                    FOp::Pow => self.pow(&pa, &pb)?,
                    FOp::Rem => return Err("float remainder".into()),
                };
                if o == FOp::Mul && (is_pow2(ar, a) || is_pow2(ar, b)) || o == FOp::Div && is_pow2(ar, b) { r } else { self.with_err(ar, t, r)? }
            }
            N::FUn(o, a) => {
                let pa = self.poly(ar, a)?;
                match o {
                    FUn::Neg => pa.scale(&Mono::one(), &rat(-1)),
                    FUn::Abs => { let x = self.atom(Atom::Abs((*pa).clone()), lo, hi, false); Poly::atom(x) }
                    FUn::Sqrt => { let r = self.pow(&pa, &Poly::cst(Rat::new(1.into(), 2.into())))?; self.with_err(ar, t, r)? }
                    FUn::Exp => { let r = self.exp(&pa)?; self.with_err(ar, t, r)? }
                    FUn::Expm1 => { let r = self.exp(&pa)?; r.add(&Poly::cst(rat(1)), &rat(-1)) }
                    FUn::Ln => { let r = self.ln(&pa)?; self.with_err(ar, t, r)? }
                    FUn::Ln1p => { let x = pa.add(&Poly::cst(rat(1)), &rat(1)); self.ln(&x)? }
                    _ => { let x = self.atom(Atom::Rnd(o, (*pa).clone(), t), lo, hi, false); Poly::atom(x) }
                }
            }
            N::SiToFp(x) => self.i2f(ar, x, true),
            N::UiToFp(x) => self.i2f(ar, x, false),
            N::Ite(..) => { let x = self.atom(Atom::Ite(t), lo, hi, false); Poly::atom(x) }
            x => return Err(format!("no real meaning for {:?}", x)),
        })
    }
    /// p (rel) 0 in final form: denominators cleared, eliminated variables and named bases expanded. Returns (poly, negated?)
    pub fn finalize(&self, p: &Poly) -> R<(Poly, bool)> {
        let mut cur = p.clone();
        let mut neg = false;
        for _ in 0..60 {
            let mut changed = false;
            // clear denominators
            let mut mul = Mono::one();
            for a in cur.atoms() {
                let mn = cur.0.keys().map(|m| m.exp_of(a)).min().unwrap();
                let mx = cur.0.keys().map(|m| m.exp_of(a)).max().unwrap();
                if mn.is_negative() || (mn.is_positive() && self.sign(a) == Some(true)) {
                    let mut k = -mn;
                    match self.sign(a) {
                        Some(true) => {}
                        Some(false) => if k.to_integer() % 2 != 0 { neg = !neg; },
                        None => if k.to_integer() % 2 != 0 { k += q(1); },
                    }
                    let _ = mx;
                    mul = mul.mul(&Mono(vec![(a, k)]));
                }
            }
            if !mul.0.is_empty() { cur = cur.scale(&mul, &Rat::one()); changed = true; }
            let before = cur.clone();
            cur = self.substitute(&cur)?;
            if cur != before { changed = true; }
            for a in cur.atoms() {
                if let Atom::Base(d) = &self.atoms[a as usize] {
                    if self.ainfo[a as usize].elim.is_none() && cur.0.keys().all(|m| { let e = m.exp_of(a); e.is_integer() && !e.is_negative() }) {
                        cur = self.subst1(&cur, a, d)?;
                        changed = true;
                        break;
                    }
                }
            }
            if !changed { break; }
            if cur.0.len() > self.max_terms { return Err("poly too large".into()); }
        }
        Ok((cur, neg))
    }
}
fn is_pow2(ar: &Arena, t: Tid) -> bool { match ar.as_fc(t) { Some(c) => c != 0.0 && c.abs().log2().fract() == 0.0, None => false } }
