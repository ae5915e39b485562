//! Lowering of boolean terms to SMT-LIB2, and the solver processes.
use crate::poly::*;
use crate::term::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::Ratio;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub struct Query {
    pub text: String,          // declarations, definitions, assertions
    pub vars: Vec<(u32, String)>, // input id -> symbol
    pub nonlinear: bool,
    pub has_real: bool,
    pub has_bv: bool,
    pub exact: bool,
    /// some part was replaced by an unconstrained value
    pub opaque: bool,
}

pub struct Lower<'a> {
    ar: &'a Arena,
    ps: &'a mut Polys,
    order: Vec<Tid>,             // bool / bv nodes in dependency order
    seen: HashMap<Tid, ()>,
    cmps: HashMap<Tid, (Poly, bool)>,
    atoms: BTreeSet<Aid>,
    aorder: Vec<Aid>,
    polys: Vec<Poly>,            // every polynomial that will be printed
    defs: HashMap<Aid, Poly>,    // atom -> polynomial that must be 0 (definition, denominators cleared)
    /// the symbol of an atom stands for this power of the atom
    unit: HashMap<Aid, Q>,
    /// powers of an atom that have their own symbol
    psym: BTreeMap<(Aid, Q), ()>,
    pinv: BTreeSet<(Aid, Q)>,
    fpi: BTreeMap<Tid, Poly>,    // FpToSi nodes: argument polynomial
    inv: BTreeSet<Aid>,
    nonlinear: bool,
    has_real: bool,
    has_bv: bool,
    /// bit-vectors as mathematical integers where no wrap-around is possible, otherwise as unconstrained
    /// integers within their ranges (sound for unsat only)
    pub relax: bool,
    opaque: bool,
}

fn num(c: &Rat) -> String {
    let s = |n: &BigInt| format!("{}.0", n.abs());
    let b = if c.denom().is_one() { s(c.numer()) } else { format!("(/ {} {})", s(c.numer()), s(c.denom())) };
    if c.is_negative() { format!("(- {b})") } else { b }
}
fn inum(v: i128) -> String { if v < 0 { format!("(- {})", v.unsigned_abs()) } else { v.to_string() } }
pub fn fnum(x: f64) -> String { num(&rat_f64(x)) }

impl<'a> Lower<'a> {
    pub fn new(ar: &'a Arena, ps: &'a mut Polys) -> Lower<'a> {
        Lower { ar, ps, order: vec![], seen: HashMap::new(), cmps: HashMap::new(), atoms: BTreeSet::new(), aorder: vec![], polys: vec![], defs: HashMap::new(), unit: HashMap::new(), psym: BTreeMap::new(), pinv: BTreeSet::new(), fpi: BTreeMap::new(), inv: BTreeSet::new(), nonlinear: false, has_real: false, has_bv: false, relax: false, opaque: false }
    }
    fn visit(&mut self, t: Tid) -> R<()> {
        if self.seen.contains_key(&t) { return Ok(()); }
        self.seen.insert(t, ());
        let n = self.ar.n[t as usize].clone();
        match n {
            N::FEq(a, b) | N::FLt(a, b) | N::FLe(a, b) => {
                self.has_real = true;
                let pa = self.ps.poly(self.ar, a)?;
                let pb = self.ps.poly(self.ar, b)?;
                let d = pa.add(&pb, &rat(-1));
                let (p, neg) = match self.ps.finalize(&d) { Ok(x) => x, Err(_) => (d, false) };
                self.use_poly(&p)?;
                self.cmps.insert(t, (p, neg));
            }
            N::FpToSi(a, _) | N::FpToUi(a, _) => {
                self.has_real = true;
                self.has_bv = true;
                let (lo, hi) = self.ar.frange(a);
                let w = self.ar.width(t);
                if !(lo > -9e15 && hi < 9e15) || (w < 60 && (lo <= -(2f64.powi(w as i32 - 1)) || hi >= 2f64.powi(w as i32 - 1))) { return Err("float to integer conversion of unbounded value".into()); }
                let p = (*self.ps.poly(self.ar, a)?).clone();
                self.use_poly(&p)?;
                self.fpi.insert(t, p);
            }
            N::FToBits(_) => return Err("bits of a symbolic float".into()),
            _ => {
                match n { N::BVar(..) => self.has_bv = true, _ => {} }
                let mut ks = vec![];
                self.ar.kids(t, &mut |k| ks.push(k));
                for k in ks { if self.ar.is_fl(k) { return Err(format!("float operand in {:?}", self.ar.n[t as usize])); } self.visit(k)?; }
            }
        }
        self.order.push(t);
        Ok(())
    }
    fn use_poly(&mut self, p: &Poly) -> R<()> {
        self.polys.push(p.clone());
        for a in p.atoms() { self.use_atom(a)?; }
        Ok(())
    }
    fn use_def(&mut self, a: Aid, d: &Poly) -> R<()> {
        // a = d  ->  (a - d) * denominators = 0
        let mut e = Poly::atom(a).add(d, &rat(-1));
        let mut mul = Mono::one();
        for x in e.atoms() {
            let mn = e.0.keys().map(|m| m.exp_of(x)).min().unwrap();
            if mn.is_negative() { mul = mul.mul(&Mono(vec![(x, -mn)])); }
        }
        if !mul.0.is_empty() { e = e.scale(&mul, &Rat::one()); }
        self.use_poly(&e)?;
        self.defs.insert(a, e);
        Ok(())
    }
    fn use_atom(&mut self, a: Aid) -> R<()> {
        if !self.atoms.insert(a) { return Ok(()); }
        match self.ps.atoms[a as usize].clone() {
            Atom::Var(_) | Atom::Err(_) => {}
            Atom::Base(d) => self.use_def(a, &d)?,
            Atom::Pow(b, m, _) => {
                if let PBase::Atom(x) = b { self.use_atom(x)?; }
                self.use_poly(&Poly::mono(m, rat(1)))?;
            }
            Atom::Exp(m, _) => self.use_poly(&Poly::mono(m, rat(1)))?,
            Atom::Ln(b) => if let PBase::Atom(x) = b { self.use_atom(x)?; },
            Atom::Ite(t) => {
                let N::Ite(c, x, y) = self.ar.n[t as usize] else { unreachable!() };
                self.visit(c)?;
                for z in [x, y] { let p = (*self.ps.poly(self.ar, z)?).clone(); self.use_poly(&p)?; }
            }
            Atom::I2F(t) => { self.has_bv = true; self.visit(t)?; }
            Atom::Rnd(_, p, t) => {
                self.has_bv = true;
                let (lo, hi) = self.ar.frange(t);
                if !(lo > -9e15 && hi < 9e15) { return Err("rounding of unbounded value".into()); }
                self.use_poly(&p)?;
            }
            Atom::Abs(p) => self.use_poly(&p)?,
        }
        self.aorder.push(a);
        Ok(())
    }
    fn sym(&self, a: Aid) -> String { format!("x{a}") }
    fn val(&self, a: Aid) -> String {
        let r = q(1) / self.un(a);
        if r == q(1) { self.sym(a) } else if r.is_integer() { format!("(* {})", vec![self.sym(a); r.to_integer() as usize].join(" ")) } else { unreachable!("value of a power symbol") }
    }
    fn un(&self, a: Aid) -> Q { *self.unit.get(&a).unwrap_or(&q(1)) }
    fn is_power(&self, a: Aid) -> bool { matches!(&self.ps.atoms[a as usize], Atom::Pow(_, m, _) | Atom::Exp(m, _) if !m.0.is_empty()) }
    fn pname(a: Aid, e: Q) -> String { format!("p{a}_{}_{}", e.numer(), e.denom()) }
    fn pol(&mut self, p: &Poly) -> R<String> {
        if p.0.is_empty() { return Ok("0.0".into()); }
        let mut ts = vec![];
        for (m, c) in &p.0 {
            let mut fs = vec![];
            for (a, e) in &m.0 {
                let kk = *e / self.un(*a);
                if !kk.is_integer() || (kk.abs() > q(8) && (self.is_power(*a) || self.ps.sign(*a) == Some(true))) {
                    let x = e.abs();
                    self.psym.insert((*a, x), ());
                    let n = Self::pname(*a, x);
                    fs.push(if e.is_negative() { self.pinv.insert((*a, x)); format!("i{n}") } else { n });
                    continue;
                }
                let k = kk.to_integer();
                if k.abs() > 400 { return Err("degree too large".into()); }
                let s = if k < 0 { self.inv.insert(*a); format!("i{a}") } else { self.sym(*a) };
                for _ in 0..k.abs() { fs.push(s.clone()); }
            }
            if fs.len() > 1 { self.nonlinear = true; }
            if fs.is_empty() { ts.push(num(c)); } else {
                if !c.is_one() { fs.insert(0, num(c)); }
                ts.push(if fs.len() == 1 { fs[0].clone() } else { format!("(* {})", fs.join(" ")) });
            }
        }
        Ok(if ts.len() == 1 { ts.pop().unwrap() } else { format!("(+ {})", ts.join(" ")) })
    }
    fn bits_real(&self, name: &str, w: u32, lo: i128, hi: i128) -> String {
        // value of (name - lo) as a sum of bits, plus lo
        let n = (128 - ((hi - lo) as u128).leading_zeros()).max(1).min(w);
        let loc = format!("(_ bv{} {})", (lo as u128) & if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }, w);
        let d = if lo == 0 { name.to_string() } else { format!("(bvsub {name} {loc})") };
        let mut s = String::from("(+ ");
        s.push_str(&num(&Rat::from_integer(BigInt::from(lo))));
        for i in 0..n { let _ = write!(s, " (ite (= ((_ extract {i} {i}) {d}) #b1) {}.0 0.0)", 1u128 << i); }
        s.push(')');
        s
    }
    fn trunc_rel(k: &str, x: &str, kind: FUn, lo: f64, hi: f64) -> String {
        match kind {
            FUn::Floor => format!("(and (<= {k} {x}) (< {x} (+ {k} 1.0)))"),
            FUn::Ceil => format!("(and (<= {x} {k}) (< (- {k} 1.0) {x}))"),
            FUn::Trunc => if lo >= 0.0 { format!("(and (<= {k} {x}) (< {x} (+ {k} 1.0)))") } else if hi <= 0.0 { format!("(and (<= {x} {k}) (< (- {k} 1.0) {x}))") }
                else { format!("(ite (>= {x} 0.0) (and (<= {k} {x}) (< {x} (+ {k} 1.0))) (and (<= {x} {k}) (< (- {k} 1.0) {x})))") },
            // round half away from zero
            _ => if lo >= 0.0 { format!("(and (<= (- {k} 0.5) {x}) (< {x} (+ {k} 0.5)))") } else if hi <= 0.0 { format!("(and (< (- {k} 0.5) {x}) (<= {x} (+ {k} 0.5)))") }
                else { format!("(ite (>= {x} 0.0) (and (<= (- {k} 0.5) {x}) (< {x} (+ {k} 0.5))) (and (< (- {k} 0.5) {x}) (<= {x} (+ {k} 0.5))))") },
        }
    }
    pub fn query(mut self, asserts: &[Tid]) -> R<Query> {
        for t in asserts { self.visit(*t)?; }
        // roots
        for p in &self.polys {
            for m in p.0.keys() {
                for (a, e) in &m.0 {
                    let r = self.unit.entry(*a).or_insert(e.abs());
                    // rational greatest common divisor
                    *r = Q::new((r.numer() * e.denom()).gcd(&(e.numer() * r.denom())), r.denom() * e.denom());
                }
            }
        }
        for (a, r) in self.unit.clone() {
            if !self.is_power(a) {
                // a root of the atom when it is a simple one, the atom itself otherwise
                let d = *r.denom();
                let u = if d <= 4 { Q::new(1, d) } else { q(1) };
                self.unit.insert(a, u);
            }
        }
        let mut decl = String::new();
        let mut defs = String::new();
        let mut ass = String::new();
        let mut vars = vec![];
        // atoms and bool/bv nodes are interleaved: atoms that depend on nodes (Ite, I2F) get constraints after the node definitions,
        // nodes that depend on atoms (comparisons) only need the declarations, which come first.
        let aorder = self.aorder.clone();
        for a in &aorder {
            let s = self.sym(*a);
            let _ = writeln!(decl, "(declare-const {s} Real)");
            if std::env::var("ENGINE_ATOMS").is_ok() { let _ = writeln!(decl, "; {s}: {:?} unit {}", self.ps.atoms[*a as usize], self.un(*a)); }
            let info = self.ps.ainfo[*a as usize].clone();
            let r = if self.is_power(*a) { 1 } else { (q(1) / self.un(*a)).to_integer() };
            if r > 1 || self.is_power(*a) { let _ = writeln!(ass, "(assert (> {s} 0.0))"); }
            if self.is_power(*a) { continue; }
            match &self.ps.atoms[*a as usize] {
                Atom::Var(t) => {
                    let N::FVar(id) = self.ar.n[*t as usize] else { unreachable!() };
                    if r > 1 { 
                        let _ = writeln!(decl, "(define-fun xv{a} () Real {})", self.val(*a));
                        vars.push((id, format!("xv{a}")));
                    } else { vars.push((id, s.clone())); }
                }
                _ => {}
            }
            let v = self.val(*a);
            if matches!(self.ps.atoms[*a as usize], Atom::Var(_) | Atom::Err(_)) {
                if info.lo.is_finite() { let _ = writeln!(ass, "(assert (>= {v} {}))", fnum(info.lo)); }
                if info.hi.is_finite() { let _ = writeln!(ass, "(assert (<= {v} {}))", fnum(info.hi)); }
            }
            if self.ps.sign(*a) == Some(true) && r == 1 { let _ = writeln!(ass, "(assert (> {v} 0.0))"); }
        }
        if !self.relax { for (t, _) in self.fpi.clone() { let _ = writeln!(decl, "(declare-const k{t} (_ BitVec {}))", self.ar.width(t)); } }
        // nodes
        let order = self.order.clone();
        for t in &order {
            if self.relax { self.inode(*t, &mut decl, &mut defs, &mut ass)?; continue; }
            let s = self.node(*t, &mut vars)?;
            let sort = if self.ar.is_bool(*t) { "Bool".to_string() } else { format!("(_ BitVec {})", self.ar.width(*t)) };
            match &self.ar.n[*t as usize] {
                N::BVar(id, w) => {
                    let _ = writeln!(decl, "(declare-const t{t} {sort})");
                    vars.push((*id, format!("t{t}")));
                    if let VarKind::Bv { lo, hi, .. } = self.ar.vars[*id as usize].kind {
                        let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                        let (l, h) = (lo as u128 & m, hi as u128 & m);
                        if lo >= 0 { if l > 0 || h < m { let _ = writeln!(ass, "(assert (and (bvuge t{t} (_ bv{l} {w})) (bvule t{t} (_ bv{h} {w}))))"); } }
                        else { let _ = writeln!(ass, "(assert (and (bvsge t{t} (_ bv{l} {w})) (bvsle t{t} (_ bv{h} {w}))))"); }
                    }
                }
                _ => { let _ = writeln!(defs, "(define-fun t{t} () {sort} {s})"); }
            }
        }
        // float-to-int conversions
        for (t, p) in self.fpi.clone() {
            let (lo, hi) = match self.ar.n[t as usize] { N::FpToSi(a, _) | N::FpToUi(a, _) => self.ar.frange(a), _ => unreachable!() };
            let w = self.ar.width(t);
            let (lo, hi) = if matches!(self.ar.n[t as usize], N::FpToUi(..)) { (lo.max(0.0), hi) } else { (lo, hi) };
            let (kl, kh) = (lo.trunc() as i128 - 1, hi.trunc() as i128 + 1);
            let kl = if lo >= 0.0 { 0 } else { kl };
            if self.relax {
                let x = self.pol(&p)?;
                let _ = writeln!(defs, "(define-fun kr{t} () Real (to_real n{t}))");
                let _ = writeln!(ass, "(assert (and (<= {} n{t}) (<= n{t} {})))", inum(kl), inum(kh));
                let _ = writeln!(ass, "(assert {})", Self::trunc_rel(&format!("kr{t}"), &x, FUn::Trunc, lo, hi));
                continue;
            }
            let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            let kr = self.bits_real(&format!("k{t}"), w, kl, kh);
            let x = self.pol(&p)?;
            let _ = writeln!(defs, "(define-fun kr{t} () Real {kr})");
            let _ = writeln!(ass, "(assert (bvule (bvsub k{t} (_ bv{} {w})) (_ bv{} {w})))", kl as u128 & m, (kh - kl) as u128);
            let _ = writeln!(ass, "(assert {})", Self::trunc_rel(&format!("kr{t}"), &x, FUn::Trunc, lo, hi));
        }
        // atom definitions
        for a in &aorder {
            if self.is_power(*a) { continue; }
            let v = self.val(*a);
            match self.ps.atoms[*a as usize].clone() {
                Atom::Base(_) => {
                    let d = self.defs[a].clone();
                    let s = self.pol(&d)?;
                    let _ = writeln!(ass, "(assert (= {s} 0.0))");
                }
                Atom::I2F(t) => {
                    let signed = self.ps.ainfo[*a as usize].lo < 0.0;
                    let w = self.ar.width(t);
                    let (lo, hi) = if signed { self.ar.sr(t) } else { let u = self.ar.ur(t); (u.0 as i128, u.1 as i128) };
                    if self.relax {
                        if signed || self.ar.sr(t).0 >= 0 { let _ = writeln!(ass, "(assert (= {v} (to_real n{t})))"); } else { self.opaque = true; }
                    } else {
                        let r = self.bits_real(&format!("t{t}"), w, lo, hi);
                        let _ = writeln!(ass, "(assert (= {v} {r}))");
                    }
                    let _ = writeln!(ass, "(assert (and (<= {} {v}) (<= {v} {})))", num(&Rat::from_integer(BigInt::from(lo))), num(&Rat::from_integer(BigInt::from(hi))));
                }
                Atom::Ite(t) => {
                    let N::Ite(c, x, y) = self.ar.n[t as usize] else { unreachable!() };
                    let px = (*self.ps.poly(self.ar, x)?).clone();
                    let py = (*self.ps.poly(self.ar, y)?).clone();
                    let (sx, sy) = (self.pol(&px)?, self.pol(&py)?);
                    let _ = writeln!(ass, "(assert (= {v} (ite t{c} {sx} {sy})))");
                }
                Atom::Abs(p) => { let s = self.pol(&p)?; let _ = writeln!(ass, "(assert (= {v} (ite (>= {s} 0.0) {s} (- {s}))))"); }
                Atom::Rnd(k, p, t) => {
                    let (lo, hi) = self.ar.frange(t);
                    let (kl, kh) = (lo as i128 - 1, hi as i128 + 1);
                    if self.relax {
                        let _ = writeln!(decl, "(declare-const kb{a} Int)");
                        let _ = writeln!(defs, "(define-fun kr{a} () Real (to_real kb{a}))");
                    } else {
                        let w = 128 - ((kh - kl) as u128).leading_zeros() + 1;
                        let _ = writeln!(decl, "(declare-const kb{a} (_ BitVec {w}))");
                        let kr = self.bits_real(&format!("kb{a}"), w, 0, kh - kl);
                        let _ = writeln!(defs, "(define-fun kr{a} () Real (+ {} {kr}))", num(&Rat::from_integer(BigInt::from(kl))));
                    }
                    let x = self.pol(&p)?;
                    let _ = writeln!(ass, "(assert (= {v} kr{a}))");
                    let (xl, xh) = self.ps.ival(&p);
                    if k == FUn::RoundEven { return Err("round to even".into()); }
                    let _ = writeln!(ass, "(assert {})", Self::trunc_rel(&format!("kr{a}"), &x, k, xl, xh));
                }
                _ => {}
            }
        }
        self.axioms(&aorder, &mut ass)?;
        for a in &self.inv.clone() {
            let _ = writeln!(decl, "(declare-const i{a} Real)");
            let _ = writeln!(ass, "(assert (= (* i{a} {}) 1.0))", self.sym(*a));
        }
        for (a, e) in &self.pinv.clone() {
            let n = Self::pname(*a, *e);
            let _ = writeln!(decl, "(declare-const i{n} Real)");
            let _ = writeln!(ass, "(assert (= (* i{n} {n}) 1.0))");
        }
        for (a, e) in self.psym.keys() { let n = Self::pname(*a, *e); let _ = writeln!(decl, "(declare-const {n} Real)\n(assert (> {n} 0.0))"); }
        let mut text = decl;
        text.push_str(&defs);
        text.push_str(&ass);
        for t in asserts { let _ = writeln!(text, "(assert t{t})"); }
        Ok(Query { text, vars, nonlinear: self.nonlinear, has_real: self.has_real, has_bv: self.has_bv, exact: true, opaque: self.opaque })
    }
    fn axioms(&mut self, aorder: &[Aid], ass: &mut String) -> R<()> {
        struct PI { v: String, b: String, bk: Option<PBase>, m: String, em: (Mono, Rat) }
        let mut pows = vec![];
        let mut exps = vec![];
        let mut lns = vec![];
        // (symbol, atom, exponent)
        let mut syms: Vec<(String, Aid, Q)> = vec![];
        for a in aorder {
            if self.is_power(*a) { syms.push((self.sym(*a), *a, self.un(*a))); } else { syms.push((self.val(*a), *a, q(1))); }
        }
        let ps: Vec<(Aid, Q)> = self.psym.keys().cloned().collect();
        for (i, (a, e)) in ps.iter().enumerate() {
            let n = Self::pname(*a, *e);
            if self.is_power(*a) { syms.push((n.clone(), *a, *e)); } else {
                let b = self.val(*a);
                pows.push(PI { v: n.clone(), b, bk: Some(PBase::Atom(*a)), m: num(&qr(*e)), em: (Mono::one(), qr(*e)) });
            }
            // neighbouring powers
            for (a2, e2) in &ps[i + 1..] {
                let k = (*e2 - *e) / self.un(*a);
                if a2 == a && k.is_integer() && k <= q(8) { let _ = writeln!(ass, "(assert (= {} (* {n} {})))", Self::pname(*a2, *e2), vec![self.sym(*a); k.to_integer() as usize].join(" ")); break; }
            }
        }
        for (v, a, g) in &syms {
            let v = v.clone();
            match self.ps.atoms[*a as usize].clone() {
                Atom::Pow(b, m, k) => {
                    let k = k * qr(*g);
                    let bs = match &b { PBase::Atom(x) => self.val(*x), PBase::Const(c) => num(c) };
                    let ms = self.pol(&Poly::mono(m.clone(), k.clone()))?;
                    pows.push(PI { v, b: bs, bk: Some(b), m: ms, em: (m, k) });
                }
                Atom::Exp(m, k) => { let k = k * qr(*g); let ms = self.pol(&Poly::mono(m.clone(), k.clone()))?; exps.push(PI { v, b: String::new(), bk: None, m: ms, em: (m, k) }); }
                Atom::Ln(b) => { let bs = match &b { PBase::Atom(x) => self.val(*x), PBase::Const(c) => num(c) }; lns.push((v, bs, b)); }
                _ => {}
            }
        }
        for p in &pows {
            let (v, b, m) = (&p.v, &p.b, &p.m);
            if let (Some(PBase::Const(c)), true) = (&p.bk, p.em.0.0.is_empty()) {
                let f = c.to_f64().unwrap().powf(p.em.1.to_f64().unwrap());
                let _ = writeln!(ass, "(assert (and (< {} {v}) (< {v} {})))", fnum(f * (1.0 - 1e-14)), fnum(f * (1.0 + 1e-14)));
                continue;
            }
            let _ = writeln!(ass, "(assert (and (=> (= {m} 0.0) (= {v} 1.0)) (=> (= {b} 1.0) (= {v} 1.0)) (=> (= {m} 1.0) (= {v} {b}))))");
            let _ = writeln!(ass, "(assert (and (=> (and (> {b} 1.0) (> {m} 0.0)) (> {v} 1.0)) (=> (and (> {b} 1.0) (< {m} 0.0)) (< {v} 1.0)) (=> (and (< {b} 1.0) (> {m} 0.0)) (< {v} 1.0)) (=> (and (< {b} 1.0) (< {m} 0.0)) (> {v} 1.0))))");
            let _ = writeln!(ass, "(assert (and (=> (>= {m} 1.0) (>= {v} (+ 1.0 (* {m} (- {b} 1.0))))) (=> (<= {m} 0.0) (>= {v} (+ 1.0 (* {m} (- {b} 1.0))))) (=> (and (>= {m} 0.0) (<= {m} 1.0)) (<= {v} (+ 1.0 (* {m} (- {b} 1.0)))))))");
            let _ = writeln!(ass, "(assert (and (=> (and (> {b} 1.0) (> {m} 1.0)) (> {v} {b})) (=> (and (> {b} 1.0) (< {m} 1.0)) (< {v} {b})) (=> (and (< {b} 1.0) (> {m} 1.0)) (< {v} {b})) (=> (and (< {b} 1.0) (< {m} 1.0)) (> {v} {b}))))");
            if !p.em.0.0.is_empty() { self.nonlinear = true; }
        }
        for i in 0..pows.len() {
            for j in i + 1..pows.len().min(i + 16) {
                let (p, o) = (&pows[i], &pows[j]);
                if p.em == o.em {
                    let m = &p.m;
                    let _ = writeln!(ass, "(assert (and (=> (= {1} {3}) (= {0} {2})) (=> (and (< {1} {3}) (> {m} 0.0)) (< {0} {2})) (=> (and (< {1} {3}) (< {m} 0.0)) (> {0} {2})) (=> (and (> {1} {3}) (> {m} 0.0)) (> {0} {2})) (=> (and (> {1} {3}) (< {m} 0.0)) (< {0} {2}))))", p.v, p.b, o.v, o.b);
                } else if p.bk == o.bk {
                    let b = &p.b;
                    let _ = writeln!(ass, "(assert (and (=> (= {1} {3}) (= {0} {2})) (=> (and (< {1} {3}) (> {b} 1.0)) (< {0} {2})) (=> (and (< {1} {3}) (< {b} 1.0)) (> {0} {2})) (=> (and (> {1} {3}) (> {b} 1.0)) (> {0} {2})) (=> (and (> {1} {3}) (< {b} 1.0)) (< {0} {2}))))", p.v, p.m, o.v, o.m);
                } else {
                    let _ = writeln!(ass, "(assert (=> (and (= {} {}) (= {} {})) (= {} {})))", p.b, o.b, p.m, o.m, p.v, o.v);
                }
            }
        }
        for e in &exps {
            let (v, m) = (&e.v, &e.m);
            if e.em.0.0.is_empty() { let f = e.em.1.to_f64().unwrap().exp(); let _ = writeln!(ass, "(assert (and (< {} {v}) (< {v} {})))", fnum(f * (1.0 - 1e-14)), fnum(f * (1.0 + 1e-14))); continue; }
            let _ = writeln!(ass, "(assert (and (>= {v} (+ 1.0 {m})) (=> (= {m} 0.0) (= {v} 1.0)) (=> (> {m} 0.0) (> {v} (+ 1.0 {m}))) (=> (< {m} 0.0) (> {v} (+ 1.0 {m}))) (=> (> {m} 0.0) (> {v} 1.0)) (=> (< {m} 0.0) (< {v} 1.0)) (=> (< {m} 1.0) (<= {v} (/ 1.0 (- 1.0 {m}))))))");
        }
        for i in 0..exps.len() {
            for j in i + 1..exps.len() {
                let (p, o) = (&exps[i], &exps[j]);
                let _ = writeln!(ass, "(assert (and (=> (= {1} {3}) (= {0} {2})) (=> (< {1} {3}) (< {0} {2})) (=> (> {1} {3}) (> {0} {2}))))", p.v, p.m, o.v, o.m);
            }
        }
        for (v, b, k) in &lns {
            if let PBase::Const(c) = k { let f = c.to_f64().unwrap().ln(); let e = f.abs() * 1e-14 + 1e-300; let _ = writeln!(ass, "(assert (and (< {} {v}) (< {v} {})))", fnum(f - e), fnum(f + e)); continue; }
            let _ = writeln!(ass, "(assert (and (<= {v} (- {b} 1.0)) (>= {v} (- 1.0 (/ 1.0 {b}))) (=> (= {b} 1.0) (= {v} 0.0)) (=> (> {b} 1.0) (> {v} 0.0)) (=> (< {b} 1.0) (< {v} 0.0)) (=> (not (= {b} 1.0)) (< {v} (- {b} 1.0)))))");
        }
        for i in 0..lns.len() {
            for j in i + 1..lns.len() {
                let (p, o) = (&lns[i], &lns[j]);
                let _ = writeln!(ass, "(assert (and (=> (= {1} {3}) (= {0} {2})) (=> (< {1} {3}) (< {0} {2})) (=> (> {1} {3}) (> {0} {2}))))", p.0, p.1, o.0, o.1);
            }
        }
        // ln of a base that also occurs in a power: b^m >= 1 + m ln b
        for (v, _, k) in &lns {
            for p in &pows {
                if p.bk.as_ref() == Some(k) { let _ = writeln!(ass, "(assert (>= {} (+ 1.0 (* {} {v}))))", p.v, p.m); self.nonlinear = true; }
            }
        }
        if !pows.is_empty() || !exps.is_empty() || !lns.is_empty() { self.nonlinear = true; }
        Ok(())
    }
    fn unsigned(&self, a: Tid) -> String {
        let w = self.ar.width(a);
        if self.ar.sr(a).0 >= 0 || w > 100 { format!("n{a}") } else { format!("(ite (>= n{a} 0) n{a} (+ n{a} {}))", 1i128 << w) }
    }
    /// integer reading of a node (signed value of a bit-vector); Some((e, wraps)), or none when it would not be exact
    fn iexpr(&self, t: Tid) -> Option<(String, bool)> {
        let ar = self.ar;
        let w = ar.width(t);
        if w > 100 { return None; }
        let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let nn = |x: Tid| ar.sr(x).0 >= 0;
        let cst = |x: Tid| ar.as_bc(x).map(|v| sx(v, ar.width(x)));
        let out = |lo: Option<i128>, hi: Option<i128>| !matches!((lo, hi), (Some(l), Some(h)) if l >= smin && h <= smax);
        let ok = |s: String| Some((s, false));
        match ar.n[t as usize].clone() {
            N::BC(v, w) => ok(inum(sx(v, w))),
            N::Bin(o, a, b) => {
                let ((al, ah), (bl, bh)) = (ar.sr(a), ar.sr(b));
                match o {
                    B::Add => Some((format!("(+ n{a} n{b})"), out(al.checked_add(bl), ah.checked_add(bh)))),
                    B::Sub => Some((format!("(- n{a} n{b})"), out(al.checked_sub(bh), ah.checked_sub(bl)))),
                    B::Mul => {
                        let (x, k) = if let Some(k) = cst(b) { (a, k) } else if let Some(k) = cst(a) { (b, k) } else { return None };
                        let (l, h) = ar.sr(x);
                        let (p, q) = (l.checked_mul(k)?, h.checked_mul(k)?);
                        Some((format!("(* {} n{x})", inum(k)), out(Some(p.min(q)), Some(p.max(q)))))
                    }
                    B::Shl => {
                        let k = cst(b)?;
                        if !(0..100).contains(&k) { return None; }
                        let m = 1i128 << k;
                        Some((format!("(* {} n{a})", inum(m)), out(al.checked_mul(m), ah.checked_mul(m))))
                    }
                    B::AShr => { let k = cst(b)?; if !(0..100).contains(&k) { return None; } ok(format!("(div n{a} {})", 1i128 << k)) }
                    B::LShr => { let k = cst(b)?; if !(1..100).contains(&k) { return None; } ok(format!("(div {} {})", self.unsigned(a), 1i128 << k)) }
                    B::SDiv | B::UDiv => {
                        let k = cst(b)?;
                        if k <= 0 { return None; }
                        if nn(a) { ok(format!("(div n{a} {k})")) } else if matches!(o, B::SDiv) { ok(format!("(ite (>= n{a} 0) (div n{a} {k}) (- (div (- n{a}) {k})))")) }
                        else if k > 1 { ok(format!("(div {} {k})", self.unsigned(a))) } else { None }
                    }
                    B::SRem | B::URem => {
                        let k = cst(b)?;
                        if k <= 0 { return None; }
                        if nn(a) { ok(format!("(mod n{a} {k})")) } else if matches!(o, B::SRem) { ok(format!("(ite (>= n{a} 0) (mod n{a} {k}) (- (mod (- n{a}) {k})))")) }
                        else { ok(format!("(mod {} {k})", self.unsigned(a))) }
                    }
                    B::And => {
                        let (x, k) = if let Some(k) = cst(b) { (a, k) } else if let Some(k) = cst(a) { (b, k) } else { return None };
                        if k > 0 && (k & (k + 1)) == 0 { return ok(format!("(mod n{x} {})", k + 1)); }
                        if k < 0 && ((-k) & (-k - 1)) == 0 { return ok(format!("(- n{x} (mod n{x} {}))", -k)); }
                        // one run of ones: bits lo..hi
                        if k > 0 {
                            let lo = k.trailing_zeros();
                            let r = k >> lo;
                            if r & (r + 1) == 0 { let hi = k + (1i128 << lo); return ok(format!("(- (mod n{x} {hi}) (mod n{x} {}))", 1i128 << lo)); }
                        }
                        None
                    }
                    B::Or | B::Xor => {
                        let dis = |x: Tid, y: Tid| { let (l, h) = ar.sr(y); let z = ar.tz(x); l >= 0 && z < 100 && h < (1i128 << z) };
                        if dis(a, b) || dis(b, a) { return ok(format!("(+ n{a} n{b})")); }
                        if matches!(o, B::Xor) && (cst(a) == Some(-1) || cst(b) == Some(-1)) { let x = if cst(a) == Some(-1) { b } else { a }; return ok(format!("(- (- 1) n{x})")); }
                        None
                    }
                }
            }
            N::ZExt(a, _) => ok(self.unsigned(a)),
            N::SExt(a, _) => ok(format!("n{a}")),
            N::Extract(a, lo, _) => {
                let (l, h) = ar.sr(a);
                if lo > 100 || ar.width(a) > 100 { return None; }
                let d = if lo == 0 { format!("n{a}") } else { format!("(div n{a} {})", 1i128 << lo) };
                Some((d, out(Some(l >> lo), Some(h >> lo))))
            }
            N::Ite(c, a, b) => ok(format!("(ite t{c} n{a} n{b})")),
            N::Table(i, v, w) if nn(i) => {
                let (lo, hi) = ar.ur(i);
                let (lo, hi) = (lo as usize, (hi as usize).min(v.len() - 1));
                let vals: Vec<(usize, i128)> = (lo..=hi).map(|k| (k, sx(v[k] as u128, w))).collect();
                fn runs(v: &[(usize, i128)]) -> Vec<(usize, i128)> {
                    let mut r: Vec<(usize, i128)> = vec![];
                    for x in v { if r.last().map(|y| y.1) != Some(x.1) { r.push(*x); } }
                    r
                }
                fn tree(i: Tid, r: &[(usize, i128)]) -> String {
                    if r.len() == 1 { return inum(r[0].1); }
                    let m = r.len() / 2;
                    format!("(ite (< n{i} {}) {} {})", r[m].0, tree(i, &r[..m]), tree(i, &r[m..]))
                }
                // shapes: runs; runs per residue class; a staircase floor((i+b)/c) plus runs
                let mut best = { let r = runs(&vals); (r.len(), tree(i, &r)) };
                for st in [2usize, 4] {
                    let cl: Vec<Vec<(usize, i128)>> = (0..st).map(|c| runs(&vals.iter().cloned().filter(|x| x.0 % st == c).collect::<Vec<_>>())).collect();
                    if cl.iter().any(|c| c.is_empty()) { continue; }
                    let n: usize = cl.iter().map(|c| c.len()).sum::<usize>() + st;
                    if n < best.0 {
                        let mut s = tree(i, &cl[st - 1]);
                        for c in (0..st - 1).rev() { s = format!("(ite (= (mod n{i} {st}) {c}) {} {s})", tree(i, &cl[c])); }
                        best = (n, s);
                    }
                }
                let rise = vals.last().unwrap().1 - vals[0].1;
                if best.0 > 16 && rise > 4 {
                    let c0 = (vals.len() as i128 + rise / 2) / rise;
                    for c in (c0 - 1).max(2)..=c0 + 1 {
                        for b in 0..c {
                            let r = runs(&vals.iter().map(|x| (x.0, x.1 - (x.0 as i128 + b).div_euclid(c))).collect::<Vec<_>>());
                            if r.len() + 1 < best.0 { best = (r.len() + 1, format!("(+ (div (+ n{i} {b}) {c}) {})", tree(i, &r))); }
                        }
                    }
                }
                if best.0 > 128 { return None; }
                ok(best.1)
            }
            _ => None,
        }
    }
    fn inode(&mut self, t: Tid, decl: &mut String, defs: &mut String, ass: &mut String) -> R<()> {
        if self.ar.is_bool(t) {
            let nn = |x: Tid| self.ar.sr(x).0 >= 0;
            let e = match self.ar.n[t as usize].clone() {
                N::Eq(a, b) if !self.ar.is_bool(a) => Some(format!("(= n{a} n{b})")),
                N::Slt(a, b) => Some(format!("(< n{a} n{b})")),
                N::Sle(a, b) => Some(format!("(<= n{a} n{b})")),
                N::Ult(a, b) if nn(a) && nn(b) => Some(format!("(< n{a} n{b})")),
                N::Ule(a, b) if nn(a) && nn(b) => Some(format!("(<= n{a} n{b})")),
                // 0 <= a < b as one unsigned comparison
                N::Ult(a, b) if nn(b) => Some(format!("(and (<= 0 n{a}) (< n{a} n{b}))")),
                N::Ule(a, b) if nn(b) => Some(format!("(and (<= 0 n{a}) (<= n{a} n{b}))")),
                N::Ult(a, b) if nn(a) => Some(format!("(or (< n{b} 0) (< n{a} n{b}))")),
                N::Ule(a, b) if nn(a) => Some(format!("(or (< n{b} 0) (<= n{a} n{b}))")),
                N::Ult(a, b) if self.ar.width(a) <= 100 => Some(format!("(< {} {})", self.unsigned(a), self.unsigned(b))),
                N::Ule(a, b) if self.ar.width(a) <= 100 => Some(format!("(<= {} {})", self.unsigned(a), self.unsigned(b))),
                N::Ult(..) | N::Ule(..) => None,
                N::Ite(c, a, b) => Some(format!("(ite t{c} t{a} t{b})")),
                _ => Some(self.node(t, &mut [])?),
            };
            match e {
                Some(e) => { let _ = writeln!(defs, "(define-fun t{t} () Bool {e})"); }
                None => { self.opaque = true; let _ = writeln!(decl, "(declare-const t{t} Bool)"); }
            }
            return Ok(());
        }
        match self.iexpr(t) {
            Some((e, false)) => { let _ = writeln!(defs, "(define-fun n{t} () Int {e})"); }
            Some((e, true)) => {
                // the machine result differs from the exact one by a multiple of 2^w
                let w = self.ar.width(t);
                let (lo, hi) = self.ar.sr(t);
                let _ = writeln!(decl, "(declare-const n{t} Int)\n(declare-const w{t} Int)");
                let _ = writeln!(ass, "(assert (= n{t} (- {e} (* {} w{t}))))\n(assert (and (<= {} n{t}) (<= n{t} {})))", 1i128 << w, inum(lo), inum(hi));
            }
            None => {
                let _ = writeln!(decl, "(declare-const n{t} Int)");
                let (mut lo, mut hi) = self.ar.sr(t);
                if let N::BVar(id, _) = &self.ar.n[t as usize] { if let VarKind::Bv { lo: l, hi: h, .. } = self.ar.vars[*id as usize].kind { lo = lo.max(l); hi = hi.min(h); } } else if !matches!(self.ar.n[t as usize], N::FpToSi(..) | N::FpToUi(..)) { self.opaque = true; }
                let _ = writeln!(ass, "(assert (and (<= {} n{t}) (<= n{t} {})))", inum(lo), inum(hi));
            }
        }
        Ok(())
    }
    fn node(&mut self, t: Tid, _vars: &mut [(u32, String)]) -> R<String> {
        let w = self.ar.width(t);
        Ok(match self.ar.n[t as usize].clone() {
            N::True => "true".into(),
            N::False => "false".into(),
            N::Not(a) => format!("(not t{a})"),
            N::And(a, b) => format!("(and t{a} t{b})"),
            N::Or(a, b) => format!("(or t{a} t{b})"),
            N::BoolEq(a, b) | N::Eq(a, b) => format!("(= t{a} t{b})"),
            N::Ult(a, b) => format!("(bvult t{a} t{b})"),
            N::Ule(a, b) => format!("(bvule t{a} t{b})"),
            N::Slt(a, b) => format!("(bvslt t{a} t{b})"),
            N::Sle(a, b) => format!("(bvsle t{a} t{b})"),
            N::FEq(..) | N::FLt(..) | N::FLe(..) => {
                let (p, neg) = self.cmps[&t].clone();
                let s = self.pol(&p)?;
                let op = match (&self.ar.n[t as usize], neg) { (N::FEq(..), _) => "=", (N::FLt(..), false) => "<", (N::FLt(..), true) => ">", (_, false) => "<=", _ => ">=" };
                format!("({op} {s} 0.0)")
            }
            N::BC(v, w) => format!("(_ bv{v} {w})"),
            N::BVar(..) => String::new(),
            N::Bin(o, a, b) => {
                let n = match o { B::Add => "bvadd", B::Sub => "bvsub", B::Mul => "bvmul", B::UDiv => "bvudiv", B::SDiv => "bvsdiv", B::URem => "bvurem", B::SRem => "bvsrem", B::And => "bvand", B::Or => "bvor", B::Xor => "bvxor", B::Shl => "bvshl", B::LShr => "bvlshr", B::AShr => "bvashr" };
                format!("({n} t{a} t{b})")
            }
            N::ZExt(a, _) => format!("((_ zero_extend {}) t{a})", w - self.ar.width(a)),
            N::SExt(a, _) => format!("((_ sign_extend {}) t{a})", w - self.ar.width(a)),
            N::Extract(a, lo, w) => format!("((_ extract {} {lo}) t{a})", lo + w - 1),
            N::Concat(a, b) => format!("(concat t{a} t{b})"),
            N::Ite(c, a, b) => format!("(ite t{c} t{a} t{b})"),
            N::Table(i, v, w) => {
                // grouped by runs of equal values
                let wi = self.ar.width(i);
                let (lo, hi) = self.ar.ur(i);
                let lo = lo as usize;
                let hi = (hi as usize).min(v.len() - 1);
                // binary decision tree on the index
                fn tree(i: Tid, v: &[u64], base: usize, w: u32, wi: u32, out: &mut String) {
                    if v.iter().all(|x| *x == v[0]) { let _ = write!(out, "(_ bv{} {})", v[0], w); return; }
                    let m = v.len() / 2;
                    let _ = write!(out, "(ite (bvult t{i} (_ bv{} {})) ", base + m, wi);
                    tree(i, &v[..m], base, w, wi, out);
                    out.push(' ');
                    tree(i, &v[m..], base + m, w, wi, out);
                    out.push(')');
                }
                let mut s = String::new();
                tree(i, &v[lo..=hi], lo, w, wi, &mut s);
                s
            }
            N::FpToSi(..) | N::FpToUi(..) => format!("k{t}"),
            x => return Err(format!("cannot lower {:?}", x)),
        })
    }
}

/// direct floating-point lowering (QF_FP)
pub fn fp_query(ar: &Arena, asserts: &[Tid]) -> R<Query> {
    fn go(ar: &Arena, t: Tid, seen: &mut HashMap<Tid, ()>, out: &mut String, decl: &mut String, vars: &mut Vec<(u32, String)>) -> R<()> {
        if seen.contains_key(&t) { return Ok(()); }
        seen.insert(t, ());
        let mut ks = vec![];
        ar.kids(t, &mut |k| ks.push(k));
        for k in ks { go(ar, k, seen, out, decl, vars)?; }
        let fpc = |b: u64| format!("(fp #b{} #b{:011b} #x{:013x})", b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1));
        let sort = if ar.is_bool(t) { "Bool".to_string() } else if ar.is_fl(t) { "(_ FloatingPoint 11 53)".into() } else { format!("(_ BitVec {})", ar.width(t)) };
        let e = match &ar.n[t as usize] {
            N::FVar(id) => {
                let _ = writeln!(decl, "(declare-const t{t} {sort})");
                if let VarKind::Real { lo, hi, .. } = ar.vars[*id as usize].kind {
                    let _ = writeln!(decl, "(assert (and (fp.leq {} t{t}) (fp.leq t{t} {})))", fpc(lo.to_bits()), fpc(hi.to_bits()));
                }
                vars.push((*id, format!("t{t}")));
                return Ok(());
            }
            N::BVar(id, w) => {
                let _ = writeln!(decl, "(declare-const t{t} {sort})");
                if let VarKind::Bv { lo, hi, .. } = ar.vars[*id as usize].kind {
                    let m = (1u128 << w) - 1;
                    let o = if lo >= 0 { ("bvuge", "bvule") } else { ("bvsge", "bvsle") };
                    let _ = writeln!(decl, "(assert (and ({} t{t} (_ bv{} {w})) ({} t{t} (_ bv{} {w}))))", o.0, lo as u128 & m, o.1, hi as u128 & m);
                }
                vars.push((*id, format!("t{t}")));
                return Ok(());
            }
            N::FC(b) => fpc(*b),
            N::FBin(o, a, b) => match o {
                FOp::Add => format!("(fp.add RNE t{a} t{b})"),
                FOp::Sub => format!("(fp.sub RNE t{a} t{b})"),
                FOp::Mul => format!("(fp.mul RNE t{a} t{b})"),
                FOp::Div => format!("(fp.div RNE t{a} t{b})"),
                _ => return Err("fp op".into()),
            },
            N::FUn(o, a) => match o {
                FUn::Neg => format!("(fp.neg t{a})"),
                FUn::Abs => format!("(fp.abs t{a})"),
                FUn::Sqrt => format!("(fp.sqrt RNE t{a})"),
                FUn::Floor => format!("(fp.roundToIntegral RTN t{a})"),
                FUn::Ceil => format!("(fp.roundToIntegral RTP t{a})"),
                FUn::Trunc => format!("(fp.roundToIntegral RTZ t{a})"),
                FUn::Round => format!("(fp.roundToIntegral RNA t{a})"),
                FUn::RoundEven => format!("(fp.roundToIntegral RNE t{a})"),
                _ => return Err("fp function".into()),
            },
            N::FEq(a, b) => format!("(fp.eq t{a} t{b})"),
            N::FLt(a, b) => format!("(fp.lt t{a} t{b})"),
            N::FLe(a, b) => format!("(fp.leq t{a} t{b})"),
            N::SiToFp(a) => format!("((_ to_fp 11 53) RNE t{a})"),
            N::UiToFp(a) => format!("((_ to_fp_unsigned 11 53) RNE t{a})"),
            N::FpToSi(a, w) => format!("((_ fp.to_sbv {w}) RTZ t{a})"),
            N::FpToUi(a, w) => format!("((_ fp.to_ubv {w}) RTZ t{a})"),
            N::FOfBits(a) => format!("((_ to_fp 11 53) t{a})"),
            N::True => "true".into(),
            N::False => "false".into(),
            N::Not(a) => format!("(not t{a})"),
            N::And(a, b) => format!("(and t{a} t{b})"),
            N::Or(a, b) => format!("(or t{a} t{b})"),
            N::BoolEq(a, b) | N::Eq(a, b) => format!("(= t{a} t{b})"),
            N::Ult(a, b) => format!("(bvult t{a} t{b})"),
            N::Ule(a, b) => format!("(bvule t{a} t{b})"),
            N::Slt(a, b) => format!("(bvslt t{a} t{b})"),
            N::Sle(a, b) => format!("(bvsle t{a} t{b})"),
            N::Ite(c, a, b) => format!("(ite t{c} t{a} t{b})"),
            N::BC(v, w) => format!("(_ bv{v} {w})"),
            x => return Err(format!("fp lowering of {:?}", x)),
        };
        let _ = writeln!(out, "(define-fun t{t} () {sort} {e})");
        Ok(())
    }
    let mut seen = HashMap::new();
    let (mut out, mut decl, mut vars) = (String::new(), String::new(), vec![]);
    for t in asserts { go(ar, *t, &mut seen, &mut out, &mut decl, &mut vars)?; }
    let mut text = decl;
    text.push_str(&out);
    for t in asserts { let _ = writeln!(text, "(assert t{t})"); }
    Ok(Query { text, vars, nonlinear: false, has_real: false, has_bv: true, exact: true, opaque: false })
}

#[derive(Clone, Debug)]
pub enum Res { Sat(HashMap<u32, Val>), Unsat, Unknown(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum Val { F(f64), I(u128) }

pub struct Solver {
    proc: Option<(Child, ChildStdin, Receiver<String>)>,
    pub queries: u64,
    pub time: f64,
    pub unknown: u64,
    pub cmd: Vec<String>,
}
impl Solver {
    pub fn new() -> Solver { Solver { proc: None, queries: 0, time: 0.0, unknown: 0, cmd: vec!["z3-new".into(), "-in".into(), "-memory:3000".into()] } }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break }
            }
        });
        self.proc = Some((c, i, rx));
    }
    fn kill(&mut self) { if let Some((mut c, ..)) = self.proc.take() { let _ = c.kill(); let _ = c.wait(); } }
    pub fn check(&mut self, qy: &Query, ms: u64, tactic: Option<&str>, want_model: bool) -> Res {
        let st = Instant::now();
        let r = self.check0(qy, ms, tactic, want_model);
        self.queries += 1;
        self.time += st.elapsed().as_secs_f64();
        if let Res::Unknown(_) = r { self.unknown += 1; }
        r
    }
    fn check0(&mut self, qy: &Query, ms: u64, tactic: Option<&str>, want_model: bool) -> Res {
        if self.proc.is_none() { self.start(); }
        let mut s = String::new();
        let cvc = self.cmd[0] == "cvc5";
        s.push_str("(reset)\n");
        if cvc { s.push_str("(set-logic ALL)\n"); } else {
            s.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n");
            let _ = writeln!(s, "(set-option :timeout {ms})");
        }
        s.push_str(&qy.text);
        match tactic { None => s.push_str("(check-sat)\n"), Some(t) => { let _ = writeln!(s, "(check-sat-using {t})"); } }
        s.push_str("(echo \"<done>\")\n");
        let mut sent = { let (_, i, _) = self.proc.as_mut().unwrap(); i.write_all(s.as_bytes()).and_then(|_| i.flush()).is_ok() };
        if !sent { self.kill(); self.start(); let (_, i, _) = self.proc.as_mut().unwrap(); sent = i.write_all(s.as_bytes()).and_then(|_| i.flush()).is_ok(); }
        if !sent { self.kill(); return Res::Unknown("solver died".into()); }
        let lines = match self.read(if cvc { ms + 100 } else { ms + 4000 }) { Some(l) => l, None => { self.kill(); return Res::Unknown("hard timeout".into()); } };
        if let Some(e) = lines.iter().find(|l| l.contains("(error")) { return Res::Unknown(e.clone()); }
        match lines.first().map(|x| x.as_str()) {
            Some("unsat") => Res::Unsat,
            Some("sat") => {
                let mut m = HashMap::new();
                if want_model && !qy.vars.is_empty() {
                    let names: Vec<&str> = qy.vars.iter().map(|v| v.1.as_str()).collect();
                    let g = format!("(get-value ({}))\n(echo \"<done>\")\n", names.join(" "));
                    let (_, i, _) = self.proc.as_mut().unwrap();
                    let _ = i.write_all(g.as_bytes()).and_then(|_| i.flush());
                    let l = match self.read(20000) { Some(l) => l.join(" "), None => { self.kill(); return Res::Unknown("model timeout".into()); } };
                    match parse_values(&l) {
                        Some(vs) => for ((id, _), v) in qy.vars.iter().zip(vs) { m.insert(*id, v); },
                        None => return Res::Unknown(format!("unparsed model {}", &l[..l.len().min(300)])),
                    }
                }
                Res::Sat(m)
            }
            Some(x) => Res::Unknown(x.to_string()),
            None => Res::Unknown("no answer".into()),
        }
    }
    fn read(&mut self, ms: u64) -> Option<Vec<String>> {
        let (_, _, rx) = self.proc.as_mut().unwrap();
        let end = Instant::now() + Duration::from_millis(ms);
        let mut v = vec![];
        loop {
            let now = Instant::now();
            if now >= end { return None; }
            match rx.recv_timeout(end - now) {
                Ok(l) => { if l.contains("<done>") { return Some(v); } v.push(l); }
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Solver { fn drop(&mut self) { self.kill(); } }

#[derive(Debug, Clone)]
enum Sx { A(String), L(Vec<Sx>) }
fn sexpr(s: &str) -> Option<Sx> {
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => { st.push(vec![]); i += 1; }
            b')' => { let l = st.pop()?; st.last_mut()?.push(Sx::L(l)); i += 1; }
            c if c.is_ascii_whitespace() => i += 1,
            _ => { let j = i; while i < b.len() && !b"() \t\n".contains(&b[i]) { i += 1; } st.last_mut()?.push(Sx::A(s[j..i].to_string())); }
        }
    }
    st.pop()?.into_iter().next()
}
fn sx_val(x: &Sx) -> Option<Val> {
    match x {
        Sx::A(a) => {
            if let Some(h) = a.strip_prefix("#x") { return Some(Val::I(u128::from_str_radix(h, 16).ok()?)); }
            if let Some(h) = a.strip_prefix("#b") { return Some(Val::I(u128::from_str_radix(h, 2).ok()?)); }
            a.trim_end_matches('?').parse().ok().map(Val::F)
        }
        Sx::L(l) => {
            let f = |i: usize| -> Option<f64> { match sx_val(l.get(i)?)? { Val::F(x) => Some(x), Val::I(_) => None } };
            match l.first()? {
                Sx::A(a) if a == "-" && l.len() == 2 => Some(Val::F(-f(1)?)),
                Sx::A(a) if a == "/" => Some(Val::F(f(1)? / f(2)?)),
                Sx::A(a) if a == "+" => Some(Val::F(f(1)? + f(2)?)),
                Sx::A(a) if a == "*" => Some(Val::F(f(1)? * f(2)?)),
                Sx::A(a) if a == "fp" => {
                    let g = |i: usize| -> Option<u128> { match sx_val(l.get(i)?)? { Val::I(x) => Some(x), _ => None } };
                    Some(Val::F(f64::from_bits(((g(1)? as u64) << 63) | ((g(2)? as u64) << 52) | g(3)? as u64)))
                }
                Sx::A(a) if a == "_" => match l.get(1)? {
                    Sx::A(b) if b.starts_with("bv") => b[2..].parse().ok().map(Val::I),
                    Sx::A(b) if b == "+zero" || b == "-zero" => Some(Val::F(0.0)),
                    Sx::A(b) if b == "+oo" => Some(Val::F(f64::INFINITY)),
                    Sx::A(b) if b == "-oo" => Some(Val::F(f64::NEG_INFINITY)),
                    Sx::A(b) if b == "NaN" => Some(Val::F(f64::NAN)),
                    _ => None,
                },
                _ => None,
            }
        }
    }
}
fn parse_values(s: &str) -> Option<Vec<Val>> {
    let Sx::L(l) = sexpr(s)? else { return None };
    l.iter().map(|p| match p { Sx::L(kv) if kv.len() == 2 => sx_val(&kv[1]), _ => None }).collect()
}
pub fn rat_small(n: i64, d: i64) -> Rat { Ratio::new(BigInt::from(n), BigInt::from(d)) }
#[allow(dead_code)]
fn _unused() { let _ = Rat::zero(); }
impl Res { pub fn short(&self) -> &str { match self { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" } } }
