//! Symbolic interpreter for LLVM IR. One path is executed from the start under a tape of decisions; new alternatives are queued.
use crate::ir::*;
use crate::lower::*;
use crate::poly::Polys;
use crate::term::{self, sx, Arena, FOp, FUn, Tid, VarKind, B, N};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
}
type FxMap<K, W> = HashMap<K, W, BuildHasherDefault<Fx>>;

#[derive(Clone, Debug)]
pub enum V { I(u64), W(u128), F(f64), F32(f32), T(Tid), A(Rc<Vec<V>>) }

#[derive(Debug, Clone)]
pub enum Stop { Panic(String), Assume, Cut(String), Err(String), Done }
type X<A> = Result<A, Stop>;
fn err<A>(s: impl Into<String>) -> X<A> { Err(Stop::Err(s.into())) }

#[derive(Clone, Debug, PartialEq)]
pub enum D { Br(bool), Pick(u64), Val(u128), Asserted }

#[derive(Clone, Debug)]
pub enum InRec { Var(u32), Choice(u64) }

const FN_BASE: u64 = 0x1000_0000;
const GL_BASE: u64 = 0x1_0000_0000;
const HP_BASE: u64 = 0x2_0000_0000;
const ST_BASE: u64 = 0x3_0000_0000;
const K: u32 = 0x8000_0000;

pub struct Layout {
    pub gaddr: HashMap<String, u64>,
    pub fnames: Vec<String>,
    pub faddr: HashMap<String, u64>,
    pub image: Vec<u8>,
    pub objs: Vec<(u64, u64, bool)>, // start, end, constant
}

impl Layout {
    pub fn new(m: &Module) -> Layout {
        let mut l = Layout { gaddr: HashMap::new(), fnames: vec![], faddr: HashMap::new(), image: vec![], objs: vec![] };
        let mut names: Vec<String> = m.fns.keys().cloned().collect();
        names.sort();
        names.extend(m.decls.iter().cloned());
        for n in names {
            let a = FN_BASE + 16 * l.fnames.len() as u64;
            l.faddr.entry(n.clone()).or_insert(a);
            l.fnames.push(n);
        }
        let mut at = GL_BASE + 64;
        for (n, g) in &m.globals {
            let al = g.align.max(1);
            at = (at + al - 1) / al * al;
            l.gaddr.insert(n.clone(), at);
            let sz = g.ty.size().max(1);
            l.objs.push((at, at + g.ty.size(), g.constant));
            at += sz + 16;
        }
        l.image = vec![0; (at - GL_BASE) as usize];
        for (n, g) in &m.globals {
            if let Some(c) = &g.init {
                let mut off = (l.gaddr[n] - GL_BASE) as usize;
                let mut img = std::mem::take(&mut l.image);
                l.write(m, &mut img, &mut off, &g.ty, c);
                l.image = img;
            }
        }
        l
    }
    fn write(&self, m: &Module, img: &mut [u8], off: &mut usize, t: &Ty, c: &C) {
        let at = *off;
        match (t, c) {
            (_, C::Zero) | (_, C::Undef) | (_, C::Null) => {}
            (_, C::Bytes(b)) => img[at..at + b.len()].copy_from_slice(b),
            (Ty::Struct(..), C::Agg(v)) => for (i, (ft, fc)) in v.iter().enumerate() { let (o, _) = t.field_off(i as u64); let mut p = at + o as usize; self.write(m, img, &mut p, ft, fc); },
            (Ty::Array(..) | Ty::Vector(..), C::Agg(v)) => for (i, (ft, fc)) in v.iter().enumerate() { let mut p = at + i * ft.size() as usize; self.write(m, img, &mut p, ft, fc); },
            (Ty::Double, C::F64(f)) => img[at..at + 8].copy_from_slice(&f.to_le_bytes()),
            (Ty::Float, C::F32(f)) => img[at..at + 4].copy_from_slice(&f.to_le_bytes()),
            _ => {
                let v = self.cint(m, c);
                let n = t.size() as usize;
                img[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        *off = at + t.size() as usize;
    }
    pub fn cint(&self, m: &Module, c: &C) -> u128 {
        match c {
            C::Int(v) => *v,
            C::Zero | C::Undef | C::Null => 0,
            C::Global(g) => self.addr(m, g) as u128,
            C::Cast(c) => self.cint(m, c),
            C::BinSub(a, b) => (self.cint(m, a) as u64).wrapping_sub(self.cint(m, b) as u64) as u128,
            C::BinAdd(a, b) => (self.cint(m, a) as u64).wrapping_add(self.cint(m, b) as u64) as u128,
            C::Gep(t, b, idx) => {
                let mut a = self.cint(m, b) as u64;
                let mut cur = t.clone();
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let i = sx(self.cint(m, ic), it.width()) as i64;
                    if k == 0 { a = a.wrapping_add((i * cur.size() as i64) as u64); } else {
                        match &cur {
                            Ty::Array(_, e) => { let e = (**e).clone(); a = a.wrapping_add((i * e.size() as i64) as u64); cur = e; }
                            _ => { let (o, ft) = cur.field_off(i as u64); a += o; cur = ft; }
                        }
                    }
                }
                a as u128
            }
            x => panic!("constant {:?}", x),
        }
    }
    pub fn addr(&self, m: &Module, g: &str) -> u64 {
        if let Some(a) = self.gaddr.get(g) { return *a; }
        if let Some(a) = self.faddr.get(g) { return *a; }
        if let Some(b) = m.aliases.get(g) { return self.addr(m, b); }
        panic!("unknown global {g}")
    }
    pub fn cval(&self, m: &Module, t: &Ty, c: &C) -> V {
        match (t, c) {
            (Ty::Double, C::F64(f)) => V::F(*f),
            (Ty::Float, C::F32(f)) => V::F32(*f),
            (Ty::Int(w), C::Zero | C::Undef | C::Null) => if *w > 64 { V::W(0) } else { V::I(0) },
            (Ty::Double, _) => V::F(0.0),
            (Ty::Float, _) => V::F32(0.0),
            (Ty::Int(w), _) if *w > 64 => V::W(self.cint(m, c)),
            (Ty::Int(_) | Ty::Ptr, _) => V::I(self.cint(m, c) as u64),
            (_, C::Agg(v)) => V::A(Rc::new(v.iter().map(|(t, c)| self.cval(m, t, c)).collect())),
            (Ty::Array(..) | Ty::Vector(..), C::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
            (Ty::Vector(n, _) | Ty::Array(n, _), C::Splat(t, c)) => V::A(Rc::new(vec![self.cval(m, t, c); *n as usize])),
            (Ty::Vector(n, e) | Ty::Array(n, e), _) => V::A(Rc::new(vec![self.cval(m, e, &C::Zero); *n as usize])),
            (Ty::Struct(fs, _), _) => V::A(Rc::new(fs.iter().map(|f| self.cval(m, f, &C::Zero)).collect())),
            _ => V::I(0),
        }
    }
}

struct Region { base: u64, data: Vec<u8>, bits: Vec<u64> }
impl Region {
    fn new(base: u64) -> Region { Region { base, data: vec![], bits: vec![] } }
    fn grow(&mut self, n: usize) { if n > self.data.len() { self.data.resize(n.next_power_of_two().max(4096), 0); let k = self.data.len() / 64 + 1; self.bits.resize(k, 0); } }
    fn reset(&mut self) { self.data.fill(0); self.bits.fill(0); }
    fn any(&self, o: usize, n: usize) -> bool {
        let (a, b) = (o / 64, (o + n - 1) / 64);
        if n <= 64 {
            let mut w = self.bits[a] >> (o % 64);
            if b != a { w |= self.bits[b] << (64 - o % 64); }
            return w & (if n == 64 { u64::MAX } else { (1 << n) - 1 }) != 0;
        }
        if self.bits[a..=b].iter().all(|x| *x == 0) { return false; }
        (o..o + n).any(|i| self.bits[i / 64] >> (i % 64) & 1 == 1)
    }
    fn set(&mut self, i: usize, v: bool) { if v { self.bits[i / 64] |= 1 << (i % 64) } else { self.bits[i / 64] &= !(1 << (i % 64)) } }
}

pub struct CFunc { pub f: Func, pub k: Vec<V>, pub callees: Vec<Option<u32>> }

#[derive(Clone, Debug, Default)]
pub struct Config { pub fp: bool, pub round: bool, pub max_forks: u64, pub feas_ms: u64, pub assert_ms: u64, pub float_ite: bool, pub max_concr: u64, pub steps: u64, pub declared: bool }

#[derive(Clone, Debug)]
pub struct Ce { pub harness: String, pub what: String, pub inputs: Vec<String>, pub pretty: Vec<String>, pub replay_out: String }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub panics: u64, pub assumed_out: u64, pub cuts: u64,
    pub asserts: u64, pub proved_solver: u64, pub proved_syntactic: u64, pub queries: u64, pub solver_time: f64, pub cache_hits: u64,
    pub decisions: u64, pub branches_unknown: u64, pub steps: u64, pub ops_exact: u64, pub ops_inexact: u64, pub snapped: u64,
    pub funcs: BTreeSet<String>, pub reached: BTreeMap<String, u64>, pub cut_reasons: BTreeMap<String, u64>, pub errors: BTreeMap<String, u64>,
    pub undecided: BTreeMap<String, u64>, pub witnesses: Vec<(Vec<String>, Vec<String>)>, pub assert_ids: BTreeMap<String, u64>,
    pub violations: Vec<Ce>, pub unreproduced: Vec<Ce>, pub nonlinear: u64, pub expected_panics: u64, pub samples: Vec<String>, pub max_query: (f64, String), pub nf_paths: u64,
    pub witness_ok: u64, pub completed: u64, pub witness_bad: Vec<String>, pub cong: u64,
}

pub struct Shared {
    pub m: Arc<Module>,
    pub lay: Arc<Layout>,
    pub queue: Mutex<(Vec<Vec<D>>, usize)>,
    pub cv: std::sync::Condvar,
    pub stats: Mutex<Stats>,
    pub cache: Mutex<HashMap<u128, Res>>,
    pub stop: AtomicBool,
    pub started: AtomicU64,
    pub deadline: std::time::Instant,
    pub harness: String,
    pub replay: Option<(Vec<(String, String)>,)>, // list of (driver, lib)
    pub dump: Option<String>,
    pub max_paths: u64, pub cut_tries: AtomicU64,
    pub deep: bool,
    pub seed: u64,
}

pub struct Exec<'s> {
    pub sh: &'s Shared,
    funcs: Vec<Option<Rc<CFunc>>>,
    fidx: HashMap<String, u32>,
    pub ar: Arena,
    pub ps: Polys,
    ps0: Polys,
    gl: Region, hp: Region, st: Region,
    hp_top: u64, st_top: u64,
    sizes: FxMap<u64, u64>,
    ov: FxMap<u64, (Tid, u8)>,
    pub tape: Vec<D>,
    pos: usize,
    pub pc: Vec<Tid>,
    decided: FxMap<Tid, bool>,
    subst: FxMap<Tid, u128>,
    pub inputs: Vec<InRec>,
    pub cfg: Config,
    forks: u64,
    steps: u64,
    pub expect_panic: bool,
    on_refusal: Option<(u32, u64)>,
    pub nf: bool,
    pub solver: Solver,
    pub solver2: Solver,
    vars_memo: FxMap<Tid, Rc<Vec<u32>>>,
    pub local: Stats,
    pub asserted_ids: Vec<String>,
    depth: u32,
    trace: bool,
    no_more: bool,
}

macro_rules! bail { ($($x:tt)*) => { return err(format!($($x)*)) } }

fn hash128(s: &str) -> u128 {
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for c in s.as_bytes().chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        let v = u64::from_le_bytes(x);
        a = (a ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (a >> 31);
        b = (b.rotate_left(17) ^ v).wrapping_mul(0xff51afd7ed558ccd);
        b ^= b >> 29;
    }
    (a as u128) << 64 | b as u128 ^ s.len() as u128
}

impl<'s> Exec<'s> {
    pub fn new(sh: &'s Shared) -> Exec<'s> {
        let n = sh.lay.fnames.len();
        let fidx = sh.lay.fnames.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
        let mut s2 = Solver::new();
        s2.cmd = vec!["cvc5".into(), "--lang=smt2".into(), "--incremental".into(), "--produce-models".into(), "--nl-ext-tplanes".into(), "-q".into()];
        Exec {
            sh, funcs: vec![None; n], fidx, ar: Arena::new(), ps: Polys::new(), ps0: Polys::new(), gl: Region::new(GL_BASE), hp: Region::new(HP_BASE), st: Region::new(ST_BASE),
            hp_top: 0, st_top: 0, sizes: Default::default(), ov: Default::default(), tape: vec![], pos: 0, pc: vec![], decided: Default::default(), subst: Default::default(),
            inputs: vec![], cfg: Config::default(), forks: 0, steps: 0, expect_panic: false, on_refusal: None, nf: false, solver: Solver::new(), solver2: s2, vars_memo: Default::default(), local: Stats::default(),
            asserted_ids: vec![], depth: 0, trace: std::env::var("ENGINE_TRACE").is_ok(), no_more: false,
        }
    }
    pub fn run_path(&mut self, tape: Vec<D>) -> Stop {
        self.ar = Arena::new();
        self.ps = Polys::new();
        self.ps0 = Polys::new();
        self.gl.grow(self.sh.lay.image.len());
        self.gl.reset();
        let n = self.sh.lay.image.len();
        self.gl.data[..n].copy_from_slice(&self.sh.lay.image);
        self.hp.reset();
        self.st.reset();
        self.hp_top = HP_BASE + 64;
        self.st_top = ST_BASE + 64;
        self.sizes.clear();
        self.ov.clear();
        self.tape = tape;
        self.pos = 0;
        self.pc.clear();
        self.decided.clear();
        self.subst.clear();
        self.inputs.clear();
        self.cfg = Config { feas_ms: 1500, assert_ms: 20000, max_forks: 4000, max_concr: 64, steps: 400_000_000, ..Default::default() };
        self.forks = 0;
        self.steps = 0;
        self.expect_panic = false;
        self.on_refusal = None;
        self.nf = false;
        self.vars_memo.clear();
        self.asserted_ids.clear();
        self.depth = 0;
        self.no_more = false;
        let h = self.sh.harness.clone();
        let Some(f) = self.fidx.get(&h).copied() else { return Stop::Err(format!("no harness {h}")) };
        let mut r = match self.call(f, vec![]) { Ok(_) => Stop::Done, Err(s) => s };
        if let (Stop::Panic(_), true, Some((f, p))) = (&r, self.expect_panic, self.on_refusal.take()) {
            // the demanded refusal: the harness inspects the state it left behind
            self.expect_panic = false;
            match self.call(f, vec![V::I(p)]) { Ok(_) => self.expect_panic = true, Err(s) => r = s }
        }
        self.local.steps += self.steps;
        self.local.ops_exact += self.ar.ops_exact;
        self.local.ops_inexact += self.ar.ops_inexact;
        self.local.snapped += self.ps.snapped;
        r
    }
    // ---------------------------------------------------------------- functions
    fn func(&mut self, i: u32) -> Rc<CFunc> {
        if let Some(f) = &self.funcs[i as usize] { return f.clone(); }
        let name = &self.sh.lay.fnames[i as usize];
        let mut f = self.sh.m.parse_fn(name);
        let mut ks: Vec<V> = vec![];
        let (m, l) = (self.sh.m.clone(), self.sh.lay.clone());
        let mut cv = |t: &Ty, o: &mut Opd| {
            if let Opd::C(c) = o {
                ks.push(l.cval(&m, t, c));
                *o = Opd::Reg(K | (ks.len() as u32 - 1));
            }
        };
        let mut callees = vec![];
        for b in &mut f.blocks {
            for (_, t, inc) in &mut b.phis { for (o, _) in inc { cv(t, o); } }
            for i in &mut b.insts {
                match i {
                    Inst::Bin(_, _, t, a, b) | Inst::FBin(_, _, t, a, b) | Inst::ICmp(_, _, t, a, b) | Inst::FCmp(_, _, t, a, b) => { cv(t, a); cv(t, b); }
                    Inst::FNeg(_, t, a) | Inst::Cast(_, _, t, _, a) | Inst::Freeze(_, t, a) | Inst::ExtractValue(_, t, a, _) => cv(t, a),
                    Inst::Load(_, _, a) => cv(&Ty::Ptr, a),
                    Inst::Store(t, v, a) => { cv(t, v); cv(&Ty::Ptr, a); }
                    Inst::Gep(_, a, _, idx) => { cv(&Ty::Ptr, a); for (t, o, _) in idx { cv(t, o); } }
                    Inst::Alloca(_, _, _, Some((t, o))) => cv(t, o),
                    Inst::Select(_, ct, t, c, a, b) => { cv(ct, c); cv(t, a); cv(t, b); }
                    Inst::Call(_, cal, args, _, _) => {
                        if let Callee::Ind(o) = cal { cv(&Ty::Ptr, o); }
                        for (t, o) in args { cv(t, o); }
                    }
                    Inst::CondBr(c, _, _) => cv(&Ty::Int(1), c),
                    Inst::Switch(t, o, _, _) => cv(t, o),
                    Inst::Ret(Some((t, o))) => cv(t, o),
                    Inst::InsertValue(_, t, a, t2, b, _) => { cv(t, a); cv(t2, b); }
                    Inst::ExtractElement(_, t, a, it, i) => { cv(t, a); cv(it, i); }
                    Inst::InsertElement(_, t, a, et, e, it, i) => { cv(t, a); cv(et, e); cv(it, i); }
                    Inst::Shuffle(_, t, a, b, mt, mm) => { cv(t, a); cv(t, b); cv(mt, mm); }
                    Inst::CmpXchg(_, t, a, c, n) => { cv(&Ty::Ptr, a); cv(t, c); cv(t, n); }
                    Inst::Rmw(_, _, t, a, v) => { cv(&Ty::Ptr, a); cv(t, v); }
                    _ => {}
                }
                if let Inst::Call(_, Callee::Named(n), ..) = i {
                    let n = m.aliases.get(n).unwrap_or(n);
                    callees.push(self.fidx.get(n).copied());
                } else { callees.push(None); }
            }
        }
        let _ = &callees;
        let r = Rc::new(CFunc { f, k: ks, callees });
        self.funcs[i as usize] = Some(r.clone());
        let nm = r.f.pretty.clone();
        if !nm.is_empty() && !nm.starts_with("core::") && !nm.starts_with("std::") && !nm.starts_with("alloc::") && !nm.starts_with('<') { self.local.funcs.insert(nm); }
        else if nm.starts_with('<') && (nm.contains("financelib") || nm.contains("chrono")) { self.local.funcs.insert(nm); }
        r
    }
    fn call(&mut self, fi: u32, args: Vec<V>) -> X<V> {
        let name = self.sh.lay.fnames[fi as usize].clone();
        if let Some(r) = self.intercept(&name, &args)? { return Ok(r); }
        if !self.sh.m.fns.contains_key(&name) { bail!("external function {name}"); }
        let cf = self.func(fi);
        self.depth += 1;
        if self.depth > 400 { bail!("call depth"); }
        let sp = self.st_top;
        let r = self.exec(&cf, args);
        // after a panic the frames stay as they are, for a harness that inspects them
        if !matches!(r, Err(Stop::Panic(_))) { self.st_top = sp; }
        self.depth -= 1;
        r
    }
    fn exec(&mut self, cf: &CFunc, args: Vec<V>) -> X<V> {
        let f = &cf.f;
        if self.trace { eprintln!("{:indent$}call {}", "", if f.pretty.is_empty() { &f.name } else { &f.pretty }, indent = self.depth as usize); }
        let mut r: Vec<V> = vec![V::I(0); f.nregs as usize];
        for ((id, _), a) in f.params.iter().zip(args) { r[*id as usize] = a; }
        let mut bi = 0usize;
        let mut prev = 0u32;
        macro_rules! g { ($o:expr) => { match $o { Opd::Reg(i) => if *i & K != 0 { &cf.k[(*i & !K) as usize] } else { &r[*i as usize] }, _ => panic!("operand") } } }
        'blocks: loop {
            let b = &f.blocks[bi];
            if !b.phis.is_empty() {
                let mut tmp = Vec::with_capacity(b.phis.len());
                for (d, _, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.1 == prev).expect("phi").0;
                    tmp.push((*d, g!(o).clone()));
                }
                for (d, v) in tmp { r[d as usize] = v; }
            }
            macro_rules! goto { ($l:expr) => {{ prev = bi as u32; bi = $l as usize; continue 'blocks; }} }
            self.steps += b.insts.len() as u64;
            if self.steps > self.cfg.steps { return err("step limit"); }
            for ins in &b.insts {
                match ins {
                    Inst::Bin(o, d, t, a, c) => { let (x, y) = (g!(a), g!(c)); let v = self.bin(*o, t, x, y)?; r[*d as usize] = v; }
                    Inst::ICmp(p, d, t, a, c) => { let (x, y) = (g!(a), g!(c)); let v = self.icmp(p, t, x, y)?; r[*d as usize] = v; }
                    Inst::FBin(o, d, t, a, c) => { let (x, y) = (g!(a).clone(), g!(c).clone()); let v = self.fbin_v((*o).into(), t, &x, &y)?; r[*d as usize] = v; }
                    Inst::FCmp(p, d, t, a, c) => { let (x, y) = (g!(a).clone(), g!(c).clone()); let v = self.fcmp(p, t, &x, &y)?; r[*d as usize] = v; }
                    Inst::FNeg(d, t, a) => { let x = g!(a).clone(); let v = self.funv(FUn::Neg, t, &x)?; r[*d as usize] = v; }
                    Inst::Cast(o, d, t, t2, a) => { let x = g!(a).clone(); let v = self.cast(*o, t, t2, &x)?; r[*d as usize] = v; }
                    Inst::Load(d, t, a) => { let p = g!(a).clone(); let v = self.load_v(t, &p)?; r[*d as usize] = v; }
                    Inst::Store(t, v, a) => { let (p, v) = (g!(a).clone(), g!(v).clone()); let p = self.conc(&p, 64)? as u64; self.store(t, p, &v)?; }
                    Inst::Gep(d, a, off, idx) => {
                        let base = g!(a);
                        let v = if let (V::I(b), true) = (base, idx.iter().all(|(_, o, _)| matches!(g!(o), V::I(_)))) {
                            let mut p = b.wrapping_add(*off);
                            for (t, o, sz) in idx { if let V::I(i) = g!(o) { p = p.wrapping_add((sx(*i as u128, t.width()) as u64).wrapping_mul(*sz)); } }
                            V::I(p)
                        } else {
                            let base = base.clone();
                            let ix: Vec<(Ty, V, u64)> = idx.iter().map(|(t, o, s)| (t.clone(), g!(o).clone(), *s)).collect();
                            let mut p = self.tm(&base, 64);
                            let o = self.ar.bc(*off as u128, 64);
                            p = self.ar.bin(B::Add, p, o);
                            for (t, v, s) in ix {
                                let x = self.tm(&v, t.width());
                                let x = self.ar.sext(x, 64);
                                let s = self.ar.bc(s as u128, 64);
                                let x = self.ar.bin(B::Mul, x, s);
                                p = self.ar.bin(B::Add, p, x);
                            }
                            self.wrap(p)
                        };
                        r[*d as usize] = v;
                    }
                    Inst::Alloca(d, sz, al, cnt) => {
                        let n = match cnt { Some((_, o)) => { let v = g!(o).clone(); self.conc(&v, 64)? as u64 } None => 1 };
                        let al = (*al).max(16);
                        self.st_top = (self.st_top + al - 1) / al * al;
                        let p = self.st_top;
                        self.st_top += sz * n + 16;
                        let need = (self.st_top - ST_BASE) as usize;
                        if need > 64 << 20 { bail!("stack overflow"); }
                        self.st.grow(need);
                        r[*d as usize] = V::I(p);
                    }
                    Inst::Select(d, ct, t, c, a, e) => {
                        let (c, a, e) = (g!(c).clone(), g!(a).clone(), g!(e).clone());
                        r[*d as usize] = self.select(ct, t, &c, &a, &e)?;
                    }
                    Inst::Call(d, cal, args, rt, normal) => {
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args { if let Opd::Meta = o { av.push(V::I(0)) } else { av.push(g!(o).clone()) } }
                        let v = match cal {
                            Callee::Named(n) => {
                                if n.starts_with("llvm.") { self.intrinsic(n, args, av, rt)? } else {
                                    let n2 = self.sh.m.aliases.get(n).unwrap_or(n);
                                    let fi = match self.fidx.get(n2) { Some(i) => *i, None => bail!("unknown callee {n}") };
                                    self.call(fi, av)?
                                }
                            }
                            Callee::Ind(o) => {
                                let p = g!(o).clone();
                                let p = self.conc(&p, 64)? as u64;
                                if p < FN_BASE || (p - FN_BASE) / 16 >= self.sh.lay.fnames.len() as u64 { bail!("bad function pointer {p:#x} in {}", f.name); }
                                self.call(((p - FN_BASE) / 16) as u32, av)?
                            }
                            Callee::Asm(s) => if s.is_empty() || s.starts_with('|') { V::I(0) } else { bail!("asm {s}") },
                        };
                        if let Some(d) = d { r[*d as usize] = v; }
                        if let Some(l) = normal { goto!(*l); }
                    }
                    Inst::Br(l) => goto!(*l),
                    Inst::CondBr(c, a, e) => {
                        let c = g!(c).clone();
                        if self.truth(&c)? { goto!(*a) } else { goto!(*e) }
                    }
                    Inst::Switch(t, o, def, cases) => {
                        let v = g!(o).clone();
                        let l = match &v {
                            V::I(x) => cases.iter().find(|c| c.0 as u64 == *x).map(|c| c.1).unwrap_or(*def),
                            V::W(x) => cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*def),
                            V::T(x) => {
                                let w = t.width();
                                let mut res = None;
                                // group the cases by target
                                let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                                for (c, l) in cases { match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1.push(*c), None => groups.push((*l, vec![*c])) } }
                                for (l, cs) in groups {
                                    let mut e = term::F;
                                    for c in cs { let k = self.ar.bc(c, w); let x = if self.ar.is_bool(*x) { self.ar.bool(c == 1); let q = self.ar.bool(c == 1); self.ar.booleq(*x, q) } else { self.ar.eq(*x, k) }; e = self.ar.or(e, x); }
                                    if self.decide(e)? { res = Some(l); break; }
                                }
                                res.unwrap_or(*def)
                            }
                            _ => bail!("switch operand"),
                        };
                        goto!(l)
                    }
                    Inst::Ret(None) => return Ok(V::I(0)),
                    Inst::Ret(Some((_, o))) => return Ok(g!(o).clone()),
                    Inst::Unreachable => bail!("unreachable in {}", f.name),
                    Inst::ExtractValue(d, _, a, idx) => {
                        let mut v = g!(a).clone();
                        for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => bail!("extractvalue") }; }
                        r[*d as usize] = v;
                    }
                    Inst::InsertValue(d, _, a, _, v, idx) => {
                        fn ins(a: &V, v: V, idx: &[u64]) -> V {
                            if idx.is_empty() { return v; }
                            match a { V::A(x) => { let mut y = (**x).clone(); y[idx[0] as usize] = ins(&x[idx[0] as usize], v, &idx[1..]); V::A(Rc::new(y)) } _ => panic!("insertvalue") }
                        }
                        let n = ins(g!(a), g!(v).clone(), idx);
                        r[*d as usize] = n;
                    }
                    Inst::ExtractElement(d, _, a, _, i) => {
                        let i = g!(i).clone();
                        let i = self.conc(&i, 64)? as usize;
                        let v = match g!(a) { V::A(x) => x[i].clone(), _ => bail!("extractelement") };
                        r[*d as usize] = v;
                    }
                    Inst::InsertElement(d, _, a, _, e, _, i) => {
                        let i = g!(i).clone();
                        let i = self.conc(&i, 64)? as usize;
                        let mut x = match g!(a) { V::A(x) => (**x).clone(), _ => bail!("insertelement") };
                        x[i] = g!(e).clone();
                        r[*d as usize] = V::A(Rc::new(x));
                    }
                    Inst::Shuffle(d, _, a, c, _, mm) => {
                        let (V::A(x), V::A(y), V::A(m)) = (g!(a), g!(c), g!(mm)) else { bail!("shuffle") };
                        let o = m.iter().map(|k| match k { V::I(k) => { let k = *k as usize; if k < x.len() { x[k].clone() } else { y[(k - x.len()).min(y.len() - 1)].clone() } } _ => V::I(0) }).collect();
                        r[*d as usize] = V::A(Rc::new(o));
                    }
                    Inst::Freeze(d, _, a) => { let v = g!(a).clone(); r[*d as usize] = v; }
                    Inst::CmpXchg(d, t, a, c, n) => {
                        let (p, c, n) = (g!(a).clone(), g!(c).clone(), g!(n).clone());
                        let p = self.conc(&p, 64)? as u64;
                        let old = self.load(t, p)?;
                        let e = self.icmp("eq", t, &old, &c)?;
                        let ok = self.truth(&e)?;
                        if ok { self.store(t, p, &n)?; }
                        r[*d as usize] = V::A(Rc::new(vec![old, V::I(ok as u64)]));
                    }
                    Inst::Rmw(o, d, t, a, v) => {
                        let (p, v) = (g!(a).clone(), g!(v).clone());
                        let p = self.conc(&p, 64)? as u64;
                        let old = self.load(t, p)?;
                        let nv = match o.as_str() {
                            "xchg" => v,
                            "add" => self.bin(BinOp::Add, t, &old, &v)?,
                            "sub" => self.bin(BinOp::Sub, t, &old, &v)?,
                            "and" => self.bin(BinOp::And, t, &old, &v)?,
                            "or" => self.bin(BinOp::Or, t, &old, &v)?,
                            "xor" => self.bin(BinOp::Xor, t, &old, &v)?,
                            x => bail!("atomicrmw {x}"),
                        };
                        self.store(t, p, &nv)?;
                        r[*d as usize] = old;
                    }
                    Inst::Nop => {}
                }
            }
            bail!("fell off a block in {}", f.name);
        }
    }
    // ---------------------------------------------------------------- values
    pub fn tm(&mut self, v: &V, w: u32) -> Tid {
        match v {
            V::I(x) => if w == 1 { self.ar.bool(x & 1 == 1) } else { self.ar.bc(*x as u128, w) },
            V::W(x) => self.ar.bc(*x, w),
            V::F(f) => self.ar.fc(*f),
            V::T(t) => self.resolve(*t),
            _ => panic!("tm of {:?}", v),
        }
    }
    /// the arm of a conditional value whose condition has been decided on this path
    fn resolve(&mut self, mut t: Tid) -> Tid {
        loop {
            if let Some(v) = self.subst.get(&t) { let w = self.ar.width(t); return self.ar.bc(*v, w); }
            match self.ar.n[t as usize] {
                N::Ite(c, a, b) => match self.decided.get(&c) { Some(true) => t = a, Some(false) => t = b, None => return t },
                _ => return t,
            }
        }
    }
    pub fn wrap(&mut self, t: Tid) -> V {
        match &self.ar.n[t as usize] {
            N::True => V::I(1),
            N::False => V::I(0),
            N::BC(v, w) => if *w <= 64 { V::I(*v as u64) } else { V::W(*v) },
            N::FC(b) => V::F(f64::from_bits(*b)),
            _ => {
                if let Some(v) = self.subst.get(&t) { let w = self.ar.width(t); return if w <= 64 { V::I(*v as u64) } else { V::W(*v) }; }
                if let Some(b) = self.decided.get(&t) { return V::I(*b as u64); }
                if let N::Ite(c, a, b) = self.ar.n[t as usize] { if let Some(d) = self.decided.get(&c) { let x = if *d { a } else { b }; return self.wrap(x); } }
                V::T(t)
            }
        }
    }
    fn truth(&mut self, v: &V) -> X<bool> {
        match v {
            V::I(x) => Ok(x & 1 == 1),
            V::T(t) => { let t = *t; let t = if self.ar.is_bool(t) { t } else { self.ar.trunc(t, 1) }; self.decide(t) }
            _ => err("truth"),
        }
    }
    fn bin(&mut self, o: BinOp, t: &Ty, x: &V, y: &V) -> X<V> {
        if let (V::I(a), V::I(b), Ty::Int(w)) = (x, y, t) {
            if matches!(o, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *b == 0 { bail!("division by zero"); }
            return Ok(V::I(term::bin_c(o.into(), *a as u128, *b as u128, *w) as u64));
        }
        if let (Ty::Vector(n, e), V::A(a), V::A(b)) = (t, x, y) {
            let (a, b) = (a.clone(), b.clone());
            let mut out = vec![];
            for i in 0..*n as usize { out.push(self.bin(o, e, &a[i], &b[i])?); }
            return Ok(V::A(Rc::new(out)));
        }
        let w = t.width();
        if let (V::W(a), V::W(b)) = (x, y) { return Ok(V::W(term::bin_c(o.into(), *a, *b, w))); }
        let (a, b) = (self.tm(x, w), self.tm(y, w));
        let r = self.ar.bin(o.into(), a, b);
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, p: &str, t: &Ty, x: &V, y: &V) -> X<V> {
        if let (V::I(a), V::I(b)) = (x, y) {
            let w = t.width();
            let (sa, sb) = (sx(*a as u128, w), sx(*b as u128, w));
            return Ok(V::I(match p { "eq" => a == b, "ne" => a != b, "ult" => a < b, "ule" => a <= b, "ugt" => a > b, "uge" => a >= b, "slt" => sa < sb, "sle" => sa <= sb, "sgt" => sa > sb, "sge" => sa >= sb, _ => bail!("icmp {p}") } as u64));
        }
        if let (Ty::Vector(n, e), V::A(a), V::A(b)) = (t, x, y) {
            let (a, b) = (a.clone(), b.clone());
            let mut out = vec![];
            for i in 0..*n as usize { out.push(self.icmp(p, e, &a[i], &b[i])?); }
            return Ok(V::A(Rc::new(out)));
        }
        let w = t.width();
        let (a, b) = (self.tm(x, w), self.tm(y, w));
        let a = if w > 1 && self.ar.is_fl(a) { self.ar.f_to_bits(a) } else { a };
        let b = if w > 1 && self.ar.is_fl(b) { self.ar.f_to_bits(b) } else { b };
        if w == 1 && !matches!(p, "eq" | "ne") {
            let (za, zb) = (self.ar.zext(a, 8), self.ar.zext(b, 8));
            let (p2, za, zb) = match p { "slt" => ("ult", zb, za), "sgt" => ("ugt", zb, za), "sle" => ("ule", zb, za), "sge" => ("uge", zb, za), q => (q, za, zb) };
            let (va, vb) = (V::T(za), V::T(zb));
            return self.icmp(p2, &Ty::Int(8), &va, &vb);
        }
        let r = match p {
            "eq" => self.ar.eq(a, b),
            "ne" => { let e = self.ar.eq(a, b); self.ar.not(e) }
            "ult" => self.ar.ult(a, b), "ugt" => self.ar.ult(b, a), "ule" => self.ar.ule(a, b), "uge" => self.ar.ule(b, a),
            "slt" => self.ar.slt(a, b), "sgt" => self.ar.slt(b, a), "sle" => self.ar.sle(a, b), "sge" => self.ar.sle(b, a),
            _ => bail!("icmp {p}"),
        };
        Ok(self.wrap(r))
    }
    // ---------------------------------------------------------------- floats
    fn fbin_v(&mut self, o: FOp, t: &Ty, x: &V, y: &V) -> X<V> {
        match (t, x, y) {
            (Ty::Vector(n, e), V::A(a), V::A(b)) => {
                let mut out = vec![];
                for i in 0..*n as usize { out.push(self.fbin_v(o, e, &a[i], &b[i])?); }
                return Ok(V::A(Rc::new(out)));
            }
            (Ty::Float, V::F32(a), V::F32(b)) => return Ok(V::F32(match o { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b, FOp::Pow => a.powf(*b) })),
            _ => {}
        }
        self.fop(o, x, y)
    }
    fn sign(&mut self, t: Tid) -> X<i32> {
        let z = self.ar.fc(0.0);
        let e = self.ar.feq(t, z);
        if self.decide(e)? { return Ok(0); }
        let p = self.ar.flt(z, t);
        Ok(if self.decide(p)? { 1 } else { -1 })
    }
    fn fop(&mut self, o: FOp, x: &V, y: &V) -> X<V> {
        if let (V::F(a), V::F(b)) = (x, y) {
            if !a.is_finite() || !b.is_finite() { return Ok(V::F(match o { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b, FOp::Pow => a.powf(*b) })); }
        }
        let (a, b) = (self.tm(x, 64), self.tm(y, 64));
        let z = self.ar.fc(0.0);
        if !self.cfg.fp {
            let (sa, sb) = (self.ar.shadow(a), self.ar.shadow(b));
            let inf = |s: Option<f64>| matches!(s, Some(c) if c.is_infinite());
            if o == FOp::Mul && (inf(sa) && sb.is_none() || inf(sb) && sa.is_none()) {
                let (i, t) = if inf(sa) { (sa.unwrap(), b) } else { (sb.unwrap(), a) };
                let s = self.sign(t)?;
                return Ok(V::F(i * s as f64));
            }
            if o == FOp::Div && inf(sa) && sb.is_none() { let s = self.sign(b)?; return Ok(V::F(if s >= 0 { sa.unwrap() } else { -sa.unwrap() })); }
            match o {
                FOp::Div | FOp::Rem if sb.is_none() => {
                    let e = self.ar.feq(b, z);
                    if self.decide(e)? {
                        self.nf = true;
                        if o == FOp::Rem { return Ok(V::F(f64::NAN)); }
                        let s = match sa { Some(s) => if s.is_nan() || s == 0.0 { 0 } else { s.signum() as i32 }, None => self.sign(a)? };
                        return Ok(V::F(match s { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY }));
                    }
                }
                FOp::Div if sb == Some(0.0) && sa.is_none() => {
                    self.nf = true;
                    let s = self.sign(a)?;
                    return Ok(V::F(match s { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY }));
                }
                FOp::Pow => {
                    if let (Some(p), Some(q)) = (sa, sb) {
                        if !p.is_finite() || !q.is_finite() || p <= 0.0 { return Ok(V::F(p.powf(q))); }
                    } else if let Some(q) = self.ar.as_fc(b) {
                        if q.is_nan() || q.is_infinite() { bail!("symbolic base to a non-finite power"); }
                        if q.fract() == 0.0 && q.abs() < 1000.0 {
                            if q < 0.0 { let e = self.ar.feq(a, z); if self.decide(e)? { self.nf = true; return Ok(V::F(f64::INFINITY)); } }
                        } else if let Some(v) = self.pow_guard(a, b)? { return Ok(v); }
                    } else if let Some(v) = self.pow_guard(a, b)? { return Ok(v); }
                }
                _ => {}
            }
        }
        let r = self.ar.fbin(o, a, b);
        Ok(self.wrap(r))
    }
    fn pow_guard(&mut self, a: Tid, b: Tid) -> X<Option<V>> {
        let s = match self.ar.shadow(a) {
            Some(p) => { if !p.is_finite() { bail!("non-finite constant to a symbolic power"); } p.partial_cmp(&0.0).map(|x| x as i32).unwrap_or(0) }
            None => self.sign(a)?,
        };
        if s > 0 { return Ok(None); }
        self.nf = true;
        if s == 0 {
            let sb = match self.ar.shadow(b) { Some(c) => c.partial_cmp(&0.0).map(|x| x as i32).unwrap_or(0), None => self.sign(b)? };
            return Ok(Some(V::F(match sb { 0 => 1.0, 1 => 0.0, _ => f64::INFINITY })));
        }
        Ok(Some(V::F(f64::NAN)))
    }
    /// integer value (64-bit term) of a rounding of a float that is an integer combination of integers plus a small rest
    fn round_int(&mut self, o: FUn, a: Tid) -> X<Option<Tid>> {
        if self.cfg.fp || self.ar.shadow(a).is_some() { return Ok(None); }
        let o = if o == FUn::Trunc { if self.ar.frange(a).0 >= 0.0 { FUn::Floor } else { return Ok(None) } } else { o };
        let Ok(p) = self.ps0.poly(&self.ar, a) else { return Ok(None) };
        let mut y: Option<Tid> = None;
        let mut rest = (*p).clone();
        for (m, c) in &p.0 {
            if m.0.len() != 1 || !c.is_integer() || m.0[0].1 != crate::poly::q(1) { continue; }
            let Some(k) = num_traits::ToPrimitive::to_i64(&c.to_integer()) else { continue };
            if k.abs() > 1 << 20 { continue; }
            let crate::poly::Atom::I2F(t) = self.ps0.atoms[m.0[0].0 as usize] else { continue };
            let signed = self.ps0.ainfo[m.0[0].0 as usize].lo < 0.0;
            if self.ar.width(t) > 64 { continue; }
            let mut x = if signed { self.ar.sext(t, 64) } else { self.ar.zext(t, 64) };
            if k != 1 { let kk = self.ar.bc(k as u64 as u128, 64); x = self.ar.bin(B::Mul, x, kk); }
            y = Some(match y { None => x, Some(z) => self.ar.bin(B::Add, z, x) });
            rest.0.remove(m);
        }
        let (lo, hi) = self.ps0.ival(&rest);
        if !(hi - lo <= 8.0) || !lo.is_finite() { return Ok(None); }
        let (d, y) = match y {
            None => (a, self.ar.bc(0, 64)),
            Some(y) => { let f = self.ar.si_to_fp(y, true); (self.ar.fbin(FOp::Sub, a, f), y) }
        };
        let c0 = (lo - 1e-6).floor() as i64;
        let c1 = (hi + 1e-6).ceil() as i64;
        let off = match o { FUn::Floor => 0.0, FUn::Ceil => -1.0, FUn::Round => -0.5, _ => return Ok(None) };
        // lower end: must be impossible
        let b0 = self.ar.fc(c0 as f64 + off);
        let out = match o { FUn::Floor => self.ar.flt(d, b0), _ => self.ar.fle(d, b0) };
        if self.decide(out)? { return Ok(None); }
        for k in c0..=c1 {
            let b = self.ar.fc(k as f64 + 1.0 + off);
            let c = match o { FUn::Ceil => self.ar.fle(d, b), _ => self.ar.flt(d, b) };
            if self.decide(c)? {
                let kk = self.ar.bc(k as u64 as u128, 64);
                return Ok(Some(self.ar.bin(B::Add, y, kk)));
            }
            if o == FUn::Round { let e = self.ar.fle(d, b); if self.decide(e)? { return Ok(None); } }
        }
        Ok(None)
    }
    fn funv(&mut self, o: FUn, t: &Ty, x: &V) -> X<V> {
        if let (Ty::Vector(_, e), V::A(a)) = (t, x) { let mut out = vec![]; for v in a.iter() { out.push(self.funv(o, e, v)?); } return Ok(V::A(Rc::new(out))); }
        if let V::F32(f) = x { return Ok(V::F32(match o { FUn::Neg => -f, FUn::Abs => f.abs(), _ => return err("f32 function") })); }
        let a = self.tm(x, 64);
        if !self.cfg.fp && self.ar.shadow(a).is_none() {
            match o {
                FUn::Ln | FUn::Sqrt => {
                    if self.ar.frange(a).0 <= 0.0 {
                        let s = self.sign(a)?;
                        if s == 0 { if o == FUn::Sqrt { return Ok(V::F(0.0)); } self.nf = true; return Ok(V::F(f64::NEG_INFINITY)); }
                        if s < 0 { self.nf = true; return Ok(V::F(f64::NAN)); }
                    }
                }
                FUn::Ln1p => { let one = self.ar.fc(1.0); let b = self.ar.fbin(FOp::Add, a, one); let v = self.wrap(b); return self.funv(FUn::Ln, t, &v); }
                FUn::Abs if false => {}
                _ => {}
            }
        }
        if matches!(o, FUn::Floor | FUn::Ceil | FUn::Round | FUn::Trunc) {
            if let Some(y) = self.round_int(o, a)? { let r = self.ar.si_to_fp(y, true); return Ok(self.wrap(r)); }
        }
        let r = self.ar.fun(o, a);
        Ok(self.wrap(r))
    }
    fn fcmp(&mut self, p: &str, t: &Ty, x: &V, y: &V) -> X<V> {
        if let (Ty::Vector(n, e), V::A(a), V::A(b)) = (t, x, y) {
            let mut out = vec![];
            for i in 0..*n as usize { out.push(self.fcmp(p, e, &a[i], &b[i])?); }
            return Ok(V::A(Rc::new(out)));
        }
        let f = |v: &V| match v { V::F(f) => Some(*f), V::F32(f) => Some(*f as f64), _ => None };
        let nan = matches!(f(x), Some(c) if c.is_nan()) || matches!(f(y), Some(c) if c.is_nan());
        let un = p.starts_with('u') && p != "uno" || p == "uno";
        if nan { return Ok(V::I((un || p == "true") as u64)); }
        match p { "ord" => return Ok(V::I(1)), "uno" => return Ok(V::I(0)), "true" => return Ok(V::I(1)), "false" => return Ok(V::I(0)), _ => {} }
        if let (Some(a), Some(b)) = (f(x), f(y)) {
            return Ok(V::I(match &p[1..] { "eq" => a == b, "ne" => a != b, "gt" => a > b, "ge" => a >= b, "lt" => a < b, "le" => a <= b, _ => bail!("fcmp {p}") } as u64));
        }
        let (a, b) = (self.tm(x, 64), self.tm(y, 64));
        let r = match &p[1..] {
            "eq" => self.ar.feq(a, b),
            "ne" => { let e = self.ar.feq(a, b); self.ar.not(e) }
            "gt" => self.ar.flt(b, a), "ge" => self.ar.fle(b, a), "lt" => self.ar.flt(a, b), "le" => self.ar.fle(a, b),
            _ => bail!("fcmp {p}"),
        };
        Ok(self.wrap(r))
    }
    fn select(&mut self, ct: &Ty, t: &Ty, c: &V, a: &V, e: &V) -> X<V> {
        if let (Ty::Vector(n, _), V::A(cs)) = (ct, c) {
            let et = match t { Ty::Vector(_, e) => (**e).clone(), _ => bail!("vector select") };
            let (V::A(x), V::A(y)) = (a, e) else { bail!("vector select") };
            let mut out = vec![];
            for i in 0..*n as usize { out.push(self.select(&Ty::Int(1), &et, &cs[i], &x[i], &y[i])?); }
            return Ok(V::A(Rc::new(out)));
        }
        let ctid = match c { V::I(x) => return Ok(if x & 1 == 1 { a.clone() } else { e.clone() }), V::T(t) => *t, _ => bail!("select") };
        match t {
            Ty::Int(w) => {
                let (x, y) = (self.tm(a, *w), self.tm(e, *w));
                if *w > 1 && (self.ar.is_fl(x) || self.ar.is_fl(y)) { return Ok(if self.decide(ctid)? { a.clone() } else { e.clone() }); }
                let r = self.ar.ite(ctid, x, y);
                Ok(self.wrap(r))
            }
            Ty::Ptr => {
                let (x, y) = (self.tm(a, 64), self.tm(e, 64));
                let r = self.ar.ite(ctid, x, y);
                Ok(self.wrap(r))
            }
            Ty::Double if self.cfg.fp || self.cfg.float_ite => {
                let (x, y) = (self.tm(a, 64), self.tm(e, 64));
                let r = self.ar.ite(ctid, x, y);
                Ok(self.wrap(r))
            }
            _ => Ok(if self.decide(ctid)? { a.clone() } else { e.clone() }),
        }
    }
    // ---------------------------------------------------------------- casts
    fn to_bits(&mut self, t: &Ty, v: &V) -> X<Vec<u8>> {
        Ok(match (t, v) {
            (Ty::Int(w), V::I(x)) => x.to_le_bytes()[..((*w + 7) / 8) as usize].to_vec(),
            (Ty::Int(w), V::W(x)) => x.to_le_bytes()[..((*w + 7) / 8) as usize].to_vec(),
            (Ty::Ptr, V::I(x)) => x.to_le_bytes().to_vec(),
            (Ty::Double, V::F(f)) => f.to_le_bytes().to_vec(),
            (Ty::Float, V::F32(f)) => f.to_le_bytes().to_vec(),
            (Ty::Vector(_, e), V::A(vs)) => {
                if let Ty::Int(1) = **e {
                    let mut o = vec![0u8; (vs.len() + 7) / 8];
                    for (i, v) in vs.iter().enumerate() { match v { V::I(x) => o[i / 8] |= ((x & 1) as u8) << (i % 8), _ => bail!("symbolic vector mask") } }
                    o
                } else { let mut o = vec![]; for v in vs.iter() { o.extend(self.to_bits(e, v)?); } o }
            }
            _ => bail!("to_bits {:?} {:?}", t, v),
        })
    }
    fn from_bits(&mut self, t: &Ty, b: &[u8]) -> X<V> {
        let u = |b: &[u8]| { let mut x = [0u8; 16]; x[..b.len().min(16)].copy_from_slice(&b[..b.len().min(16)]); u128::from_le_bytes(x) };
        Ok(match t {
            Ty::Int(w) => if *w <= 64 { V::I(mask(u(b), *w) as u64) } else { V::W(mask(u(b), *w)) },
            Ty::Ptr => V::I(u(b) as u64),
            Ty::Double => V::F(f64::from_bits(u(b) as u64)),
            Ty::Float => V::F32(f32::from_bits(u(b) as u32)),
            Ty::Vector(n, e) => {
                let mut o = vec![];
                if let Ty::Int(1) = **e { for i in 0..*n as usize { o.push(V::I((b[i / 8] >> (i % 8) & 1) as u64)); } } else {
                    let s = e.size() as usize;
                    for i in 0..*n as usize { o.push(self.from_bits(e, &b[i * s..(i + 1) * s])?); }
                }
                V::A(Rc::new(o))
            }
            _ => bail!("from_bits {:?}", t),
        })
    }
    fn cast(&mut self, o: CastOp, t: &Ty, t2: &Ty, x: &V) -> X<V> {
        if o == CastOp::Bit {
            if let V::T(a) = x {
                let a = *a;
                return Ok(match (t, t2) {
                    (Ty::Double, Ty::Int(64)) => { let r = self.ar.f_to_bits(a); self.wrap(r) }
                    (Ty::Int(64), Ty::Double) => { if self.ar.is_fl(a) { x.clone() } else { let r = self.ar.f_of_bits(a); self.wrap(r) } }
                    _ if t == t2 => x.clone(),
                    _ => bail!("bitcast {:?} {:?}", t, t2),
                });
            }
            if let (V::A(vs), Ty::Vector(_, e1), Ty::Vector(_, e2)) = (x, t, t2) { if e1 == e2 { return Ok(V::A(vs.clone())); } }
            let b = self.to_bits(t, x)?;
            return self.from_bits(t2, &b);
        }
        if let (Ty::Vector(_, e), Ty::Vector(_, e2), V::A(vs)) = (t, t2, x) {
            let mut out = vec![];
            for v in vs.iter() { out.push(self.cast(o, e, e2, v)?); }
            return Ok(V::A(Rc::new(out)));
        }
        let ww = |t: &Ty| match t { Ty::Int(w) => *w, _ => 64 };
        match o {
            CastOp::Trunc | CastOp::ZExt | CastOp::SExt => {
                let (w, w2) = (ww(t), ww(t2));
                let c = match x { V::I(v) => Some(*v as u128), V::W(v) => Some(*v), _ => None };
                if let Some(v) = c {
                    let r = match o { CastOp::SExt => mask(sx(v, w) as u128, w2), _ => mask(v, w2) };
                    return Ok(if w2 <= 64 { V::I(r as u64) } else { V::W(r) });
                }
                let mut a = self.tm(x, w);
                if self.ar.is_fl(a) { a = self.ar.f_to_bits(a); }
                let r = match o { CastOp::Trunc => self.ar.trunc(a, w2), CastOp::ZExt => self.ar.zext(a, w2), _ => self.ar.sext(a, w2) };
                Ok(self.wrap(r))
            }
            CastOp::SiToFp | CastOp::UiToFp => {
                let s = o == CastOp::SiToFp;
                if let Ty::Float = t2 { return match x { V::I(v) => Ok(V::F32(if s { sx(*v as u128, ww(t)) as f32 } else { *v as f32 })), _ => err("f32 conversion") }; }
                let a = self.tm(x, ww(t));
                let r = self.ar.si_to_fp(a, s);
                Ok(self.wrap(r))
            }
            CastOp::FpToSi | CastOp::FpToUi => {
                if let V::F32(f) = x { return Ok(V::I(mask(*f as i64 as u128, ww(t2)) as u64)); }
                self.fp_to_int(x, ww(t2), o == CastOp::FpToSi)
            }
            CastOp::FpTrunc => match x { V::F(f) => Ok(V::F32(*f as f32)), _ => err("fptrunc of a symbolic value") },
            CastOp::FpExt => match x { V::F32(f) => Ok(V::F(*f as f64)), _ => err("fpext") },
            CastOp::Bit => unreachable!(),
        }
    }
    fn fp_to_int(&mut self, x: &V, w: u32, signed: bool) -> X<V> {
        let mut a = self.tm(x, 64);
        if !self.cfg.fp && !matches!(self.ar.n[a as usize], N::SiToFp(_) | N::UiToFp(_)) {
            if let Some(y) = self.round_int(FUn::Trunc, a)? { a = self.ar.si_to_fp(y, true); }
        }
        let r = self.ar.fp_to_i(a, w, signed);
        Ok(self.wrap(r))
    }
    // ---------------------------------------------------------------- memory
    fn region(&mut self, a: u64, n: u64) -> X<(&mut Region, usize)> {
        let r = if a >= ST_BASE { &mut self.st } else if a >= HP_BASE { &mut self.hp } else { &mut self.gl };
        if a < r.base || (a - r.base + n) as usize > r.data.len() { return Err(Stop::Err(format!("bad address {a:#x}+{n}"))); }
        let o = (a - r.base) as usize;
        Ok((r, o))
    }
    fn load_v(&mut self, t: &Ty, p: &V) -> X<V> {
        match p {
            V::I(a) => self.load(t, *a),
            V::T(x) => {
                if let Ty::Int(_) = t { if let Some(v) = self.table_load(t, *x)? { return Ok(v); } }
                let a = self.conc(p, 64)? as u64;
                self.load(t, a)
            }
            _ => err("load address"),
        }
    }
    /// a number dividing every value of the term (as an unsigned integer)
    fn factor(&self, t: Tid, memo: &mut FxMap<Tid, u128>) -> u128 {
        if let Some(r) = memo.get(&t) { return *r; }
        let p2 = |x: u128| if x == 0 { 0 } else { 1u128 << x.trailing_zeros().min(40) };
        let lim = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let r = match &self.ar.n[t as usize] {
            N::BC(v, _) => *v,
            N::Bin(o @ (B::Mul | B::Add), a, b) => {
                let (x, y) = (self.factor(*a, memo), self.factor(*b, memo));
                let (p, q) = (self.ar.ur(*a).1, self.ar.ur(*b).1);
                let mx = if *o == B::Mul { p.checked_mul(q) } else { p.checked_add(q) };
                let r = if *o == B::Mul { { let z = x.saturating_mul(y); if z > 1 << 40 { p2(x).saturating_mul(p2(y)).min(1 << 40) } else { z } } } else { num_integer::gcd(x, y) };
                if mx.map(|m| m <= lim(self.ar.width(t))).unwrap_or(false) { r } else { p2(r) }
            }
            N::Ite(_, a, b) => num_integer::gcd(self.factor(*a, memo), self.factor(*b, memo)),
            N::ZExt(a, _) => self.factor(*a, memo),
            N::SExt(a, _) => p2(self.factor(*a, memo)).max(1),
            _ => 1,
        };
        memo.insert(t, r);
        r
    }
    fn table_load(&mut self, t: &Ty, p: Tid) -> X<Option<V>> {
        let Some(m) = self.model_value(p)? else { return Err(Stop::Assume) };
        let a = m as u64;
        let Some(&(s, e, _)) = self.sh.lay.objs.iter().find(|o| a >= o.0 && a < o.1) else { return Ok(None) };
        // p = C + rest with rest a multiple of f
        let (c, rest) = match self.ar.n[p as usize] {
            N::Bin(B::Add, x, y) if self.ar.as_bc(y).is_some() => (self.ar.as_bc(y).unwrap() as u64, x),
            _ => return Ok(None),
        };
        let f = (self.factor(rest, &mut Default::default()) as u64).max(1);
        let idx = if f == 1 { rest } else { match self.ar.n[rest as usize] {
            N::Bin(B::Mul, x, y) if self.ar.as_bc(y) == Some(f as u128) => x,
            _ => { let k = self.ar.bc(f as u128, 64); self.ar.bin(B::UDiv, rest, k) }
        } };
        let n = (t.width() as u64 + 7) / 8;
        // index range: addresses within the object
        let (ilo, ihi) = self.ar.ur(idx);
        let fits = |i: i128| { let ad = (c as i128) + i * f as i128; ad >= s as i128 && ad + n as i128 <= e as i128 };
        let lo = if c >= s { 0 } else { ((s - c + f - 1) / f) as i128 };
        if c > e { return Ok(None); }
        let lo = lo.max(ilo.min(i64::MAX as u128) as i128);
        let hi = ((e - n) as i128 - c as i128).div_euclid(f as i128).min(ihi.min(i64::MAX as u128) as i128);
        if hi < lo || !fits(lo) || !fits(hi) || hi - lo > 8192 { return Ok(None); }
        let mut vals = vec![0u64; hi as usize + 1];
        for i in lo..=hi {
            match self.load(t, (c as i128 + i * f as i128) as u64)? { V::I(v) => vals[i as usize] = v, _ => return Ok(None) }
        }
        for i in 0..lo as usize { vals[i] = vals[lo as usize]; }
        // the program is memory safe, so the index is inside the object
        if (self.ar.ur(idx).1 as i128) > hi || (self.ar.ur(idx).0 as i128) < lo {
            let k = self.ar.bc(hi as u128, 64);
            let inb = self.ar.ule(idx, k);
            let inb2 = { let k = self.ar.bc(lo as u128, 64); self.ar.ule(k, idx) };
            let inb = self.ar.and(inb, inb2);
            if !self.decide(inb)? { bail!("symbolic load outside its object"); }
        }
        if let N::ZExt(x, _) = self.ar.n[idx as usize] {
            let r = self.ar.table(x, Rc::new(vals), t.width());
            return Ok(Some(self.wrap(r)));
        }
        let r = self.ar.table(idx, Rc::new(vals), t.width());
        Ok(Some(self.wrap(r)))
    }
    fn load(&mut self, t: &Ty, a: u64) -> X<V> {
        match t {
            Ty::Struct(fs, _) => {
                let mut out = vec![];
                for i in 0..fs.len() { let (o, ft) = t.field_off(i as u64); out.push(self.load(&ft, a + o)?); }
                return Ok(V::A(Rc::new(out)));
            }
            Ty::Array(n, e) => { let mut out = vec![]; for i in 0..*n { out.push(self.load(e, a + i * e.size())?); } return Ok(V::A(Rc::new(out))); }
            Ty::Vector(n, e) if **e != Ty::Int(1) => { let mut out = vec![]; for i in 0..*n { out.push(self.load(e, a + i * e.size())?); } return Ok(V::A(Rc::new(out))); }
            _ => {}
        }
        let n = match t { Ty::Int(w) => (*w as u64 + 7) / 8, _ => t.size() };
        let (r, o) = self.region(a, n)?;
        if !r.any(o, n as usize) {
            let mut x = [0u8; 16];
            x[..n as usize].copy_from_slice(&r.data[o..o + n as usize]);
            let v = u128::from_le_bytes(x);
            return Ok(match t {
                Ty::Int(w) => if *w <= 64 { V::I(mask(v, *w) as u64) } else { V::W(mask(v, *w)) },
                Ty::Ptr => V::I(v as u64),
                Ty::Double => V::F(f64::from_bits(v as u64)),
                Ty::Float => V::F32(f32::from_bits(v as u32)),
                Ty::Vector(..) => { let b = x[..n as usize].to_vec(); self.from_bits(t, &b)? }
                _ => bail!("load of {:?}", t),
            });
        }
        // symbolic bytes
        let first = self.ov.get(&a).copied();
        if let Some((tid, 0)) = first {
            if self.ar.width(tid) as u64 == n * 8 && (1..n).all(|k| matches!(self.ov.get(&(a + k)), Some((x, i)) if *x == tid && *i as u64 == k) && { let (r, o) = self.region(a + k, 1).unwrap(); r.any(o, 1) }) {
                let fl = self.ar.is_fl(tid);
                let r = match t {
                    Ty::Double => if fl { tid } else { self.ar.f_of_bits(tid) },
                    Ty::Int(w) => { let b = if fl { self.ar.f_to_bits(tid) } else { tid }; self.ar.trunc(b, *w) }
                    Ty::Ptr => tid,
                    _ => bail!("symbolic load of {:?}", t),
                };
                return Ok(self.wrap(r));
            }
        }
        let mut acc: Option<Tid> = None;
        for k in 0..n {
            let sym = { let (r, o) = self.region(a + k, 1)?; if r.any(o, 1) { None } else { Some(r.data[o]) } };
            let piece = match sym {
                Some(b) => self.ar.bc(b as u128, 8),
                None => {
                    let (tid, i) = self.ov[&(a + k)];
                    let b = if self.ar.is_fl(tid) { self.ar.f_to_bits(tid) } else { tid };
                    self.ar.extract(b, 8 * i as u32, 8)
                }
            };
            acc = Some(match acc { None => piece, Some(l) => self.ar.concat(piece, l) });
        }
        let r = acc.unwrap();
        let r = match t { Ty::Double => self.ar.f_of_bits(r), Ty::Int(w) => self.ar.trunc(r, *w), Ty::Ptr => r, _ => bail!("symbolic load of {:?}", t) };
        Ok(self.wrap(r))
    }
    fn write_bytes(&mut self, a: u64, b: &[u8]) -> X<()> {
        if b.is_empty() { return Ok(()); }
        let (r, o) = self.region(a, b.len() as u64)?;
        r.data[o..o + b.len()].copy_from_slice(b);
        if r.any(o, b.len()) { for i in 0..b.len() { r.set(o + i, false); } }
        Ok(())
    }
    fn store(&mut self, t: &Ty, a: u64, v: &V) -> X<()> {
        match (t, v) {
            (Ty::Struct(fs, _), V::A(x)) => { for i in 0..fs.len() { let (o, ft) = t.field_off(i as u64); let y = x[i].clone(); self.store(&ft, a + o, &y)?; } return Ok(()); }
            (Ty::Array(n, e), V::A(x)) => { for i in 0..*n { self.store(e, a + i * e.size(), &x[i as usize])?; } return Ok(()); }
            (Ty::Vector(n, e), V::A(x)) if **e != Ty::Int(1) => { for i in 0..*n { self.store(e, a + i * e.size(), &x[i as usize])?; } return Ok(()); }
            (_, V::T(tid)) => {
                let n = match t { Ty::Int(w) => (*w as u64 + 7) / 8, _ => t.size() };
                let mut tid = *tid;
                if self.ar.is_bool(tid) { tid = self.ar.zext(tid, 8); }
                if !self.ar.is_fl(tid) && (self.ar.width(tid) as u64) < n * 8 { tid = self.ar.zext(tid, n as u32 * 8); }
                if let N::FToBits(x) = self.ar.n[tid as usize] { tid = x; }
                for k in 0..n { self.ov.insert(a + k, (tid, k as u8)); }
                let (r, o) = self.region(a, n)?;
                for k in 0..n as usize { r.set(o + k, true); }
                return Ok(());
            }
            _ => {}
        }
        let b = self.to_bits(t, v)?;
        self.write_bytes(a, &b)
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s { return Ok(()); }
        let (bytes, any) = { let (r, o) = self.region(s, n)?; (r.data[o..o + n as usize].to_vec(), r.any(o, n as usize)) };
        if !any { return self.write_bytes(d, &bytes); }
        let mut syms = vec![];
        for k in 0..n {
            let (r, o) = self.region(s + k, 1)?;
            if r.any(o, 1) { syms.push((k, self.ov[&(s + k)])); }
        }
        self.write_bytes(d, &bytes)?;
        for (k, e) in syms {
            self.ov.insert(d + k, e);
            let (r, o) = self.region(d + k, 1)?;
            r.set(o, true);
        }
        Ok(())
    }
    fn malloc(&mut self, n: u64, al: u64) -> X<u64> {
        let al = al.max(16);
        self.hp_top = (self.hp_top + al - 1) / al * al;
        let p = self.hp_top;
        self.hp_top += n.max(1) + 16;
        let need = (self.hp_top - HP_BASE) as usize;
        if need > 512 << 20 { bail!("heap exhausted"); }
        self.hp.grow(need);
        self.sizes.insert(p, n);
        Ok(p)
    }
    pub fn cstr(&mut self, p: u64, n: u64) -> X<String> {
        let (r, o) = self.region(p, n)?;
        Ok(String::from_utf8_lossy(&r.data[o..o + n as usize]).to_string())
    }
    // ---------------------------------------------------------------- decisions
    fn vars_of(&mut self, t: Tid) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&t) { return v.clone(); }
        let mut ks = vec![];
        self.ar.kids(t, &mut |k| ks.push(k));
        let mut set: BTreeSet<u32> = BTreeSet::new();
        match self.ar.n[t as usize] { N::FVar(i) | N::BVar(i, _) => { set.insert(i); } _ => {} }
        for k in ks { for x in self.vars_of(k).iter() { set.insert(*x); } }
        let r = Rc::new(set.into_iter().collect::<Vec<_>>());
        self.vars_memo.insert(t, r.clone());
        r
    }
    fn slice(&mut self, extra: &[Tid]) -> Vec<Tid> {
        let mut vs: BTreeSet<u32> = BTreeSet::new();
        for t in extra { for v in self.vars_of(*t).iter() { vs.insert(*v); } }
        let pc = self.pc.clone();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, t) in pc.iter().enumerate() {
                if used[i] { continue; }
                let tv = self.vars_of(*t);
                if tv.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; for v in tv.iter() { vs.insert(*v); } }
            }
            if !ch { break; }
        }
        let mut out: Vec<Tid> = pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
        out.extend_from_slice(extra);
        out.dedup();
        out
    }
    fn lower(&mut self, ts: &[Tid]) -> Result<Query, String> {
        if self.cfg.fp { return fp_query(&self.ar, ts); }
        self.ps.round_mode = self.cfg.round;
        Lower::new(&self.ar, &mut self.ps).query(ts)
    }
    fn ask(&mut self, q: &Query, ms: u64, tactic: Option<&str>, model: bool) -> Res {
        let h = hash128(&q.text) ^ model as u128 ^ ((tactic.is_some() as u128) << 1);
        if let Some(r) = self.sh.cache.lock().unwrap().get(&h) { self.local.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        let r = self.solver.check(q, ms, tactic, model);
        let dt = t0.elapsed().as_secs_f64();
        if dt > self.local.max_query.0 { self.local.max_query = (dt, format!("{} bytes, answer {}", q.text.len(), match &r { Res::Sat(_) => "sat".into(), Res::Unsat => "unsat".to_string(), Res::Unknown(s) => format!("unknown ({s})") })); }
        if let Some(d) = &self.sh.dump { if dt > 0.3 || matches!(r, Res::Unknown(_)) { let _ = std::fs::write(format!("{d}/q{:x}.smt2", h as u64), format!("; {:?} {:.1}s\n{}(check-sat)\n", match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" }, dt, q.text)); } }
        if q.nonlinear { self.local.nonlinear += 1; }
        if !matches!(r, Res::Unknown(_)) { self.sh.cache.lock().unwrap().insert(h, r.clone()); }
        r
    }
    /// satisfiability of the path condition with extra conditions
    pub fn check(&mut self, extra: &[Tid], ms: u64, model: bool) -> Res {
        let ts = self.slice(extra);
        match self.lower(&ts) {
            Ok(q) => {
                if let Some(s) = self.local.samples.len().lt(&3).then(|| q.text.clone()) { if s.len() < 3000 { self.local.samples.push(s); } }
                match if q.has_real { self.integers(&q, &ts, 400) } else { None } {
                    Some(false) => return Res::Unsat,
                    Some(true) if !model => return Res::Sat(Default::default()),
                    _ => {}
                }
                self.ask(&q, ms, None, model)
            }
            Err(e) => Res::Unknown(format!("lowering: {e}")),
        }
    }
    /// attempt with bit-vectors read as mathematical integers: unsat is always sound, sat only when nothing was left out
    fn integers(&mut self, q: &Query, ts: &[Tid], ms: u64) -> Option<bool> {
        if !q.has_bv || self.cfg.fp { return None; }
        self.ps.round_mode = self.cfg.round;
        let mut l = Lower::new(&self.ar, &mut self.ps);
        l.relax = true;
        let q2 = l.query(ts).ok()?;
        let h = hash128(&q2.text);
        let c = self.sh.cache.lock().unwrap().get(&h).cloned();
        let r = match c.filter(|r| ms < 3000 || !matches!(r, Res::Unknown(_))) {
            Some(r) => { self.local.cache_hits += 1; r }
            None => {
                let t0 = std::time::Instant::now();
                let r = self.solver2.check(&q2, ms, None, false);
                if let Some(d) = &self.sh.dump { if t0.elapsed().as_secs_f64() > 0.4 || q2.opaque || matches!(r, Res::Unknown(_)) { let _ = std::fs::write(format!("{d}/i{:x}.smt2", h as u64), format!("; {:?} {}\n(set-logic ALL)\n{}(check-sat)\n", r, q2.opaque, q2.text)); } }
                self.sh.cache.lock().unwrap().insert(h, r.clone());
                r
            }
        };
        match r { Res::Unsat => Some(false), Res::Sat(_) if !q2.opaque => Some(true), _ => None }
    }
    /// harder attempt, for assertions
    pub fn check_hard(&mut self, extra: &[Tid]) -> Res {
        let ts = self.slice(extra);
        let q = match self.lower(&ts) { Ok(q) => q, Err(e) => return Res::Unknown(format!("lowering: {e}")) };
        if let Some(s) = self.local.samples.len().lt(&6).then(|| q.text.clone()) { if s.len() < 4000 { self.local.samples.push(s); } }
        let left = self.sh.deadline.saturating_duration_since(std::time::Instant::now()).as_millis() as u64;
        let ms = self.cfg.assert_ms.min(left.max(500));
        if let Some(false) = self.integers(&q, &ts, 8000) { return Res::Unsat; }
        let r = self.ask(&q, ms.min(4000), None, true);
        if !matches!(r, Res::Unknown(_)) { return r; }
        if q.has_bv { if let Some(false) = self.integers(&q, &ts, ms) { return Res::Unsat; } }
        if q.has_real && !q.has_bv && !self.cfg.fp {
            let r2 = self.ask(&q, ms, Some("(then simplify solve-eqs elim-uncnstr simplify qfnra-nlsat)"), true);
            if !matches!(r2, Res::Unknown(_)) { return r2; }
        }
        // only the extra conditions (sound for unsat)
        if q.has_real && !self.cfg.fp && ts.len() > extra.len() {
            if let Ok(q2) = self.lower(extra) {
                if let Res::Unsat = self.ask(&q2, ms.min(4000), None, false) { return Res::Unsat; }
                if !q2.has_bv { if let Res::Unsat = self.ask(&q2, ms, Some("(then simplify solve-eqs elim-uncnstr simplify qfnra-nlsat)"), false) { return Res::Unsat; } }
            }
        }
        let q3 = q;
        let r3 = self.solver2.check(&q3, ms, None, true);
        if !matches!(r3, Res::Unknown(_)) { return r3; }
        // last: long default attempt
        self.ask(&q3, ms, None, true)
    }
    fn push_alt(&mut self, d: D) {
        if self.no_more { return; }
        let mut t = self.tape[..self.pos].to_vec();
        t.push(d);
        let mut q = self.sh.queue.lock().unwrap();
        q.0.push(t);
        self.sh.cv.notify_one();
    }
    pub fn assume(&mut self, c: Tid, v: bool) {
        self.decided.insert(c, v);
        let n = self.ar.not(c);
        self.decided.insert(n, !v);
        let t = if v { c } else { n };
        // split conjunctions
        if let N::And(a, b) = self.ar.n[t as usize] { self.assume(a, true); self.assume(b, true); return; }
        if let N::Not(x) = self.ar.n[t as usize] { if let N::Or(a, b) = self.ar.n[x as usize] { self.assume(a, false); self.assume(b, false); return; } }
        if let N::Eq(a, b) = self.ar.n[t as usize] {
            if let Some(k) = self.ar.as_bc(b) { self.subst.insert(a, k); } else if let Some(k) = self.ar.as_bc(a) { self.subst.insert(b, k); }
        }
        if !self.pc.contains(&t) { self.pc.push(t); }
    }
    fn next_d(&mut self) -> Option<D> {
        if self.pos < self.tape.len() { self.pos += 1; Some(self.tape[self.pos - 1].clone()) } else { None }
    }
    fn log_d(&mut self, d: D) { self.tape.push(d); self.pos += 1; self.local.decisions += 1; }
    pub fn decide(&mut self, c: Tid) -> X<bool> {
        if c == term::T { return Ok(true); }
        if c == term::F { return Ok(false); }
        if let Some(b) = self.decided.get(&c) { return Ok(*b); }
        if let Some(d) = self.next_d() {
            let D::Br(b) = d else { bail!("tape mismatch: {:?}", d) };
            self.assume(c, b);
            return Ok(b);
        }
        self.forks += 1;
        if self.forks > self.cfg.max_forks { if self.cfg.declared { return Err(Stop::Cut("declared fork bound".into())); } else { return err("fork limit"); } }
        if std::time::Instant::now() > self.sh.deadline { return Err(Stop::Cut("deadline".into())); }
        let ms = self.cfg.feas_ms;
        let n = self.ar.not(c);
        let r1 = self.check(&[c], ms, false);
        if let Res::Unsat = r1 { self.log_d(D::Br(false)); self.assume(c, false); return Ok(false); }
        let r2 = self.check(&[n], ms, false);
        if let Res::Unsat = r2 { self.log_d(D::Br(true)); self.assume(c, true); return Ok(true); }
        if matches!(r1, Res::Unknown(_)) || matches!(r2, Res::Unknown(_)) { self.local.branches_unknown += 1; }
        if std::env::var("ENGINE_FORKS").is_ok() { let ts = self.slice(&[c]); eprintln!("FORK {:?} {:?}\n{}", r1.short(), r2.short(), self.lower(&ts).map(|q| q.text).unwrap_or_default()); }
        self.push_alt(D::Br(false));
        self.log_d(D::Br(true));
        self.assume(c, true);
        Ok(true)
    }
    fn eval_model(&self, t: Tid, m: &HashMap<u32, Val>, memo: &mut FxMap<Tid, Option<u128>>) -> Option<u128> {
        // bit-vector evaluation under a model (defaults to lower bounds)
        if let Some(v) = memo.get(&t) { return *v; }
        let w = self.ar.width(t);
        let mk = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        macro_rules! e { ($x:expr) => { self.eval_model($x, m, memo)? } }
        let r = match self.ar.n[t as usize].clone() {
            N::True => 1, N::False => 0,
            N::Not(a) => 1 - e!(a),
            N::And(a, b) => e!(a) & e!(b),
            N::Or(a, b) => e!(a) | e!(b),
            N::BoolEq(a, b) | N::Eq(a, b) => (e!(a) == e!(b)) as u128,
            N::Ult(a, b) => (e!(a) < e!(b)) as u128,
            N::Ule(a, b) => (e!(a) <= e!(b)) as u128,
            N::Slt(a, b) => { let wa = self.ar.width(a); (sx(e!(a), wa) < sx(e!(b), wa)) as u128 }
            N::Sle(a, b) => { let wa = self.ar.width(a); (sx(e!(a), wa) <= sx(e!(b), wa)) as u128 }
            N::BC(v, _) => v,
            N::BVar(id, w) => match m.get(&id) { Some(Val::I(x)) => *x, _ => if let VarKind::Bv { lo, .. } = self.ar.vars[id as usize].kind { lo as u128 & mk(w) } else { 0 } },
            N::Bin(o, a, b) => term::bin_c(o, e!(a), e!(b), w),
            N::ZExt(a, _) => e!(a),
            N::SExt(a, _) => { let wa = self.ar.width(a); sx(e!(a), wa) as u128 & mk(w) }
            N::Extract(a, lo, w) => e!(a) >> lo & mk(w),
            N::Concat(a, b) => { let wb = self.ar.width(b); e!(a) << wb | e!(b) }
            N::Ite(c, a, b) => if e!(c) == 1 { e!(a) } else { e!(b) },
            N::Table(i, v, _) => *v.get(e!(i) as usize)? as u128,
            _ => return None,
        };
        memo.insert(t, Some(r));
        Some(r)
    }
    /// some feasible value of a bit-vector term (None: the path is infeasible)
    fn model_value(&mut self, t: Tid) -> X<Option<u128>> {
        self.model_value_excl(t, &[])
    }
    fn model_value_excl(&mut self, t: Tid, excl: &[u128]) -> X<Option<u128>> {
        let w = self.ar.width(t);
        let mut ex = vec![];
        for v in excl { let k = self.ar.bc(*v, w); let e = self.ar.eq(t, k); let n = self.ar.not(e); if n == term::F { return Ok(None); } ex.push(n); }
        // make t appear in the query so that its variables are in the model
        if ex.is_empty() { let k = self.ar.bc(0xdead_beef_1234_5678u128 & ((1u128 << w.min(100)) - 1), w); let e = self.ar.eq(t, k); let n = self.ar.not(e); if n != term::T && n != term::F { ex.push(n); } }
        match self.check(&ex, 10000, true) {
            Res::Unsat => Ok(None),
            Res::Unknown(s) => err(format!("cannot enumerate values: {s}")),
            Res::Sat(m) => {
                if let Some(v) = self.eval_model(t, &m, &mut Default::default()) { return Ok(Some(v)); }
                // depends on floats: search by bits through the solver
                let (mut lo, mut hi) = self.ar.ur(t);
                let mut exs = ex.clone();
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let k = self.ar.bc(mid, w);
                    let c = self.ar.ule(t, k);
                    let mut e2 = exs.clone();
                    e2.push(c);
                    match self.check(&e2, 10000, false) { Res::Sat(_) => { hi = mid; } Res::Unsat => lo = mid + 1, Res::Unknown(s) => return err(format!("cannot enumerate values: {s}")) }
                }
                exs.clear();
                Ok(Some(lo))
            }
        }
    }
    /// concrete value of an integer; forks over all feasible values
    pub fn conc(&mut self, v: &V, w: u32) -> X<u128> {
        let t = match v { V::I(x) => return Ok(*x as u128), V::W(x) => return Ok(*x), V::T(t) => self.resolve(*t), _ => return err("conc") };
        let _ = w;
        if let Some(k) = self.ar.as_bc(t) { return Ok(k); }
        if self.ar.is_bool(t) { return Ok(self.decide(t)? as u128); }
        if let Some(k) = self.subst.get(&t) { return Ok(*k); }
        let w = self.ar.width(t);
        let fix = |s: &mut Self, v: u128| { let k = s.ar.bc(v, w); let e = s.ar.eq(t, k); s.assume(e, true); s.subst.insert(t, v); };
        if let Some(d) = self.next_d() {
            let D::Val(k) = d else { bail!("tape mismatch: {:?}", d) };
            fix(self, k);
            return Ok(k);
        }
        let mut vals = vec![];
        while let Some(x) = self.model_value_excl(t, &vals)? {
            vals.push(x);
            if vals.len() as u64 > self.cfg.max_concr { return err("too many values for a concretised integer"); }
        }
        if vals.is_empty() { return Err(Stop::Assume); }
        for x in &vals[1..] { self.push_alt(D::Val(*x)); }
        self.log_d(D::Val(vals[0]));
        fix(self, vals[0]);
        Ok(vals[0])
    }
    fn choice(&mut self, n: u64) -> X<u64> {
        if n == 0 { bail!("empty choice"); }
        if let Some(d) = self.next_d() {
            let D::Pick(k) = d else { bail!("tape mismatch: {:?}", d) };
            return Ok(k);
        }
        for k in (1..n).rev() { self.push_alt(D::Pick(k)); }
        self.log_d(D::Pick(0));
        Ok(0)
    }
    // ---------------------------------------------------------------- assertions
    /// the list of input values for a model
    pub fn concrete_inputs(&self, m: &HashMap<u32, Val>) -> (Vec<String>, Vec<String>) {
        let mut out = vec![];
        let mut pretty = vec![];
        for i in &self.inputs {
            match i {
                InRec::Choice(k) => { out.push(format!("i {k}")); pretty.push(format!("choice={k}")); }
                InRec::Var(id) => {
                    let v = &self.ar.vars[*id as usize];
                    match &v.kind {
                        VarKind::Real { lo, hi, grid } => {
                            let mut x = match m.get(id) { Some(Val::F(x)) => *x, _ => { if *lo <= 0.0 && *hi >= 1.0 { 1.0 } else { (lo + hi) / 2.0 } } };
                            if let Some(g) = grid { let s = 2f64.powi(*g); x = (x / s).round() * s; }
                            let x = x.max(*lo).min(*hi);
                            out.push(format!("f {:016x}", x.to_bits()));
                            pretty.push(format!("{}={:?}", v.name, x));
                        }
                        VarKind::Bv { w, lo, .. } => {
                            let x = match m.get(id) { Some(Val::I(x)) => if *lo < 0 { sx(*x, *w) } else { *x as i128 }, _ => *lo };
                            out.push(format!("i {x}"));
                            pretty.push(format!("{}={x}", v.name));
                        }
                    }
                }
            }
        }
        (out, pretty)
    }
    /// runs the compiled code on concrete inputs; Ok(Some(..)) when it fails the stated check in the same way
    fn replay(&self, inputs: &[String], what: &str) -> Option<String> {
        let Some((libs,)) = &self.sh.replay else { return Some("(no native replay configured)".into()) };
        let mut outs = vec![];
        let mut hit = false;
        for (drv, lib) in libs {
            let o = native(drv, lib, &self.sh.harness, inputs);
            let ok = if what.starts_with("panic") { o.contains("PANIC") } else { o.lines().any(|l| l == format!("FAIL {what}") || l.starts_with(&format!("FAIL {what} "))) || (o.contains("PANIC") && !self.expect_panic) };
            if ok { hit = true; }
            outs.push(format!("[{lib}]\n{o}"));
        }
        if hit { Some(outs.join("\n")) } else { None }
    }
    fn report_violation(&mut self, ce: Ce) {
        self.sh.stop.store(true, Ordering::SeqCst);
        eprintln!("VIOL {}", ce.json());
        self.local.violations.push(ce);
        self.sh.cv.notify_all();
    }
    /// search for a counterexample around a failing or undecided assertion by pinning inputs and asking the solver again
    fn pinned_search(&mut self, neg: Tid, what: &str, tries: u64, seed_model: Option<&HashMap<u32, Val>>) -> bool {
        let ts = if what.is_empty() { self.pc.clone() } else { self.slice(&[neg]) };
        let reals: Vec<u32> = { let mut s: BTreeSet<u32> = BTreeSet::new(); for t in &ts { for v in self.vars_of(*t).iter() { s.insert(*v); } } s.into_iter().filter(|v| matches!(self.ar.vars[*v as usize].kind, VarKind::Real { .. })).collect() };
        if self.cfg.fp { return false; }
        let mut rng = 0x1234567u64 ^ self.sh.seed.wrapping_mul(0x9E3779B97F4A7C15);
        let mut rnd = move || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
        for k in 0..tries {
            if std::time::Instant::now() > self.sh.deadline { return false; }
            // pin a varying subset of the real inputs to simple values
            let mut pins: HashMap<u32, f64> = HashMap::new();
            let all = reals.len();
            for (j, v) in reals.iter().enumerate() {
                let VarKind::Real { lo, hi, .. } = self.ar.vars[*v as usize].kind else { continue };
                let keep_free = all > 0 && (k as usize % (all + 1)) == j;
                if keep_free && k < 3 * (all as u64 + 1) { continue; }
                let cands: Vec<f64> = [0.0, 1.0, 2.0, 3.0, 0.5, 0.25, 0.125, -0.0625, 4.0, 12.0, 0.0625, 10.0, 100.0, -1.0, 7.0, 1.5, 0.03125, lo, hi, (lo + hi) / 2.0, lo + (hi - lo) / 4.0, lo + (hi - lo) * 0.75, lo + (hi - lo) / 64.0]
                    .into_iter().filter(|c| *c >= lo && *c <= hi).collect();
                let c = cands[(rnd() % cands.len() as u64) as usize];
                pins.insert(*v, c);
            }
            if let (Some(m), true) = (seed_model, k % 3 == 2) { for v in &reals { if rnd() % 2 == 0 { if let Some(Val::F(x)) = m.get(v) { pins.insert(*v, (*x * 1024.0).round() / 1024.0); } } } }
            let mut ps = Polys::new();
            ps.round_mode = false;
            for (v, c) in &pins { let t = self.ar.var_tid[*v as usize]; ps.pin(t, *c); }
            let q = match Lower::new(&self.ar, &mut ps).query(&ts) { Ok(q) => q, Err(_) => continue };
            if let Res::Sat(mut m) = self.ask(&q, 3000, None, true) {
                for (v, c) in &pins { m.insert(*v, Val::F(*c)); }
                let (inp, pretty) = self.concrete_inputs(&m);
                if what.is_empty() { if self.completes_badly(&inp, &pretty) { return true; } continue; }
                if let Some(o) = self.replay(&inp, what) {
                    let ce = Ce { harness: self.sh.harness.clone(), what: what.into(), inputs: inp, pretty, replay_out: o };
                    self.report_violation(ce);
                    return true;
                }
            }
        }
        false
    }
    /// runs the compiled code on inputs of a path that was cut short; a failing check there is a violation
    fn completes_badly(&mut self, inp: &[String], pretty: &[String]) -> bool {
        let Some((libs,)) = &self.sh.replay else { return false };
        let (drv, lib) = &libs[0];
        let o = native(drv, lib, &self.sh.harness, inp);
        self.local.completed += 1;
        let what = if let Some(l) = o.lines().find_map(|l| l.strip_prefix("FAIL ")) { l.to_string() } else if o.contains("PANIC") && !self.expect_panic { "panic".to_string() } else { return false };
        let ce = Ce { harness: self.sh.harness.clone(), what, inputs: inp.to_vec(), pretty: pretty.to_vec(), replay_out: format!("[{lib}]\n{o}") };
        self.report_violation(ce);
        true
    }
    /// a path that was cut at a bound: complete it natively from models of the path so far
    pub fn complete_cut(&mut self) {
        let pc = self.pc.clone();
        if let Ok(q) = self.lower(&pc) {
            if let Res::Sat(m) = self.ask(&q, 500, None, true) {
                let (inp, pretty) = self.concrete_inputs(&m);
                if self.completes_badly(&inp, &pretty) { return; }
            }
        }
        self.pinned_search(term::T, "", 8, None);
    }
    fn assertion(&mut self, neg: Tid, what: &str) -> X<()> {
        self.local.asserts += 1;
        *self.local.assert_ids.entry(what.to_string()).or_insert(0) += 1;
        if neg == term::F { self.local.proved_syntactic += 1; return Ok(()); }
        if let Some(d) = self.next_d() {
            let D::Asserted = d else { bail!("tape mismatch at assertion: {:?}", d) };
            return Ok(());
        }
        let r = self.check_hard(&[neg]);
        match r {
            Res::Unsat => self.local.proved_solver += 1,
            Res::Sat(m) => {
                let (inp, pretty) = self.concrete_inputs(&m);
                if let Some(o) = self.replay(&inp, what) {
                    let ce = Ce { harness: self.sh.harness.clone(), what: what.into(), inputs: inp, pretty, replay_out: o };
                    self.report_violation(ce);
                    return Err(Stop::Cut("violation".into()));
                }
                if self.pinned_search(neg, what, 60, Some(&m)) { return Err(Stop::Cut("violation".into())); }
                self.local.unreproduced.push(Ce { harness: self.sh.harness.clone(), what: what.into(), inputs: inp, pretty, replay_out: String::new() });
            }
            Res::Unknown(s) => {
                if self.pinned_search(neg, what, 80, None) { return Err(Stop::Cut("violation".into())); }
                *self.local.undecided.entry(format!("{what}: {s}")).or_insert(0) += 1;
            }
        }
        self.log_d(D::Asserted);
        Ok(())
    }
    /// a == b up to tolerance; structural shortcut first
    fn close(&mut self, a: &V, b: &V, rel: f64, abs: f64, what: &str) -> X<()> {
        let (a, b) = (self.tm(a, 64), self.tm(b, 64));
        if let (Some(x), Some(y)) = (self.ar.shadow(a), self.ar.shadow(b)) {
            let ok = x == y || (x - y).abs() <= abs + rel * y.abs();
            let c = self.ar.bool(!ok);
            if !ok { return self.ground_fail(what); }
            return self.assertion(c, what);
        }
        if a == b { return self.assertion(term::F, what); }
        for x in [a, b] { if let Some(s) = self.ar.shadow(x) { if !s.is_finite() { return self.ground_fail(what); } } }
        // congruent expressions over integer leaves: a pure bit-vector question
        let mut leaves = vec![];
        if self.congruent(a, b, &mut leaves, 0) && !leaves.is_empty() && self.pos >= self.tape.len() {
            let mut ne = term::F;
            for (x, y) in leaves { let e = if self.ar.is_bool(x) { self.ar.booleq(x, y) } else { self.ar.eq(x, y) }; let n = self.ar.not(e); ne = self.ar.or(ne, n); }
            if ne == term::F { return self.assertion(term::F, what); }
            if let Res::Unsat = self.check(&[ne], 20000, false) {
                self.local.asserts += 1;
                *self.local.assert_ids.entry(what.to_string()).or_insert(0) += 1;
                self.local.proved_solver += 1;
                self.local.cong += 1;
                self.log_d(D::Asserted);
                return Ok(());
            }
        }
        // |a-b| > abs + rel*|b|
        let d = self.ar.fbin(FOp::Sub, a, b);
        let c = if self.ar.fp_mode { let e = self.ar.feq(a, b); self.ar.not(e) } else {
            let z = self.ar.fc(0.0);
            let bp = self.ar.fle(z, b);
            let bn = self.ar.not(bp);
            let (ra, rr) = (self.ar.fc(abs), self.ar.fc(rel));
            let rb = self.ar.fbin(FOp::Mul, rr, b);
            let nrb = self.ar.fun(FUn::Neg, rb);
            let t1 = self.ar.fbin(FOp::Add, ra, rb);
            let t2 = self.ar.fbin(FOp::Add, ra, nrb);
            let nd = self.ar.fun(FUn::Neg, d);
            let mut r = term::F;
            for (sgn, tol) in [(bp, t1), (bn, t2)] {
                let x = self.ar.flt(tol, d);
                let y = self.ar.flt(tol, nd);
                let o = self.ar.or(x, y);
                let o = self.ar.and(sgn, o);
                r = self.ar.or(r, o);
            }
            r
        };
        // equality decided by the canonical form: ask the (much simpler) question "a != b" first
        if !self.cfg.fp && self.pos >= self.tape.len() {
            let e = self.ar.feq(a, b);
            let n = self.ar.not(e);
            let q = if n == term::F { None } else { self.lower(&[n]).ok() };
            if let Some(q) = q {
                if !q.nonlinear || q.text.len() < 20000 {
                    if let Res::Unsat = self.ask(&q, 1000, None, false) {
                        self.local.asserts += 1;
                        *self.local.assert_ids.entry(what.to_string()).or_insert(0) += 1;
                        self.local.proved_solver += 1;
                        self.log_d(D::Asserted);
                        return Ok(());
                    }
                }
            }
        }
        if c == term::F && self.pos < self.tape.len() && self.tape[self.pos] == D::Asserted { self.pos += 1; return Ok(()); }
        self.assertion(c, what)
    }
    fn congruent(&mut self, a: Tid, b: Tid, out: &mut Vec<(Tid, Tid)>, depth: u32) -> bool {
        if a == b { return true; }
        if depth > 60 { return false; }
        match (self.ar.n[a as usize].clone(), self.ar.n[b as usize].clone()) {
            (N::FBin(o, x, y), N::FBin(p, z, w)) if o == p => self.congruent(x, z, out, depth + 1) && self.congruent(y, w, out, depth + 1),
            (N::FUn(o, x), N::FUn(p, y)) if o == p => self.congruent(x, y, out, depth + 1),
            (N::SiToFp(x), N::SiToFp(y)) => self.leaf(x, y, true, out),
            (N::UiToFp(x), N::UiToFp(y)) => self.leaf(x, y, false, out),
            (N::SiToFp(x), N::UiToFp(y)) => { let (p, q) = (self.ar.sext(x, 64), self.ar.zext(y, 64)); out.push((p, q)); true }
            (N::UiToFp(x), N::SiToFp(y)) => { let (p, q) = (self.ar.zext(x, 64), self.ar.sext(y, 64)); out.push((p, q)); true }
            _ => false,
        }
    }
    fn leaf(&mut self, x: Tid, y: Tid, signed: bool, out: &mut Vec<(Tid, Tid)>) -> bool {
        let w = self.ar.width(x).max(self.ar.width(y));
        let (p, q) = if signed { (self.ar.sext(x, w), self.ar.sext(y, w)) } else { (self.ar.zext(x, w), self.ar.zext(y, w)) };
        out.push((p, q));
        true
    }
    /// an assertion that fails outright on this path: any model of the path is a counterexample
    fn ground_fail(&mut self, what: &str) -> X<()> {
        self.local.asserts += 1;
        *self.local.assert_ids.entry(what.to_string()).or_insert(0) += 1;
        if let Some(d) = self.next_d() {
            let D::Asserted = d else { bail!("tape mismatch at assertion: {:?}", d) };
            return Ok(());
        }
        self.fail_path(what)?;
        self.log_d(D::Asserted);
        Ok(())
    }
    fn fail_path(&mut self, what: &str) -> X<()> {
        let mut seed = None;
        match self.path_model() {
            Res::Unsat => return Err(Stop::Assume),
            Res::Sat(m) => {
                let (inp, pretty) = self.concrete_inputs(&m);
                if let Some(o) = self.replay(&inp, what) {
                    let ce = Ce { harness: self.sh.harness.clone(), what: what.into(), inputs: inp, pretty, replay_out: o };
                    self.report_violation(ce);
                    return Err(Stop::Cut("violation".into()));
                }
                self.local.unreproduced.push(Ce { harness: self.sh.harness.clone(), what: what.into(), inputs: inp, pretty, replay_out: String::new() });
                seed = Some(m);
            }
            Res::Unknown(s) => { *self.local.undecided.entry(format!("{what}: {s}")).or_insert(0) += 1; }
        }
        if self.pinned_search(term::T, what, 60, seed.as_ref()) { return Err(Stop::Cut("violation".into())); }
        Ok(())
    }
    /// model of the whole path condition (all inputs)
    pub fn path_model(&mut self) -> Res {
        let pc = self.pc.clone();
        let q = match self.lower(&pc) { Ok(q) => q, Err(e) => return Res::Unknown(format!("lowering: {e}")) };
        let ms = self.cfg.assert_ms;
        let r = self.ask(&q, ms.min(5000), None, true);
        if matches!(r, Res::Unknown(_)) && q.has_real && !q.has_bv && !self.cfg.fp { return self.ask(&q, ms, Some("(then simplify solve-eqs elim-uncnstr simplify qfnra-nlsat)"), true); }
        r
    }
    pub fn on_panic(&mut self, msg: &str) -> bool {
        // returns true when a violation was reported
        if self.expect_panic { return false; }
        match self.fail_path(&format!("panic {msg}")) { Err(Stop::Cut(_)) => true, _ => false }
    }
    /// the harness demanded a panic but the path ended normally
    pub fn on_end_expected(&mut self) -> bool {
        self.local.asserts += 1;
        *self.local.assert_ids.entry("refusal".to_string()).or_insert(0) += 1;
        self.expect_panic = false;
        match self.fail_path("refusal") { Err(Stop::Cut(_)) => true, _ => false }
    }
    /// runs the compiled code on a model of the finished path: no assertion may fail there
    pub fn witness(&mut self) {
        let Res::Sat(m) = self.path_model() else { return };
        let (inp, pretty) = self.concrete_inputs(&m);
        if self.local.samples.len() < 2 { self.local.samples.push(format!("{}: {}", self.sh.harness, pretty.iter().take(24).cloned().collect::<Vec<_>>().join(" "))); }
        let Some((libs,)) = &self.sh.replay else { return };
        let (drv, lib) = &libs[0];
        let o = native(drv, lib, &self.sh.harness, &inp);
        if o.contains("FAIL ") || o.contains("PANIC") || o.contains("EXIT") { self.local.witness_bad.push(format!("{}: {} => {}", self.sh.harness, pretty.join(" "), o.replace('\n', "; "))); }
        else if o.contains("ASSUME") { } else { self.local.witness_ok += 1; }
    }
    // ---------------------------------------------------------------- externals
    fn intercept(&mut self, name: &str, a: &[V]) -> X<Option<V>> {
        let cu = |v: &V| -> u64 { match v { V::I(x) => *x, V::W(x) => *x as u64, _ => 0 } };
        if let Some(h) = name.strip_prefix("verif_") {
            let args: Vec<f64> = a.iter().map(|v| match v { V::F(x) => *x, V::T(t) if matches!(self.ar.info[*t as usize], term::Info::Fl { .. }) => self.ar.shadow(*t).unwrap_or(f64::NAN), _ => 0.0 }).collect();
            if matches!(h, "f64" | "grid" | "close") && args.iter().enumerate().any(|(i, x)| x.is_nan() && (h != "close" || i == 2 || i == 3)) { bail!("symbolic bound"); }
            let fv = |v: &V| -> f64 { let i = a.iter().position(|x| std::ptr::eq(x, v)).unwrap(); args[i] };
            return Ok(Some(match h {
                "f64" => { let n = format!("x{}", self.ar.vars.len()); let t = self.ar.new_fvar(&n, fv(&a[0]), fv(&a[1]), None); self.inputs.push(InRec::Var(self.ar.vars.len() as u32 - 1)); if fv(&a[0]) == fv(&a[1]) { V::F(fv(&a[0])) } else { V::T(t) } }
                "grid" => { let n = format!("x{}", self.ar.vars.len()); let g = sx(cu(&a[2]) as u128, 32) as i32; let t = self.ar.new_fvar(&n, fv(&a[0]), fv(&a[1]), Some(g)); self.inputs.push(InRec::Var(self.ar.vars.len() as u32 - 1)); V::T(t) }
                "i32" => { let n = format!("n{}", self.ar.vars.len()); let (l, h) = (sx(cu(&a[0]) as u128, 32), sx(cu(&a[1]) as u128, 32)); self.inputs.push(InRec::Var(self.ar.vars.len() as u32)); let t = self.ar.new_bvar(&n, 32, l, h); if l == h { V::I(l as u32 as u64) } else { V::T(t) } }
                "choice" => { let k = self.choice(cu(&a[0]))?; self.inputs.push(InRec::Choice(k)); V::I(k) }
                "assume" => {
                    match &a[0] {
                        V::I(x) => if x & 1 == 0 { return Err(Stop::Assume); },
                        V::T(t) => {
                            let t = *t;
                            if let Some(b) = self.decided.get(&t) { if !*b { return Err(Stop::Assume); } } else {
                                if self.pos >= self.tape.len() { if let Res::Unsat = { let ms = self.cfg.feas_ms; self.check(&[t], ms, false) } { return Err(Stop::Assume); } }
                                self.assume(t, true);
                            }
                        }
                        _ => bail!("assume"),
                    }
                    V::I(0)
                }
                "assert" => {
                    let what = self.cstr(cu(&a[1]), cu(&a[2]))?;
                    match &a[0] {
                        V::I(x) => if x & 1 == 0 { self.ground_fail(&what)? } else { self.assertion(term::F, &what)? },
                        V::T(t) => { let n = self.ar.not(*t); self.assertion(n, &what)? }
                        _ => bail!("assert"),
                    }
                    V::I(0)
                }
                "close" => {
                    let what = self.cstr(cu(&a[4]), cu(&a[5]))?;
                    let (x, y) = (a[0].clone(), a[1].clone());
                    self.close(&x, &y, fv(&a[2]), fv(&a[3]), &what)?;
                    V::I(0)
                }
                "reach" => { let what = self.cstr(cu(&a[0]), cu(&a[1]))?; *self.local.reached.entry(what).or_insert(0) += 1; V::I(0) }
                "expect_panic" => { self.expect_panic = cu(&a[0]) != 0; V::I(0) }
                "on_refusal" => {
                    let p = cu(&a[0]);
                    if p < FN_BASE || (p - FN_BASE) / 16 >= self.sh.lay.fnames.len() as u64 { bail!("bad function pointer for on_refusal"); }
                    self.on_refusal = Some((((p - FN_BASE) / 16) as u32, cu(&a[1])));
                    V::I(0)
                }
                "deep" => V::I(self.sh.deep as u64),
                "note" => V::I(0),
                "config" => {
                    let v = cu(&a[1]);
                    match cu(&a[0]) {
                        0 => { self.cfg.fp = v != 0; self.ar.fp_mode = v != 0; }
                        1 => self.cfg.round = v != 0,
                        2 => { self.cfg.max_forks = v; self.cfg.declared = true; }
                        3 => self.cfg.feas_ms = v,
                        4 => self.cfg.assert_ms = v,
                        5 => self.cfg.float_ite = v != 0,
                        6 => self.cfg.max_concr = v,
                        7 => self.cfg.steps = v,
                        k => bail!("config key {k}"),
                    }
                    V::I(0)
                }
                _ => bail!("unknown harness function {name}"),
            }));
        }
        if name.starts_with("_R") || name.starts_with("_ZN") || name.starts_with("rust_") || name.starts_with("__rust") {
            if (name.contains("4core9panicking") || name.contains("6option13unwrap_failed") || name.contains("6option13expect_failed") || name.contains("6result13unwrap_failed")
                || name.contains("3std9panicking") && !name.contains("panic_count") || name.contains("18handle_alloc_error")) && !name.contains("11panic_count") {
                let mut short = self.sh.m.fns.get(name).map(|f| f.pretty.clone()).unwrap_or_default();
                if short.is_empty() { short = name.to_string(); }
                return Err(Stop::Panic(short));
            }
            return Ok(None);
        }
        if self.sh.m.fns.contains_key(name) { return Ok(None); }
        let mut ci = |s: &mut Self, i: usize| -> X<u64> { Ok(s.conc(&a[i], 64)? as u64) };
        Ok(Some(match name {
            "malloc" => { let n = ci(self, 0)?; V::I(self.malloc(n, 16)?) }
            "calloc" => { let n = ci(self, 0)? * ci(self, 1)?; V::I(self.malloc(n, 16)?) }
            "aligned_alloc" => { let (al, n) = (ci(self, 0)?, ci(self, 1)?); V::I(self.malloc(n, al)?) }
            "posix_memalign" => { let (p, al, n) = (ci(self, 0)?, ci(self, 1)?, ci(self, 2)?); let q = self.malloc(n, al)?; self.store(&Ty::Ptr, p, &V::I(q))?; V::I(0) }
            "realloc" => {
                let (p, n) = (ci(self, 0)?, ci(self, 1)?);
                let q = self.malloc(n, 16)?;
                if p != 0 { let old = self.sizes.get(&p).copied().unwrap_or(0); self.memcpy(q, p, old.min(n))?; }
                V::I(q)
            }
            "free" => V::I(0),
            "memcmp" | "bcmp" => {
                let (p, q, n) = (ci(self, 0)?, ci(self, 1)?, ci(self, 2)?);
                for k in 0..n {
                    let (x, y) = (self.load(&Ty::Int(8), p + k)?, self.load(&Ty::Int(8), q + k)?);
                    let e = self.icmp("eq", &Ty::Int(8), &x, &y)?;
                    if !self.truth(&e)? { let l = self.icmp("ult", &Ty::Int(8), &x, &y)?; return Ok(Some(V::I(if self.truth(&l)? { 0xffff_ffff } else { 1 }))); }
                }
                V::I(0)
            }
            "memcpy" | "memmove" => { let (d, s, n) = (ci(self, 0)?, ci(self, 1)?, ci(self, 2)?); self.memcpy(d, s, n)?; V::I(d) }
            "strlen" => { let p = ci(self, 0)?; let mut n = 0; loop { match self.load(&Ty::Int(8), p + n)? { V::I(0) => break, V::I(_) => n += 1, _ => bail!("strlen") } } V::I(n) }
            "getrandom" => { let (p, n) = (ci(self, 0)?, ci(self, 1)?); for k in 0..n { self.store(&Ty::Int(8), p + k, &V::I((k * 37 + 11) & 255))?; } V::I(n) }
            "__errno_location" => V::I(GL_BASE + 8),
            "pow" => { let (x, y) = (a[0].clone(), a[1].clone()); self.fop(FOp::Pow, &x, &y)? }
            "exp" => { let x = a[0].clone(); self.funv(FUn::Exp, &Ty::Double, &x)? }
            "log" => { let x = a[0].clone(); self.funv(FUn::Ln, &Ty::Double, &x)? }
            "expm1" => { let x = a[0].clone(); self.funv(FUn::Expm1, &Ty::Double, &x)? }
            "log1p" => { let x = a[0].clone(); self.funv(FUn::Ln1p, &Ty::Double, &x)? }
            "fmod" => { let (x, y) = (a[0].clone(), a[1].clone()); self.fop(FOp::Rem, &x, &y)? }
            "getenv" | "secure_getenv" => V::I(0),
            "pthread_key_create" => V::I(0),
            "__cxa_thread_atexit_impl" => V::I(0),
            "dlsym" => V::I(0),
            "write" => V::I(a.get(2).map(cu).unwrap_or(0)),
            "abort" | "exit" | "_exit" => return Err(Stop::Panic(name.to_string())),
            _ => bail!("external function {name}"),
        }))
    }
    fn intrinsic(&mut self, n: &str, targs: &[(Ty, Opd)], a: Vec<V>, rt: &Ty) -> X<V> {
        let base = n.strip_prefix("llvm.").unwrap();
        let ty = targs.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let st = |p: &str| base.starts_with(p);
        if st("lifetime") || st("dbg") || st("experimental.noalias") || st("donothing") || st("prefetch") || st("invariant") || st("assume") || st("sideeffect") || st("x86.sse2.pause") { return Ok(V::I(0)); }
        if st("memcpy") || st("memmove") {
            let (d, s, k) = (self.conc(&a[0], 64)? as u64, self.conc(&a[1], 64)? as u64, self.conc(&a[2], 64)? as u64);
            self.memcpy(d, s, k)?;
            return Ok(V::I(0));
        }
        if st("memset") {
            let (d, k) = (self.conc(&a[0], 64)? as u64, self.conc(&a[2], 64)? as u64);
            let b = self.conc(&a[1], 8)? as u8;
            self.write_bytes(d, &vec![b; k as usize])?;
            return Ok(V::I(0));
        }
        if st("expect") || st("ssa.copy") || st("launder") || st("strip.invariant") || st("threadlocal.address") { return Ok(a[0].clone()); }
        if st("is.constant") { return Ok(V::I(0)); }
        if st("objectsize") { return Ok(V::I(u64::MAX)); }
        if st("trap") { return Err(Stop::Panic("trap".into())); }
        if st("stacksave") { return Ok(V::I(self.st_top)); }
        if st("stackrestore") { return Ok(V::I(0)); }
        if base.contains(".with.overflow") {
            let w = ty.width();
            let op = &base[..4];
            let (o, signed) = match op { "sadd" => (B::Add, true), "uadd" => (B::Add, false), "ssub" => (B::Sub, true), "usub" => (B::Sub, false), "smul" => (B::Mul, true), _ => (B::Mul, false) };
            let w2 = (2 * w).min(128);
            let c = |v: &V| match v { V::I(x) => Some(*x as u128), V::W(x) => Some(*x), _ => None };
            if w > 64 { bail!("128-bit overflow arithmetic"); }
            if let (Some(x), Some(y)) = (c(&a[0]), c(&a[1])) {
                let (x2, y2) = if signed { (sx(x, w), sx(y, w)) } else { (x as i128, y as i128) };
                let r = match o { B::Add => x2 + y2, B::Sub => x2 - y2, _ => x2.wrapping_mul(y2) };
                let ov = if signed { r != sx(r as u128 & ((1u128 << w) - 1), w) } else { r < 0 || (o == B::Mul && (x as u128).checked_mul(y).map(|z| z >> w != 0).unwrap_or(true)) || r as u128 >> w != 0 };
                return Ok(V::A(Rc::new(vec![V::I(mask(r as u128, w) as u64), V::I(ov as u64)])));
            }
            let (x, y) = (self.tm(&a[0], w), self.tm(&a[1], w));
            let r = self.ar.bin(o, x, y);
            let ov = if signed && { let (p, q) = (self.ar.sr(x), self.ar.sr(y)); let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                let cs = match o { B::Add => vec![p.0 + q.0, p.1 + q.1], B::Sub => vec![p.0 - q.1, p.1 - q.0], _ => vec![p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1] };
                cs.iter().all(|c| *c >= mn && *c <= mx) } { term::F }
            else if !signed && { let (p, q) = (self.ar.ur(x), self.ar.ur(y)); match o { B::Add => p.1 + q.1 < 1u128 << w, B::Sub => p.0 >= q.1, _ => p.1.checked_mul(q.1).map(|z| z < 1u128 << w).unwrap_or(false) } } { term::F }
            else if !signed && o == B::Sub { self.ar.ult(x, y) }
            else {
                let (ex, ey) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                let rr = self.ar.bin(o, ex, ey);
                let back = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                let e = self.ar.eq(rr, back);
                self.ar.not(e)
            };
            let (rv, ovv) = (self.wrap(r), self.wrap(ov));
            return Ok(V::A(Rc::new(vec![rv, ovv])));
        }
        for (p, k) in [("smax", "sgt"), ("smin", "slt"), ("umax", "ugt"), ("umin", "ult")] {
            if st(p) {
                if let (Ty::Vector(m, e), V::A(x), V::A(y)) = (&ty, &a[0], &a[1]) {
                    let mut out = vec![];
                    for i in 0..*m as usize { let c = self.icmp(k, e, &x[i], &y[i])?; out.push(self.select(&Ty::Int(1), e, &c, &x[i], &y[i])?); }
                    return Ok(V::A(Rc::new(out)));
                }
                let c = self.icmp(k, &ty, &a[0], &a[1])?;
                return self.select(&Ty::Int(1), &ty, &c, &a[0], &a[1]);
            }
        }
        if st("usub.sat") { let c = self.icmp("ult", &ty, &a[0], &a[1])?; let d = self.bin(BinOp::Sub, &ty, &a[0], &a[1])?; let z = self.sh.lay.cval(&self.sh.m, &ty, &C::Zero); return self.select(&Ty::Int(1), &ty, &c, &z, &d); }
        if st("uadd.sat") { let s = self.bin(BinOp::Add, &ty, &a[0], &a[1])?; let c = self.icmp("ult", &ty, &s, &a[0])?; let m = V::I(mask(u128::MAX, ty.width()) as u64); return self.select(&Ty::Int(1), &ty, &c, &m, &s); }
        if st("abs.") { let z = self.sh.lay.cval(&self.sh.m, &ty, &C::Zero); let c = self.icmp("slt", &ty, &a[0], &z)?; let n = self.bin(BinOp::Sub, &ty, &z, &a[0])?; return self.select(&Ty::Int(1), &ty, &c, &n, &a[0]); }
        if st("fshl") || st("fshr") {
            let w = ty.width() as u128;
            let l = st("fshl");
            let k = self.conc(&a[2], 32)? % w;
            let (s1, s2) = if l { (k, w - k) } else { (w - k, k) };
            if k == 0 { return Ok(if l { a[0].clone() } else { a[1].clone() }); }
            let x = self.bin(BinOp::Shl, &ty, &a[0], &V::I(s1 as u64))?;
            let y = self.bin(BinOp::LShr, &ty, &a[1], &V::I(s2 as u64))?;
            return self.bin(BinOp::Or, &ty, &x, &y);
        }
        if st("ctpop") || st("ctlz") || st("cttz") || st("bswap") || st("bitreverse") {
            let w = ty.width();
            let x = self.conc(&a[0], w)?;
            let r = if st("ctpop") { x.count_ones() as u128 } else if st("ctlz") { (x.leading_zeros() - (128 - w)) as u128 } else if st("cttz") { (x.trailing_zeros().min(w)) as u128 } else if st("bswap") { x.swap_bytes() >> (128 - w) } else { x.reverse_bits() >> (128 - w) };
            return Ok(if w <= 64 { V::I(r as u64) } else { V::W(r) });
        }
        if st("scmp") || st("ucmp") {
            let s = st("scmp");
            let lt = self.icmp(if s { "slt" } else { "ult" }, &ty, &a[0], &a[1])?;
            let gt = self.icmp(if s { "sgt" } else { "ugt" }, &ty, &a[0], &a[1])?;
            let w = rt.width();
            let m1 = V::I(mask(u128::MAX, w) as u64);
            let x = self.select(&Ty::Int(1), rt, &gt, &V::I(1), &V::I(0))?;
            return self.select(&Ty::Int(1), rt, &lt, &m1, &x);
        }
        for (p, o) in [("fabs", FUn::Abs), ("sqrt", FUn::Sqrt), ("floor", FUn::Floor), ("ceil", FUn::Ceil), ("trunc", FUn::Trunc), ("roundeven", FUn::RoundEven), ("round", FUn::Round), ("rint", FUn::RoundEven), ("nearbyint", FUn::RoundEven), ("log.", FUn::Ln)] {
            if st(p) { return self.funv(o, &ty, &a[0]); }
        }
        if st("exp.") { return self.funv(FUn::Exp, &ty, &a[0]); }
        if st("exp2.") { return self.fop(FOp::Pow, &V::F(2.0), &a[0]); }
        if st("pow.") { return self.fop(FOp::Pow, &a[0], &a[1]); }
        if st("powi.") { let k = self.conc(&a[1], 32)?; let k = sx(k, 32) as f64; return self.fop(FOp::Pow, &a[0], &V::F(k)); }
        if st("fma.") || st("fmuladd.") { let p = self.fop(FOp::Mul, &a[0], &a[1])?; return self.fop(FOp::Add, &p, &a[2]); }
        if st("maxnum") || st("minnum") || st("maximum") || st("minimum") || st("maximumnum") || st("minimumnum") {
            for (i, j) in [(0, 1), (1, 0)] { if let V::F(f) = a[i] { if f.is_nan() { return Ok(a[j].clone()); } } }
            let c = self.fcmp(if st("max") { "olt" } else { "ogt" }, &Ty::Double, &a[0], &a[1])?;
            return self.select(&Ty::Int(1), &Ty::Double, &c, &a[1], &a[0]);
        }
        if st("is.fpclass") {
            let k = self.conc(&a[1], 32)?;
            let v = match &a[0] { V::T(t) => self.ar.shadow(*t).filter(|_| self.ar.as_fc(*t).is_some()).map(V::F).unwrap_or(a[0].clone()), x => x.clone() };
            if let V::F(f) = v {
                use std::num::FpCategory::*;
                let neg = f.is_sign_negative();
                let bit = match f.classify() { Nan => 3, Infinite => if neg { 4 } else { 512 }, Zero => if neg { 32 } else { 64 }, Subnormal => if neg { 16 } else { 128 }, Normal => if neg { 8 } else { 256 } };
                return Ok(V::I((k & bit != 0) as u64));
            }
            // symbolic values are finite and their zero is the positive one
            if self.cfg.fp { bail!("class test in floating-point mode"); }
            let z = V::F(0.0);
            let parts = [(64, "oeq"), (8 | 16, "olt"), (128 | 256, "ogt")];
            let mut r = V::I(0);
            for (m, p) in parts {
                if k & m == 0 { continue; }
                if m != 64 && k & m != m { bail!("class test for subnormals"); }
                let c = self.fcmp(p, &Ty::Double, &a[0], &z)?;
                r = self.select(&Ty::Int(1), &Ty::Int(1), &c, &V::I(1), &r)?;
            }
            return Ok(r);
        }
        if st("fptosi.sat") { return self.fp_to_int(&a[0], rt.width(), true); }
        if st("fptoui.sat") { return self.fp_to_int(&a[0], rt.width(), false); }
        if st("copysign") {
            if let (V::F(x), V::F(y)) = (&a[0], &a[1]) { return Ok(V::F(x.copysign(*y))); }
            let ab = self.funv(FUn::Abs, &Ty::Double, &a[0])?;
            let c = self.fcmp("olt", &Ty::Double, &a[1], &V::F(0.0))?;
            let n = self.funv(FUn::Neg, &Ty::Double, &ab)?;
            return self.select(&Ty::Int(1), &Ty::Double, &c, &n, &ab);
        }
        if st("is.fpclass") {
            let k = self.conc(&a[1], 32)?;
            if let V::F(f) = &a[0] {
                let b = match f.classify() { std::num::FpCategory::Nan => 3, std::num::FpCategory::Infinite => if *f < 0.0 { 4 } else { 512 }, std::num::FpCategory::Normal => if *f < 0.0 { 8 } else { 256 }, std::num::FpCategory::Subnormal => if *f < 0.0 { 16 } else { 128 }, _ => if f.is_sign_negative() { 32 } else { 64 } };
                return Ok(V::I((k & b != 0) as u64));
            }
            // symbolic values are finite
            if k & 0x1f8 == 0 { return Ok(V::I(0)); }
            if k & 0x1f8 == 0x1f8 { return Ok(V::I(1)); }
            bail!("fpclass {k}");
        }
        if st("vector.reduce.") {
            if let V::A(vs) = &a[0] {
                let Ty::Vector(_, e) = &ty else { bail!("reduce") };
                let o = &base["vector.reduce.".len()..];
                let mut acc = vs[0].clone();
                for v in vs[1..].iter() {
                    acc = if o.starts_with("or") { self.bin(BinOp::Or, e, &acc, v)? } else if o.starts_with("and") { self.bin(BinOp::And, e, &acc, v)? } else if o.starts_with("add") { self.bin(BinOp::Add, e, &acc, v)? } else { bail!("{n}") };
                }
                return Ok(acc);
            }
        }
        if st("x86.sse2.pmovmskb") {
            if let V::A(vs) = &a[0] { let mut r = 0u64; for (i, v) in vs.iter().enumerate() { match v { V::I(x) => r |= (x >> 7 & 1) << i, _ => bail!("pmovmskb") } } return Ok(V::I(r)); }
        }
        bail!("intrinsic {n}")
    }
}

pub fn native(drv: &str, lib: &str, harness: &str, inputs: &[String]) -> String {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let Ok(mut c) = Command::new(drv).env("RUST_BACKTRACE", "0").arg(lib).arg(harness).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() else { return "cannot start the replay driver".into() };
    let _ = c.stdin.take().unwrap().write_all((inputs.join("\n") + "\n").as_bytes());
    match c.wait_with_output() {
        Ok(o) => {
            let mut s = String::from_utf8_lossy(&o.stdout).to_string();
            if !o.status.success() { s.push_str(&format!("EXIT {:?}\n", o.status)); let e = String::from_utf8_lossy(&o.stderr); for l in e.lines().take(6) { s.push_str(&format!("stderr: {l}\n")); } if e.contains("panicked at") { s.push_str("PANIC\n"); } }
            s
        }
        Err(e) => format!("replay failed: {e}"),
    }
}
