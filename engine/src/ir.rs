//! Parser for textual LLVM IR as emitted by rustc. Functions are indexed eagerly and parsed on first use.
use std::collections::HashMap;
use std::sync::Arc as Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Double,
    Float,
    Ptr,
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Double | Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Double | Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off on scalar {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    F64(f64),
    F32(f32),
    Undef,
    Zero,
    Agg(Vec<(Ty, C)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Ty, Box<C>, Vec<(Ty, C)>),
    Cast(Box<C>),
    Splat(Ty, Box<C>),
    BinSub(Box<C>, Box<C>),
    BinAdd(Box<C>, Box<C>),
    Null,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(C),
    Meta,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),
    Reg(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta,
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        match c {
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                i += 2;
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') { i += 1; }
                i += 2;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let st = i;
                let name;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    let st = i;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    while i < b.len() && isw(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::Reg(name) } else { T::Glob(name) });
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'{' {
                    let mut d = 0;
                    while i < b.len() {
                        if b[i] == b'{' {
                            d += 1
                        }
                        if b[i] == b'}' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                } else {
                    while i < b.len() && isw(b[i]) {
                        i += 1;
                    }
                    if i < b.len() && b[i] == b'(' {
                        // !DIExpression(...)
                        let mut d = 0;
                        while i < b.len() {
                            if b[i] == b'(' {
                                d += 1
                            }
                            if b[i] == b')' {
                                d -= 1;
                                if d == 0 {
                                    i += 1;
                                    break;
                                }
                            }
                            i += 1;
                        }
                    }
                }
                out.push(T::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && isw(b[i]) {
                    i += 1;
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 2;
                let mut v = Vec::new();
                while b[i] != b'"' {
                    if b[i] == b'\\' && b[i + 1] == b'\\' {
                        v.push(b'\\');
                        i += 2;
                    } else if b[i] == b'\\' {
                        v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                        i += 3;
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(T::Str(v));
            }
            b'"' => {
                i += 1;
                let st = i;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::W(s[st..i].to_string()));
                i += 1;
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || (b[i] == b'+' && (b[i - 1] == b'e' || b[i - 1] == b'E'))
                        || (b[i] == b'-' && (b[i - 1] == b'e' || b[i - 1] == b'E')))
                {
                    i += 1;
                }
                out.push(T::Num(s[st..i].to_string()));
            }
            c if isw(c) => {
                let st = i;
                while i < b.len() && isw(b[i]) {
                    i += 1;
                }
                out.push(T::W(s[st..i].to_string()));
            }
            c => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct P<'a> {
    pub t: &'a [T],
    pub i: usize,
    pub types: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    pub fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> &'a T {
        let x = &self.t[self.i];
        self.i += 1;
        x
    }
    pub fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.peek(), &self.t[..self.t.len().min(40)]);
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                w == "void" || w == "double" || w == "float" || w == "ptr" || w == "metadata" || w == "token" || w == "label"
                    || w == "half" || w == "fp128" || w == "x86_fp80"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::Reg(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "double" => Ty::Double,
                "float" => Ty::Float,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "metadata" | "token" | "label" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                w => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            },
            T::P('[') => {
                let n = self.num() as u64;
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.expect_p(']');
                Ty::Array(n, Rc::new(t))
            }
            T::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    v.push(self.ty());
                    self.eat_p(',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    while !self.eat_p('}') {
                        v.push(self.ty());
                        self.eat_p(',');
                    }
                    self.expect_p('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.expect_p('>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            T::Reg(n) => self.types[n].clone(),
            x => panic!("type expected, got {:?} in {:?}", x, &self.t[..self.t.len().min(60)]),
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            T::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {s}")),
            x => panic!("num expected {:?}", x),
        }
    }
    pub fn skip_parens(&mut self) {
        self.expect_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    /// skip attribute words before a type
    pub fn skip_attrs_to_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.peek() {
                Some(T::W(w)) => {
                    let w = w.clone();
                    self.i += 1;
                    if w == "align" {
                        if let Some(T::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                x => panic!("skip_attrs_to_type: {:?} in {:?}", x, &self.t[..self.t.len().min(60)]),
            }
        }
    }
    fn is_value_start(&self) -> bool {
        match self.peek() {
            Some(T::Reg(_)) | Some(T::Glob(_)) | Some(T::Num(_)) | Some(T::Str(_)) | Some(T::Meta) => true,
            Some(T::P('<')) | Some(T::P('{')) | Some(T::P('[')) => true,
            Some(T::W(w)) => w.starts_with("f0x") || matches!(
                w.as_str(),
                "inf" | "nan" | "qnan" | "snan" | "pinf" | "ninf" | "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "bitcast" | "sub" | "add" | "trunc" | "none" | "asm"
            ),
            _ => false,
        }
    }
    pub fn skip_param_attrs(&mut self) {
        while !self.is_value_start() {
            match self.peek() {
                Some(T::W(w)) => {
                    let al = w == "align";
                    self.i += 1;
                    if al {
                        if let Some(T::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> C {
        if self.is_p('+') { self.i += 1; }
        match self.next() {
            T::Num(s) if s.ends_with("inf") => if *ty == Ty::Float { C::F32(f32::NEG_INFINITY) } else { C::F64(f64::NEG_INFINITY) },
            T::Num(s) if s.ends_with("nan") => if *ty == Ty::Float { C::F32(f32::NAN) } else { C::F64(f64::NAN) },
            T::W(s) if s.starts_with("f0x") => { let b = u64::from_str_radix(&s[3..], 16).unwrap(); if *ty == Ty::Float { C::F32(f32::from_bits(b as u32)) } else { C::F64(f64::from_bits(b)) } }
            T::W(s) if s == "inf" => if *ty == Ty::Float { C::F32(f32::INFINITY) } else { C::F64(f64::INFINITY) },
            T::W(s) if s == "qnan" || s == "snan" || s == "nan" => { if self.is_p('(') { self.skip_parens(); } if *ty == Ty::Float { C::F32(f32::NAN) } else { C::F64(f64::NAN) } }
            T::Num(s) => match ty {
                Ty::Double => {
                    if let Some(h) = s.strip_prefix("0x") {
                        C::F64(f64::from_bits(u64::from_str_radix(h, 16).unwrap()))
                    } else {
                        C::F64(s.parse().unwrap())
                    }
                }
                Ty::Float => {
                    if let Some(h) = s.strip_prefix("0x") {
                        C::F32(f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32)
                    } else {
                        C::F32(s.parse().unwrap())
                    }
                }
                Ty::Int(w) => {
                    let v: u128 = if s.starts_with('-') {
                        s.parse::<i128>().unwrap() as u128
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    C::Int(mask(v, *w))
                }
                _ => panic!("num const {s} of {:?}", ty),
            },
            T::Str(v) => C::Bytes(v.clone()),
            T::Glob(g) => C::Global(g.clone()),
            T::Meta => C::Undef,
            T::W(w) => match w.as_str() {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" | "none" => C::Null,
                "undef" | "poison" => C::Undef,
                "zeroinitializer" => C::Zero,
                "splat" => {
                    self.expect_p('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.expect_p(')');
                    C::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    // "inrange(...)" may come before the operand list
                    if let T::W(w) = &self.t[self.i - 1] {
                        if w == "inrange" {
                            self.skip_parens();
                        }
                    }
                    self.expect_p('(');
                    let t = self.ty();
                    self.expect_p(',');
                    let bt = self.ty();
                    let b = self.constant(&bt);
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty();
                        let c = self.constant(&it);
                        idx.push((it, c));
                    }
                    self.expect_p(')');
                    C::Gep(t, Box::new(b), idx)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "trunc" => {
                    self.expect_p('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    assert!(self.eat_w("to"));
                    self.ty();
                    self.expect_p(')');
                    C::Cast(Box::new(c))
                }
                "sub" | "add" => {
                    let sub = w == "sub";
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect_p('(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.expect_p(',');
                    let t = self.ty();
                    let b = self.constant(&t);
                    self.expect_p(')');
                    if sub {
                        C::BinSub(Box::new(a), Box::new(b))
                    } else {
                        C::BinAdd(Box::new(a), Box::new(b))
                    }
                }
                x => panic!("const word {x}"),
            },
            T::P('[') => self.agg(']'),
            T::P('{') => self.agg('}'),
            T::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}');
                    self.expect_p('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            x => panic!("const {:?}", x),
        }
    }
    fn agg(&mut self, end: char) -> C {
        let mut v = vec![];
        while !self.eat_p(end) {
            let t = self.ty();
            let c = self.constant(&t);
            v.push((t, c));
            self.eat_p(',');
        }
        C::Agg(v)
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBinOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, FpToSi, FpToUi, SiToFp, UiToFp, FpTrunc, FpExt, Bit }

pub type Reg = u32;
#[derive(Clone, Debug)]
pub enum Callee {
    Named(String),
    Ind(Opd),
    Asm(String),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Reg, Ty, Opd, Opd),
    FBin(FBinOp, Reg, Ty, Opd, Opd),
    FNeg(Reg, Ty, Opd),
    ICmp(String, Reg, Ty, Opd, Opd),
    FCmp(String, Reg, Ty, Opd, Opd),
    Cast(CastOp, Reg, Ty, Ty, Opd),
    Load(Reg, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Reg, Opd, u64, Vec<(Ty, Opd, u64)>),
    Alloca(Reg, u64, u64, Option<(Ty, Opd)>),
    Select(Reg, Ty, Ty, Opd, Opd, Opd),
    Call(Option<Reg>, Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Reg, Ty, Opd, Vec<u64>),
    InsertValue(Reg, Ty, Opd, Ty, Opd, Vec<u64>),
    ExtractElement(Reg, Ty, Opd, Ty, Opd),
    InsertElement(Reg, Ty, Opd, Ty, Opd, Ty, Opd),
    Shuffle(Reg, Ty, Opd, Opd, Ty, Opd),
    Freeze(Reg, Ty, Opd),
    CmpXchg(Reg, Ty, Opd, Opd, Opd),
    Rmw(String, Reg, Ty, Opd, Opd),
    Nop,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(Reg, Ty, Vec<(Opd, u32)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<(Reg, Ty)>,
    pub blocks: Vec<Block>,
    pub ret: Ty,
}

pub struct FnText {
    pub header: String,
    pub body: (usize, usize), // byte range in text
    pub pretty: String,
}
pub struct GlobalText {
    pub ty: Ty,
    pub init: Option<C>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub fns: HashMap<String, FnText>,
    pub globals: Vec<(String, GlobalText)>,
    pub types: HashMap<String, Ty>,
    pub decls: Vec<String>,
    pub aliases: HashMap<String, String>,
}

fn glob_name(line: &str, from: usize) -> (String, usize) {
    // line[from..] starts with '@'
    let b = line.as_bytes();
    let mut i = from + 1;
    if b[i] == b'"' {
        let st = i + 1;
        i = st;
        while b[i] != b'"' {
            i += 1;
        }
        (line[st..i].to_string(), i + 1)
    } else {
        let st = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'$' || b[i] == b'-') {
            i += 1;
        }
        (line[st..i].to_string(), i)
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), fns: HashMap::new(), globals: vec![], types: HashMap::new(), decls: vec![], aliases: HashMap::new() };
        let mut pos = 0;
        let mut comment = String::new();
        let bytes_len = text.len();
        let mut glines: Vec<String> = vec![];
        while pos < bytes_len {
            let end = text[pos..].find('\n').map(|e| pos + e).unwrap_or(bytes_len);
            let line = &text[pos..end];
            let next = end + 1;
            if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") {
                    comment = line[2..].to_string();
                }
            } else if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (name, _) = glob_name(line, at);
                let bend = text[end..].find("\n}\n").map(|e| end + e).unwrap_or(bytes_len);
                m.fns.insert(name, FnText { header: line.to_string(), body: (next, bend + 1), pretty: std::mem::take(&mut comment) });
                pos = bend + 3;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                m.decls.push(glob_name(line, at).0);
            } else if line.starts_with('@') {
                glines.push(line.to_string());
            } else if line.starts_with('%') {
                // named type
                let toks = lex(line);
                if let (T::Reg(n), Some(T::W(k))) = (&toks[0], toks.get(2)) {
                    if k == "type" && !matches!(toks.get(3), Some(T::W(o)) if o == "opaque") {
                        let tt = m.types.clone();
                        let mut p = P { t: &toks, i: 3, types: &tt };
                        let t = p.ty();
                        m.types.insert(n.clone(), t);
                    }
                }
            }
            if line.is_empty() {
                comment.clear();
            }
            pos = next;
        }
        for line in glines {
            let (name, after) = glob_name(&line, 0);
            let toks = lex(&line[after..]);
            let types = m.types.clone();
            let mut p = P { t: &toks, i: 0, types: &types };
            p.expect_p('=');
            let mut external = false;
            let mut alias = false;
            let constant;
            loop {
                match p.next() {
                    T::W(w) if w == "global" => {
                        constant = false;
                        break;
                    }
                    T::W(w) if w == "constant" => {
                        constant = true;
                        break;
                    }
                    T::W(w) if w == "alias" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    T::W(w) if w == "external" || w == "extern_weak" => external = true,
                    T::W(_) => {
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                    x => panic!("global {name}: {:?}", x),
                }
            }
            if alias {
                p.ty();
                p.expect_p(',');
                p.ty();
                if let C::Global(g) = p.constant(&Ty::Ptr) {
                    m.aliases.insert(name, g);
                }
                continue;
            }
            let ty = p.ty();
            let init = if external { None } else { Some(p.constant(&ty)) };
            let mut align = ty.align();
            while p.peek().is_some() {
                if p.eat_w("align") {
                    align = p.num() as u64;
                } else {
                    p.i += 1;
                }
            }
            m.globals.push((name, GlobalText { ty, init, align, constant }));
        }
        m.text = text;
        m
    }

    pub fn parse_fn(&self, name: &str) -> Func {
        let ft = &self.fns[name];
        let toks = lex(&ft.header);
        let mut p = P { t: &toks, i: 1, types: &self.types };
        let mut regs: HashMap<String, u32> = HashMap::new();
        p.skip_attrs_to_type();
        let ret = p.ty();
        p.next();
        p.expect_p('(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat_p(')') {
            if p.eat_p('.') {
                continue;
            }
            if matches!(p.peek(), Some(T::W(w)) if w == "...") {
                p.i += 1;
                continue;
            }
            let t = p.ty();
            // attributes
            loop {
                match p.peek() {
                    Some(T::W(w)) => {
                        let al = w == "align";
                        p.i += 1;
                        if al {
                            if let Some(T::Num(_)) = p.peek() {
                                p.i += 1;
                            }
                        }
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            let n = match p.peek() {
                Some(T::Reg(n)) => {
                    p.i += 1;
                    n.clone()
                }
                _ => {
                    unnamed += 1;
                    (unnamed - 1).to_string()
                }
            };
            let id = regs.len() as u32;
            regs.insert(n, id);
            params.push((id, t));
            p.eat_p(',');
        }
        let body = &self.text[ft.body.0..ft.body.1];
        // split into logical lines / blocks
        let mut blocks: Vec<(String, Vec<Vec<T>>)> = vec![];
        let mut lines = body.lines().peekable();
        let mut first = true;
        while let Some(l) = lines.next() {
            let tl = l.trim_end();
            if tl.is_empty() || tl.starts_with(';') {
                continue;
            }
            if !tl.starts_with(' ') {
                // label
                let lab = tl.split(':').next().unwrap().trim_matches('"').to_string();
                blocks.push((lab, vec![]));
                first = false;
                continue;
            }
            if first {
                blocks.push(("<entry>".into(), vec![]));
                first = false;
            }
            let tr = tl.trim_start();
            if tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            let mut s = tr.to_string();
            if tr.starts_with("switch ") && !tr.contains(']') {
                while let Some(l2) = lines.next() {
                    s.push(' ');
                    s.push_str(l2.trim());
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            if tr.contains(" landingpad ") {
                while let Some(n) = lines.peek() {
                    let n = n.trim();
                    if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            if tr.contains("invoke ") {
                if let Some(n) = lines.peek() {
                    if n.trim().starts_with("to label") {
                        s.push(' ');
                        s.push_str(lines.next().unwrap().trim());
                    }
                }
            }
            blocks.last_mut().unwrap().1.push(lex(&s));
        }
        let labels: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, (l, _))| (l.clone(), i as u32)).collect();
        // the entry block's implicit number can be referenced by phis
        let entry_num = params.len().to_string();
        let mut fp = FnParser { regs, labels, entry_num, types: &self.types };
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                fp.inst(l, &mut b);
            }
            out.push(b);
        }
        Func { name: name.to_string(), pretty: ft.pretty.clone(), nregs: fp.regs.len() as u32, params, blocks: out, ret }
    }
}

struct FnParser<'a> {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    entry_num: String,
    types: &'a HashMap<String, Ty>,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn label(&self, n: &str) -> u32 {
        if let Some(x) = self.labels.get(n) {
            *x
        } else if n == self.entry_num {
            0
        } else {
            panic!("label {n}")
        }
    }
    fn opd(&mut self, p: &mut P, ty: &Ty) -> Opd {
        p.skip_param_attrs();
        match p.peek() {
            Some(T::Reg(n)) => {
                p.i += 1;
                Opd::Reg(self.reg(n))
            }
            Some(T::Meta) => {
                p.i += 1;
                Opd::Meta
            }
            _ => Opd::C(p.constant(ty)),
        }
    }
    fn tyopd(&mut self, p: &mut P) -> (Ty, Opd) {
        let t = p.ty();
        let o = self.opd(p, &t);
        (t, o)
    }
    fn lab(&mut self, p: &mut P) -> u32 {
        assert!(p.eat_w("label"), "label expected");
        match p.next() {
            T::Reg(n) => self.label(n),
            x => panic!("label {:?}", x),
        }
    }
    fn inst(&mut self, toks: &[T], b: &mut Block) {
        let types = self.types;
        let mut p = P { t: toks, i: 0, types };
        let mut dst = None;
        if let (Some(T::Reg(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) {
            dst = Some(self.reg(n));
            p.i = 2;
        }
        let op = match p.next() {
            T::W(w) => w.clone(),
            x => panic!("inst {:?} {:?}", x, toks),
        };
        let d = dst.unwrap_or(u32::MAX);
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        macro_rules! skipflags {
            () => {
                while matches!(p.peek(), Some(T::W(w)) if flags.contains(&w.as_str())) {
                    p.i += 1;
                }
            };
        }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                skipflags!();
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let c = self.opd(&mut p, &t);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Inst::Bin(o, d, t, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skipflags!();
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let c = self.opd(&mut p, &t);
                let o = match op.as_str() {
                    "fadd" => FBinOp::Add,
                    "fsub" => FBinOp::Sub,
                    "fmul" => FBinOp::Mul,
                    "fdiv" => FBinOp::Div,
                    _ => FBinOp::Rem,
                };
                Inst::FBin(o, d, t, a, c)
            }
            "fneg" => {
                skipflags!();
                let (t, a) = self.tyopd(&mut p);
                Inst::FNeg(d, t, a)
            }
            "icmp" | "fcmp" => {
                skipflags!();
                let pred = match p.next() {
                    T::W(w) => w.clone(),
                    x => panic!("{:?}", x),
                };
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let c = self.opd(&mut p, &t);
                if op == "icmp" {
                    Inst::ICmp(pred, d, t, a, c)
                } else {
                    Inst::FCmp(pred, d, t, a, c)
                }
            }
            "trunc" | "zext" | "sext" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                skipflags!();
                let (t, a) = self.tyopd(&mut p);
                assert!(p.eat_w("to"));
                let t2 = p.ty();
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptosi" => CastOp::FpToSi,
                    "fptoui" => CastOp::FpToUi,
                    "sitofp" => CastOp::SiToFp,
                    "uitofp" => CastOp::UiToFp,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "ptrtoint" | "inttoptr" => {
                        if t2.width_or(64) < t.width_or(64) {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                    _ => CastOp::Bit,
                };
                Inst::Cast(o, d, t, t2, a)
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = p.ty();
                p.expect_p(',');
                let (_, a) = self.tyopd(&mut p);
                Inst::Load(d, t, a)
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.tyopd(&mut p);
                p.expect_p(',');
                let (_, a) = self.tyopd(&mut p);
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                skipflags!();
                if p.eat_w("inrange") {
                    p.skip_parens();
                }
                let t = p.ty();
                p.expect_p(',');
                let (_, base) = self.tyopd(&mut p);
                let mut cur: Option<Ty> = None;
                let mut off: i128 = 0;
                let mut dynidx = vec![];
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(T::Meta)) {
                        break;
                    }
                    let (it, io) = self.tyopd(&mut p);
                    let sx = |v: u128, w: u32| -> i128 {
                        let sh = 128 - w;
                        ((v << sh) as i128) >> sh
                    };
                    match cur.take() {
                        None => {
                            let sz = t.size();
                            match &io {
                                Opd::C(C::Int(v)) => off += sx(*v, it.width()) * sz as i128,
                                Opd::C(C::Zero) => {}
                                _ => dynidx.push((it, io, sz)),
                            }
                            cur = Some(t.clone());
                        }
                        Some(ct) => match &ct {
                            Ty::Struct(..) => {
                                let k = match &io {
                                    Opd::C(C::Int(v)) => *v as u64,
                                    _ => panic!("gep struct idx"),
                                };
                                let (o, ft) = ct.field_off(k);
                                off += o as i128;
                                cur = Some(ft);
                            }
                            Ty::Array(_, et) | Ty::Vector(_, et) => {
                                let sz = et.size();
                                match &io {
                                    Opd::C(C::Int(v)) => off += sx(*v, it.width()) * sz as i128,
                                    Opd::C(C::Zero) => {}
                                    _ => dynidx.push((it, io, sz)),
                                }
                                cur = Some((**et).clone());
                            }
                            _ => panic!("gep into scalar"),
                        },
                    }
                }
                Inst::Gep(d, base, off as u64, dynidx)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = p.ty();
                let mut al = t.align();
                let mut cnt = None;
                while p.eat_p(',') {
                    if p.eat_w("align") {
                        al = p.num() as u64;
                    } else if let Some(T::Meta) = p.peek() {
                        break;
                    } else if p.is_w("addrspace") {
                        break;
                    } else {
                        cnt = Some(self.tyopd(&mut p));
                    }
                }
                Inst::Alloca(d, t.size(), al, cnt)
            }
            "select" => {
                skipflags!();
                let (ct, c) = self.tyopd(&mut p);
                p.expect_p(',');
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (_, e) = self.tyopd(&mut p);
                Inst::Select(d, ct, t, c, a, e)
            }
            "phi" => {
                skipflags!();
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expect_p('[');
                    let o = self.opd(&mut p, &t);
                    p.expect_p(',');
                    let l = match p.next() {
                        T::Reg(n) => self.label(n),
                        x => panic!("{:?}", x),
                    };
                    p.expect_p(']');
                    inc.push((o, l));
                    if !(p.is_p(',') && matches!(toks.get(p.i + 1), Some(T::P('[')))) {
                        break;
                    }
                    p.i += 1;
                }
                b.phis.push((d, t, inc));
                return;
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && !inv {
                    assert!(p.eat_w("call"));
                }
                skipflags!();
                p.skip_attrs_to_type();
                let rt = p.ty();
                // possible function type
                if p.is_p('(') {
                    p.skip_parens();
                }
                let callee = match p.peek() {
                    Some(T::Glob(g)) => {
                        p.i += 1;
                        Callee::Named(g.clone())
                    }
                    Some(T::Reg(n)) => {
                        p.i += 1;
                        Callee::Ind(Opd::Reg(self.reg(n)))
                    }
                    Some(T::W(w)) if w == "asm" => {
                        p.i += 1;
                        let mut s = String::new();
                        while !p.is_p('(') {
                            if let T::W(x) = p.next() {
                                s.push_str(x);
                                s.push('|');
                            }
                        }
                        Callee::Asm(s)
                    }
                    _ => Callee::Ind(Opd::C(p.constant(&Ty::Ptr))),
                };
                p.expect_p('(');
                let mut args = vec![];
                while !p.eat_p(')') {
                    let t = p.ty();
                    if t == Ty::Other {
                        // metadata operand
                        let mut dep = 0;
                        loop {
                            match p.peek() {
                                Some(T::P('(')) => dep += 1,
                                Some(T::P(')')) => {
                                    if dep == 0 {
                                        break;
                                    }
                                    dep -= 1
                                }
                                Some(T::P(',')) if dep == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((t, Opd::Meta));
                    } else {
                        let o = self.opd(&mut p, &t);
                        args.push((t, o));
                    }
                    p.eat_p(',');
                }
                let mut normal = None;
                if inv {
                    while !p.is_w("to") {
                        p.i += 1;
                    }
                    p.i += 1;
                    normal = Some(self.lab(&mut p));
                }
                Inst::Call(dst, callee, args, rt, normal)
            }
            "br" => {
                if p.is_w("label") {
                    Inst::Br(self.lab(&mut p))
                } else {
                    let (_, c) = self.tyopd(&mut p);
                    p.expect_p(',');
                    let a = self.lab(&mut p);
                    p.expect_p(',');
                    let e = self.lab(&mut p);
                    Inst::CondBr(c, a, e)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut p);
                p.expect_p(',');
                let def = self.lab(&mut p);
                p.expect_p('[');
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let ct = p.ty();
                    let c = match p.constant(&ct) {
                        C::Int(v) => v,
                        x => panic!("case {:?}", x),
                    };
                    p.expect_p(',');
                    let l = self.lab(&mut p);
                    cases.push((c, l));
                }
                Inst::Switch(t, v, def, cases)
            }
            "ret" => {
                if p.is_w("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.tyopd(&mut p)))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" | "fence" => Inst::Nop,
            "extractvalue" => {
                let (t, a) = self.tyopd(&mut p);
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(T::Num(_)) = p.peek() {
                        idx.push(p.num() as u64);
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(d, t, a, idx)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (t2, v) = self.tyopd(&mut p);
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(T::Num(_)) = p.peek() {
                        idx.push(p.num() as u64);
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(d, t, a, t2, v, idx)
            }
            "extractelement" => {
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (it, i) = self.tyopd(&mut p);
                Inst::ExtractElement(d, t, a, it, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (et, e) = self.tyopd(&mut p);
                p.expect_p(',');
                let (it, i) = self.tyopd(&mut p);
                Inst::InsertElement(d, t, a, et, e, it, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (_, c) = self.tyopd(&mut p);
                p.expect_p(',');
                let (mt, mm) = self.tyopd(&mut p);
                Inst::Shuffle(d, t, a, c, mt, mm)
            }
            "freeze" => {
                let (t, a) = self.tyopd(&mut p);
                Inst::Freeze(d, t, a)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (t, c) = self.tyopd(&mut p);
                p.expect_p(',');
                let (_, n) = self.tyopd(&mut p);
                Inst::CmpXchg(d, t, a, c, n)
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next() {
                    T::W(w) => w.clone(),
                    x => panic!("{:?}", x),
                };
                let (_, a) = self.tyopd(&mut p);
                p.expect_p(',');
                let (t, v) = self.tyopd(&mut p);
                Inst::Rmw(o, d, t, a, v)
            }
            x => panic!("unknown instruction {x}: {:?}", toks),
        };
        b.insts.push(ins);
    }
}

impl Ty {
    pub fn width_or(&self, d: u32) -> u32 {
        match self {
            Ty::Int(w) => *w,
            _ => d,
        }
    }
}
