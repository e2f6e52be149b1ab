//! Parser for textual LLVM IR (as printed by rustc's LLVM), lazily per function.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Void,
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Void | Ty::Opaque => 0,
        }
    }
    /// bytes touched by a load/store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Void | Ty::Opaque => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => i * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i as usize].clone(),
            Ty::Array(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty"),
        }
    }
    pub fn n_fields(&self) -> u64 {
        match self {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Array(n, _) | Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u16 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u16, u128),
    Global(String, i64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
    /// constant expression evaluated lazily: op, operands
    Sub(Box<Cst>, Box<Cst>),
    Add(Box<Cst>, Box<Cst>),
    Trunc(Box<Cst>, u16),
    Splat(Box<(Ty, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(Cst),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Opnd, Opnd),
    ICmp(String, Ty, Opnd, Opnd),
    FCmp(String, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Select(Ty, Opnd, Ty, Opnd, Opnd),
    Load(Ty, Opnd, bool),
    Store(Ty, Opnd, Opnd, bool),
    Gep(Opnd, i64, Vec<(i64, u16, Opnd)>),
    Alloca(u64, u64, Ty, Option<Opnd>),
    Call(Ty, Callee, Vec<(Ty, Opnd)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opnd>),
    Unreachable,
    ExtractValue(Ty, Opnd, Vec<u64>),
    InsertValue(Ty, Opnd, Ty, Opnd, Vec<u64>),
    Freeze(Ty, Opnd),
    Rmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opnd),
    Asm(String),
}

pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
    /// memory ordering of an atomic: 1 acquire, 2 release, 4 acquire when a cmpxchg fails
    pub ord: u8,
    /// for `invoke`: normal destination
    pub next: Option<u32>,
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    /// registers live on entry (after the phis)
    pub live: Vec<u32>,
    pub ipdom: Option<u32>,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub id: usize,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<String>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<String>,
    pub funcs: HashMap<String, (usize, String)>,
    pub globals: HashMap<String, GlobalDef>,
    pub order: Vec<String>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    /// metadata id -> raw text, only the debug-location related ones
    pub meta: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    Reg(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (s[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                o.push(if c == b'%' { Tok::Reg(name) } else { Tok::Glob(name) });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                o.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                i = j;
            }
            b'"' | b'c' if c == b'"' || (i + 1 < b.len() && b[i + 1] == b'"') => {
                let mut j = if c == b'c' { i + 2 } else { i + 1 };
                let mut v = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            v.push(b'\\');
                            j += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                            j += 3;
                        }
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                o.push(Tok::Str(v));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && b[j - 1] == b'e')) {
                    j += 1;
                }
                o.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                o.push(Tok::W("...".into()));
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                o.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                o.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    o
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Module,
    regs: Option<&'a mut HashMap<String, u32>>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eatp(c) {
            panic!("expected {c} at {} in {:?}", self.i, self.t);
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                _ => {}
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" => Ty::Int(16),
                "metadata" | "label" | "token" | "opaque" => Ty::Opaque,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                _ => panic!("type {w} in {:?}", self.t),
            },
            Tok::P('{') => Ty::Struct(Rc::new(self.tys('}')), false),
            Tok::P('[') => {
                let n = self.num() as u64;
                self.eatw("x");
                let t = self.ty();
                self.exp(']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.tys('}');
                    self.exp('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num() as u64;
                    self.eatw("x");
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::Reg(n) => self.m.named.get(&n).cloned().unwrap_or(Ty::Opaque),
            t => panic!("type tok {t:?} in {:?}", self.t),
        }
    }
    fn tys(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.eatp(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eatp(end) {
                return v;
            }
            self.exp(',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap(),
            t => panic!("num {t:?} in {:?}", self.t),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if w.starts_with("f0x") || matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "sub" | "add" | "trunc" | "xor" | "mul" | "asm" | "splat" | "blockaddress" | "dso_local_equivalent" | "no_cfi"
                    ) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if al {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    // "attr"="value"
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn fconst(&self, t: &Ty, s: &str) -> u128 {
        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else {
            s.parse().unwrap()
        };
        if *t == Ty::F32 {
            (d as f32).to_bits() as u128
        } else {
            d.to_bits() as u128
        }
    }
    fn opnd(&mut self, t: &Ty) -> Opnd {
        if let Some(Tok::Reg(_)) = self.peek() {
            if let Tok::Reg(n) = self.next() {
                return Opnd::Reg(self.reg(&n));
            }
        }
        Opnd::C(self.cst(t))
    }
    fn cst(&mut self, t: &Ty) -> Cst {
        match self.next() {
            Tok::Num(s) => match t {
                Ty::F32 | Ty::F64 => {
                    let v = self.fconst(t, &s);
                    Cst::Int(t.bits(), v)
                }
                Ty::Int(w) => {
                    let v = if let Some(n) = s.strip_prefix('-') {
                        n.parse::<u128>().unwrap().wrapping_neg()
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    Cst::Int(*w, v & crate::expr::mask(*w))
                }
                _ => panic!("num const of type {t:?}"),
            },
            Tok::Glob(n) => Cst::Global(n, 0),
            Tok::Str(b) => Cst::Bytes(b),
            Tok::P('{') => Cst::Agg(self.csts('}')),
            Tok::P('[') => Cst::Agg(self.csts(']')),
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.csts('}');
                    self.exp('>');
                    Cst::Agg(v)
                } else {
                    Cst::Agg(self.csts('>'))
                }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Cst::Int(1, 1),
                "false" => Cst::Int(1, 0),
                "null" => Cst::Int(64, 0),
                "none" | "zeroinitializer" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let c = self.cst(&t);
                    self.exp(')');
                    Cst::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.i += 1;
                        if self.t[self.i - 1] == Tok::W("inrange".into()) {
                            self.skip_parens();
                        }
                    }
                    self.exp('(');
                    let bt = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.cst(&pt);
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eatp(',') {
                        let it = self.ty();
                        let idx = match self.cst(&it) {
                            Cst::Int(w, v) => crate::expr::sx(v, w) as i64,
                            Cst::Zero => 0,
                            c => panic!("const gep idx {c:?}"),
                        };
                        if first {
                            off += idx * cur.size() as i64;
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => off += cur.field_off(idx as u64) as i64,
                                _ => off += idx * cur.field_ty(0).size() as i64,
                            }
                            cur = cur.field_ty(idx as u64);
                        }
                    }
                    self.exp(')');
                    match base {
                        Cst::Global(n, o) => Cst::Global(n, o + off),
                        Cst::Int(w, v) => Cst::Int(w, v.wrapping_add(off as u64 as u128) & crate::expr::mask(64)),
                        c => panic!("gep base {c:?}"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                    self.exp('(');
                    let a = self.ty();
                    let c = self.cst(&a);
                    self.eatw("to");
                    let b = self.ty();
                    self.exp(')');
                    if w == "ptrtoint" && b.bits() < 64 {
                        Cst::Trunc(Box::new(c), b.bits())
                    } else {
                        c
                    }
                }
                "trunc" => {
                    self.exp('(');
                    let a = self.ty();
                    let c = self.cst(&a);
                    self.eatw("to");
                    let b = self.ty();
                    self.exp(')');
                    Cst::Trunc(Box::new(c), b.bits())
                }
                "sub" | "add" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.exp('(');
                    let a = self.ty();
                    let c = self.cst(&a);
                    self.exp(',');
                    let b = self.ty();
                    let d = self.cst(&b);
                    self.exp(')');
                    if w == "sub" {
                        Cst::Sub(Box::new(c), Box::new(d))
                    } else {
                        Cst::Add(Box::new(c), Box::new(d))
                    }
                }
                w if w.starts_with("f0x") => Cst::Int(t.bits(), u128::from_str_radix(&w[3..], 16).unwrap()),
                _ => panic!("const word {w} in {:?}", self.t),
            },
            Tok::Meta(_) => Cst::Undef,
            Tok::P(c) if (c == '+' || c == '-') && matches!(self.t.get(self.i), Some(Tok::W(w)) if w.starts_with("inf") || w.starts_with("nan")) => {
                let nan = matches!(self.t.get(self.i), Some(Tok::W(w)) if w.starts_with("nan"));
                self.i += 1;
                if nan && self.isp('(') {
                    while !self.eatp(')') {
                        self.i += 1;
                    }
                }
                let wd = t.bits();
                let (exp, sign, q) = match wd {
                    64 => (0x7FFu128 << 52, 1u128 << 63, 1u128 << 51),
                    _ => (0xFFu128 << 23, 1u128 << 31, 1u128 << 22),
                };
                Cst::Int(wd, exp | if nan { q } else { 0 } | if c == '-' { sign } else { 0 })
            }
            t => panic!("const tok {t:?} in {:?}", self.t),
        }
    }
    fn csts(&mut self, end: char) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if self.eatp(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.cst(&t);
            v.push((t, c));
            if self.eatp(end) {
                return v;
            }
            self.exp(',');
        }
    }
}

impl Module {
    /// Line numbers of all cover!/check! calls reachable through direct calls from `h`.
    pub fn static_lines(&self, h: &str) -> (Vec<u32>, Vec<u32>) {
        let (mut cov, mut ass) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![h.to_string()];
        while let Some(f) = todo.pop() {
            if !seen.insert(f.clone()) {
                continue;
            }
            let Some((l0, _)) = self.funcs.get(&f) else { continue };
            for l in &self.text[l0 + 1..] {
                if l.starts_with('}') {
                    break;
                }
                let last = |l: &str| -> Option<u32> {
                    let e = l.find(") #").or_else(|| l.find("), !dbg")).or_else(|| l.rfind(')'))?;
                    l[..e].rsplit(' ').next()?.parse().ok()
                };
                if l.contains("@vt_cover(") || l.contains("@vt_cover_if(") {
                    cov.extend(last(l));
                } else if l.contains("@vt_assert(") {
                    ass.extend(last(l));
                } else {
                    for part in l.split('@').skip(1) {
                        let n: String = if let Some(q) = part.strip_prefix('"') {
                            q.split('"').next().unwrap_or("").to_string()
                        } else {
                            part.chars().take_while(|c| c.is_alphanumeric() || "_.$-".contains(*c)).collect()
                        };
                        if self.funcs.contains_key(&n) {
                            todo.push(n);
                        }
                    }
                }
            }
        }
        (cov.into_iter().collect(), ass.into_iter().collect())
    }
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            text: vec![],
            funcs: HashMap::new(),
            globals: HashMap::new(),
            order: vec![],
            named: HashMap::new(),
            aliases: HashMap::new(),
            meta: HashMap::new(),
        };
        // named types first (may reference each other; iterate twice)
        for _ in 0..3 {
            for l in &lines {
                if l.starts_with('%') {
                    if let Some((n, rest)) = l.split_once(" = type ") {
                        let name = n[1..].trim_matches('"').to_string();
                        let ty = {
                            let mut p = Ps { t: lex(rest), i: 0, m: &m, regs: None };
                            p.ty()
                        };
                        m.named.insert(name, ty);
                    }
                }
            }
        }
        for (i, l) in lines.iter().enumerate() {
            if l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let t = lex(&l[at..]);
                if let Tok::Glob(n) = &t[0] {
                    let mut pretty = String::new();
                    for back in 1..=2 {
                        if i >= back {
                            if let Some(c) = lines[i - back].strip_prefix("; ") {
                                if !c.starts_with("Function Attrs") {
                                    pretty = c.to_string();
                                    break;
                                }
                            }
                        }
                    }
                    m.funcs.insert(n.clone(), (i, pretty));
                }
            } else if l.starts_with('@') {
                m.global_line(l);
            } else if l.starts_with('!') && (l.contains("DILocation(") || l.contains("DISubprogram(") || l.contains("DILexicalBlock") || l.contains("DIFile(") || l.contains("DINamespace(") || l.contains("DICompositeType(") || l.contains("DIBasicType(")) {
                if let Some((n, rest)) = l.split_once(" = ") {
                    if let Ok(k) = n[1..].parse::<u32>() {
                        m.meta.insert(k, rest.to_string());
                    }
                }
            }
        }
        m.text = lines;
        m
    }
    fn global_line(&mut self, l: &str) {
        let toks = lex(l);
        let name = match &toks[0] {
            Tok::Glob(n) => n.clone(),
            _ => return,
        };
        if let Some(p) = toks.iter().position(|t| *t == Tok::W("alias".into())) {
            // @a = alias ty, ptr @b
            if let Some(Tok::Glob(b)) = toks[p..].iter().rev().find(|t| matches!(t, Tok::Glob(_))) {
                self.aliases.insert(name, b.clone());
            }
            return;
        }
        let kind = toks.iter().position(|t| *t == Tok::W("global".into()) || *t == Tok::W("constant".into()));
        let Some(k) = kind else { return };
        let constant = toks[k] == Tok::W("constant".into());
        let external = toks[..k].iter().any(|t| *t == Tok::W("external".into()) || *t == Tok::W("extern_weak".into()));
        let (ty, align) = {
            let mut p = Ps { t: toks.clone(), i: k + 1, m: self, regs: None };
            let ty = p.ty();
            let mut align = ty.align();
            let n = p.t.len();
            for j in 0..n.saturating_sub(1) {
                if p.t[j] == Tok::W("align".into()) {
                    if let Tok::Num(s) = &p.t[j + 1] {
                        align = s.parse().unwrap_or(align);
                    }
                }
            }
            (ty, align)
        };
        self.order.push(name.clone());
        self.globals.insert(
            name,
            GlobalDef { ty, init: if external { None } else { Some(l.to_string()) }, align, constant },
        );
    }
    pub fn global_init(&self, name: &str) -> Option<(Ty, Cst)> {
        let g = &self.globals[name];
        let l = g.init.as_ref()?;
        let toks = lex(l);
        let k = toks.iter().position(|t| *t == Tok::W("global".into()) || *t == Tok::W("constant".into()))?;
        let mut p = Ps { t: toks, i: k + 1, m: self, regs: None };
        let ty = p.ty();
        let c = p.cst(&ty);
        Some((ty, c))
    }
    pub fn resolve<'b>(&'b self, n: &'b str) -> &'b str {
        let mut cur = n;
        while let Some(a) = self.aliases.get(cur) {
            cur = a;
        }
        cur
    }

    pub fn parse_func(&self, name: &str, id: usize) -> Option<Func> {
        let (start, pretty) = self.funcs.get(name)?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        let head = &self.text[*start];
        let at = head.find('@').unwrap();
        let mut params = vec![];
        {
            let t = lex(&head[at..]);
            let mut p = Ps { t, i: 1, m: self, regs: Some(&mut regs) };
            p.exp('(');
            let mut idx = 0;
            if !p.eatp(')') {
                loop {
                    if p.eatw("...") {
                        p.exp(')');
                        break;
                    }
                    let _t = p.ty();
                    p.skip_attrs();
                    let n = if let Some(Tok::Reg(_)) = p.peek() {
                        if let Tok::Reg(n) = p.next() {
                            n
                        } else {
                            unreachable!()
                        }
                    } else {
                        idx.to_string()
                    };
                    idx += 1;
                    let r = p.reg(&n);
                    params.push(r);
                    if p.eatp(')') {
                        break;
                    }
                    p.exp(',');
                }
            }
        }
        // collect labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks_lines: Vec<Vec<String>> = vec![];
        let mut i = start + 1;
        let mut first = true;
        loop {
            let l = &self.text[i];
            if l == "}" {
                break;
            }
            let tl = l.trim_end();
            if tl.is_empty() || tl.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !tl.starts_with(' ') {
                // label
                let lab = if let Some(r) = tl.strip_prefix('"') {
                    r.split('"').next().unwrap().to_string()
                } else {
                    tl.split(':').next().unwrap().to_string()
                };
                labels.insert(lab, blocks_lines.len() as u32);
                blocks_lines.push(vec![]);
                first = false;
            } else {
                if first {
                    labels.insert("__entry".into(), 0);
                    blocks_lines.push(vec![]);
                    first = false;
                }
                let mut line = tl.to_string();
                // multi-line switch
                if line.trim_start().starts_with("switch ") && !line.contains(']') {
                    loop {
                        i += 1;
                        line.push(' ');
                        line.push_str(self.text[i].trim());
                        if self.text[i].trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
                // multi-line invoke ("to label ... unwind label ...")
                if line.contains("invoke ") && !line.contains(" to label ") {
                    i += 1;
                    line.push(' ');
                    line.push_str(self.text[i].trim());
                }
                // landingpad clauses
                if line.contains("landingpad") {
                    while {
                        let n = self.text[i + 1].trim_start();
                        n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ")
                    } {
                        i += 1;
                    }
                }
                blocks_lines.last_mut().unwrap().push(line);
            }
            i += 1;
        }
        // the implicit entry label may be referenced as the next number after params
        let mut blocks = vec![];
        let lab = |labels: &HashMap<String, u32>, n: &str| -> u32 {
            if let Some(&x) = labels.get(n) {
                x
            } else {
                0
            }
        };
        for bl in &blocks_lines {
            let mut phis = vec![];
            let mut insts = vec![];
            for l in bl {
                let t = lex(l);
                let mut p = Ps { t, i: 0, m: self, regs: Some(&mut regs) };
                let mut dst = None;
                if p.t.len() > 1 && p.t[1] == Tok::P('=') {
                    if let Tok::Reg(n) = p.next() {
                        dst = Some(p.reg(&n));
                        p.i += 1;
                    }
                }
                let mut dbg = 0;
                for j in 0..p.t.len().saturating_sub(1) {
                    if let (Tok::Meta(a), Tok::Meta(b)) = (&p.t[j], &p.t[j + 1]) {
                        if a == "dbg" {
                            dbg = b.parse().unwrap_or(0);
                        }
                    }
                }
                if p.isw("phi") {
                    p.i += 1;
                    while matches!(p.peek(), Some(Tok::W(w)) if ["nnan","ninf","nsz","arcp","contract","afn","reassoc","fast"].contains(&w.as_str())) {
                        p.i += 1;
                    }
                    let ty = p.ty();
                    let mut inc = vec![];
                    loop {
                        p.exp('[');
                        let o = p.opnd(&ty);
                        p.exp(',');
                        if let Tok::Reg(n) = p.next() {
                            inc.push((lab(&labels, &n), o));
                        }
                        p.exp(']');
                        if !p.eatp(',') {
                            break;
                        }
                        if !p.isp('[') {
                            break;
                        }
                    }
                    phis.push((dst.unwrap(), ty, inc));
                    continue;
                }
                let mut next = None;
                let ii = Self::inst(&mut p, &labels, &mut next, l);
                let ord = ordering(&ii, l);
                insts.push(Inst { dst, i: ii, dbg, ord, next });
            }
            blocks.push(Block { phis, insts, live: vec![], ipdom: None });
        }
        let mut f = Func {
            name: name.to_string(),
            pretty: pretty.clone(),
            params,
            nregs: regs.len(),
            blocks,
            id,
        };
        analyse(&mut f);
        Some(f)
    }

    fn inst(p: &mut Ps, labels: &HashMap<String, u32>, next: &mut Option<u32>, line: &str) -> I {
        let lab = |t: Tok| -> u32 {
            if let Tok::Reg(n) = t {
                *labels.get(&n).unwrap_or(&0)
            } else {
                panic!("label")
            }
        };
        let op = match p.next() {
            Tok::W(w) => w,
            t => panic!("inst {t:?}: {line}"),
        };
        let skip_flags = |p: &mut Ps| {
            while matches!(p.peek(), Some(Tok::W(w)) if ["nuw","nsw","exact","disjoint","nneg","inbounds","nusw","samesign","nnan","ninf","nsz","arcp","contract","afn","reassoc","fast","volatile"].contains(&w.as_str()))
            {
                p.i += 1;
            }
        };
        let op = if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            p.i += 1;
            "call".to_string()
        } else {
            op
        };
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_flags(p);
                let t = p.ty();
                let a = p.opnd(&t);
                p.exp(',');
                let b = p.opnd(&t);
                let k = match op.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                I::Bin(k, t, a, b)
            }
            "fneg" => {
                skip_flags(p);
                let t = p.ty();
                let a = p.opnd(&t);
                I::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                skip_flags(p);
                let pred = match p.next() {
                    Tok::W(w) => w,
                    _ => panic!(),
                };
                let t = p.ty();
                let a = p.opnd(&t);
                p.exp(',');
                let b = p.opnd(&t);
                if op == "icmp" {
                    I::ICmp(pred, t, a, b)
                } else {
                    I::FCmp(pred, t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                skip_flags(p);
                let t = p.ty();
                let a = p.opnd(&t);
                p.eatw("to");
                let u = p.ty();
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptosi" => Cast::FpToSi,
                    "fptoui" => Cast::FpToUi,
                    "sitofp" => Cast::SiToFp,
                    "uitofp" => Cast::UiToFp,
                    "fpext" | "fptrunc" => Cast::FpExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (x, y) = (t.bits(), u.bits());
                        if x < y {
                            Cast::ZExt
                        } else if x > y {
                            Cast::Trunc
                        } else {
                            Cast::Same
                        }
                    }
                    _ => Cast::Same,
                };
                I::Cast(k, t, u, a)
            }
            "select" => {
                skip_flags(p);
                let ct = p.ty();
                let c = p.opnd(&ct);
                p.exp(',');
                let t = p.ty();
                let a = p.opnd(&t);
                p.exp(',');
                let t2 = p.ty();
                let b = p.opnd(&t2);
                I::Select(ct, c, t, a, b)
            }
            "load" => {
                let at = p.eatw("atomic");
                skip_flags(p);
                let t = p.ty();
                p.exp(',');
                let pt = p.ty();
                let a = p.opnd(&pt);
                I::Load(t, a, at)
            }
            "store" => {
                let at = p.eatw("atomic");
                skip_flags(p);
                let t = p.ty();
                let v = p.opnd(&t);
                p.exp(',');
                let pt = p.ty();
                let a = p.opnd(&pt);
                I::Store(t, v, a, at)
            }
            "getelementptr" => {
                skip_flags(p);
                let bt = p.ty();
                p.exp(',');
                let pt = p.ty();
                if pt != Ty::Ptr {
                    return I::Unsupported(line.to_string());
                }
                let base = p.opnd(&pt);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.eatp(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let it = p.ty();
                    if !it.is_scalar() {
                        return I::Unsupported(line.to_string());
                    }
                    let idx = p.opnd(&it);
                    if first {
                        first = false;
                        let s = cur.size() as i64;
                        match idx {
                            Opnd::C(Cst::Int(w, v)) => off = off.wrapping_add((crate::expr::sx(v, w) as i64).wrapping_mul(s)),
                            o => dynv.push((s, it.bits(), o)),
                        }
                    } else {
                        match (&cur, idx) {
                            (Ty::Struct(..), Opnd::C(Cst::Int(_, v))) => {
                                off += cur.field_off(v as u64) as i64;
                                cur = cur.field_ty(v as u64);
                            }
                            (_, Opnd::C(Cst::Int(w, v))) => {
                                let s = cur.field_ty(0).size() as i64;
                                off = off.wrapping_add((crate::expr::sx(v, w) as i64).wrapping_mul(s));
                                cur = cur.field_ty(0);
                            }
                            (_, o) => {
                                let s = cur.field_ty(0).size() as i64;
                                dynv.push((s, it.bits(), o));
                                cur = cur.field_ty(0);
                            }
                        }
                    }
                }
                I::Gep(base, off, dynv)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty();
                let mut n = None;
                let mut align = t.align();
                while p.eatp(',') {
                    if p.eatw("align") {
                        align = p.num() as u64;
                    } else if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    } else {
                        let it = p.ty();
                        n = Some(p.opnd(&it));
                    }
                }
                I::Alloca(t.size(), align, Ty::Int(64), n)
            }
            "call" | "invoke" => {
                // flags / cconv / ret attrs until a type
                loop {
                    match p.peek() {
                        Some(Tok::W(w)) => {
                            let w = w.clone();
                            if w == "ptr" || w == "void" || w == "float" || w == "double" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) {
                                break;
                            }
                            p.i += 1;
                            if p.isp('(') {
                                p.skip_parens();
                            } else if w == "align" {
                                if let Some(Tok::Num(_)) = p.peek() {
                                    p.i += 1;
                                }
                            } else if w == "cc" {
                                p.i += 1;
                            }
                        }
                        Some(Tok::Num(_)) => p.i += 1,
                        Some(Tok::Str(_)) => {
                            p.i += 1;
                            if p.eatp('=') {
                                p.i += 1;
                            }
                        }
                        _ => break,
                    }
                }
                let rt = p.ty();
                // optional function type for varargs: "(ptr, ...)"
                if p.isp('(') {
                    p.skip_parens();
                }
                let callee = match p.next() {
                    Tok::Glob(n) => Callee::Direct(p.m.resolve(&n).to_string()),
                    Tok::Reg(n) => {
                        let r = p.reg(&n);
                        Callee::Indirect(Opnd::Reg(r))
                    }
                    Tok::W(w) if w == "asm" => {
                        let mut s = String::new();
                        while !p.isp('(') {
                            if let Tok::Str(b) = p.next() {
                                s.push_str(&String::from_utf8_lossy(&b));
                                s.push('|');
                            }
                        }
                        Callee::Asm(s)
                    }
                    Tok::W(_) => {
                        p.i -= 1;
                        let c = p.cst(&Ty::Ptr);
                        Callee::Indirect(Opnd::C(c))
                    }
                    t => panic!("callee {t:?} {line}"),
                };
                p.exp('(');
                let mut args = vec![];
                if !p.eatp(')') {
                    loop {
                        let t = p.ty();
                        if t == Ty::Opaque {
                            // metadata argument
                            let mut d = 0;
                            while let Some(k) = p.peek() {
                                match k {
                                    Tok::P('(') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((Ty::Opaque, Opnd::C(Cst::Undef)));
                        } else {
                            p.skip_attrs();
                            let o = p.opnd(&t);
                            args.push((t, o));
                        }
                        if p.eatp(')') {
                            break;
                        }
                        p.exp(',');
                    }
                }
                if op == "invoke" {
                    while !p.eatw("to") {
                        p.i += 1;
                    }
                    p.eatw("label");
                    *next = Some(lab(p.next()));
                }
                I::Call(rt, callee, args)
            }
            "br" => {
                if p.eatw("label") {
                    I::Br(lab(p.next()))
                } else {
                    let t = p.ty();
                    let c = p.opnd(&t);
                    p.exp(',');
                    p.eatw("label");
                    let a = lab(p.next());
                    p.exp(',');
                    p.eatw("label");
                    let b = lab(p.next());
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty();
                let v = p.opnd(&t);
                p.exp(',');
                p.eatw("label");
                let d = lab(p.next());
                p.exp('[');
                let mut cs = vec![];
                while !p.eatp(']') {
                    let ct = p.ty();
                    let c = match p.cst(&ct) {
                        Cst::Int(_, v) => v,
                        c => panic!("switch {c:?}"),
                    };
                    p.exp(',');
                    p.eatw("label");
                    cs.push((c, lab(p.next())));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    I::Ret(t, None)
                } else {
                    let o = p.opnd(&t);
                    I::Ret(t, Some(o))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unsupported("resume".into()),
            "extractvalue" => {
                let t = p.ty();
                let o = p.opnd(&t);
                let mut ix = vec![];
                while p.eatp(',') {
                    if !matches!(p.peek(), Some(Tok::Num(_))) {
                        break;
                    }
                    ix.push(p.num() as u64);
                }
                I::ExtractValue(t, o, ix)
            }
            "insertvalue" => {
                let t = p.ty();
                let o = p.opnd(&t);
                p.exp(',');
                let t2 = p.ty();
                let v = p.opnd(&t2);
                let mut ix = vec![];
                while p.eatp(',') {
                    if !matches!(p.peek(), Some(Tok::Num(_))) {
                        break;
                    }
                    ix.push(p.num() as u64);
                }
                I::InsertValue(t, o, t2, v, ix)
            }
            "freeze" => {
                let t = p.ty();
                let o = p.opnd(&t);
                I::Freeze(t, o)
            }
            "atomicrmw" => {
                skip_flags(p);
                let k = match p.next() {
                    Tok::W(w) => w,
                    _ => panic!(),
                };
                let pt = p.ty();
                let a = p.opnd(&pt);
                p.exp(',');
                let t = p.ty();
                let v = p.opnd(&t);
                I::Rmw(k, t, a, v)
            }
            "cmpxchg" => {
                p.eatw("weak");
                skip_flags(p);
                let pt = p.ty();
                let a = p.opnd(&pt);
                p.exp(',');
                let t = p.ty();
                let c = p.opnd(&t);
                p.exp(',');
                let t2 = p.ty();
                let n = p.opnd(&t2);
                I::CmpXchg(t, a, c, n)
            }
            "fence" => I::Fence,
            _ => I::Unsupported(line.trim().to_string()),
        }
    }

    /// Resolve a debug location id to the chain of (function, file:line) it stands for.
    pub fn dbg_funcs(&self, id: u32, out: &mut std::collections::BTreeSet<String>) {
        let mut cur = Some(id);
        let mut guard = 0;
        while let Some(k) = cur {
            guard += 1;
            if guard > 200 {
                break;
            }
            let Some(t) = self.meta.get(&k) else { break };
            if let Some(sc) = field(t, "scope: !") {
                if let Some(n) = self.subprogram(sc) {
                    out.insert(n);
                }
            }
            cur = field(t, "inlinedAt: !");
        }
    }
    /// The source lines a debug location id stands for.
    pub fn dbg_lines(&self, id: u32, out: &mut std::collections::BTreeSet<String>) {
        let mut cur = Some(id);
        let mut guard = 0;
        while let Some(k) = cur {
            guard += 1;
            if guard > 200 {
                break;
            }
            let Some(t) = self.meta.get(&k) else { break };
            if let (Some(l), Some(sc)) = (field(t, "line: "), field(t, "scope: !")) {
                let file = self.meta.get(&sc).and_then(|s| field(s, "file: !")).and_then(|f| self.meta.get(&f));
                if let Some((f, d)) = file.and_then(|f| Some((sfield(f, "filename: \"")?, sfield(f, "directory: \"")?))) {
                    out.insert(format!("{d}/{f}:{l}"));
                }
            }
            cur = field(t, "inlinedAt: !");
        }
    }
    fn subprogram(&self, mut k: u32) -> Option<String> {
        for _ in 0..50 {
            let t = self.meta.get(&k)?;
            if t.contains("DISubprogram(") {
                let name = sfield(t, "name: \"")?;
                let mut path = String::new();
                let mut sc = field(t, "scope: !");
                let mut n = 0;
                while let Some(s) = sc {
                    n += 1;
                    if n > 20 {
                        break;
                    }
                    let Some(st) = self.meta.get(&s) else { break };
                    if st.contains("DIFile(") {
                        break;
                    }
                    if let Some(nm) = sfield(st, "name: \"") {
                        path = format!("{nm}::{path}");
                    }
                    sc = field(st, "scope: !");
                }
                return Some(format!("{path}{name}"));
            }
            k = field(t, "scope: !")?;
        }
        None
    }
}

fn field(t: &str, k: &str) -> Option<u32> {
    let i = t.find(k)? + k.len();
    let r = &t[i..];
    let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..e].parse().ok()
}
fn sfield(t: &str, k: &str) -> Option<String> {
    let i = t.find(k)? + k.len();
    let r = &t[i..];
    Some(r[..r.find('"')?].to_string())
}

fn succs(b: &Block) -> Vec<u32> {
    let last = b.insts.last().unwrap();
    match &last.i {
        I::Br(x) => vec![*x],
        I::CondBr(_, x, y) => vec![*x, *y],
        I::Switch(_, _, d, cs) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|c| c.1));
            v
        }
        I::Call(..) => last.next.into_iter().collect(),
        _ => vec![],
    }
}
fn uses(i: &I, f: &mut dyn FnMut(&Opnd)) {
    match i {
        I::Bin(_, _, a, b) | I::ICmp(_, _, a, b) | I::FCmp(_, _, a, b) => {
            f(a);
            f(b)
        }
        I::FNeg(_, a) | I::Cast(_, _, _, a) | I::Load(_, a, _) | I::ExtractValue(_, a, _) | I::Freeze(_, a) => f(a),
        I::Select(_, c, _, a, b) => {
            f(c);
            f(a);
            f(b)
        }
        I::Store(_, a, b, _) | I::Rmw(_, _, a, b) => {
            f(a);
            f(b)
        }
        I::Gep(b, _, v) => {
            f(b);
            for x in v {
                f(&x.2)
            }
        }
        I::Alloca(_, _, _, Some(n)) => f(n),
        I::Call(_, c, args) => {
            if let Callee::Indirect(o) = c {
                f(o)
            }
            for a in args {
                f(&a.1)
            }
        }
        I::CondBr(c, _, _) => f(c),
        I::Switch(_, v, _, _) => f(v),
        I::Ret(_, Some(o)) => f(o),
        I::InsertValue(_, a, _, b, _) => {
            f(a);
            f(b)
        }
        I::CmpXchg(_, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        _ => {}
    }
}

/// liveness and immediate post-dominators
fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let words = (f.nregs + 63) / 64;
    let mut live_in = vec![vec![0u64; words]; n]; // before phis' definitions removed (i.e. after phis)
    let mut gen = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    for (bi, b) in f.blocks.iter().enumerate() {
        for ins in &b.insts {
            uses(&ins.i, &mut |o| {
                if let Opnd::Reg(r) = o {
                    let (w, m) = (*r as usize / 64, 1u64 << (*r % 64));
                    if kill[bi][w] & m == 0 {
                        gen[bi][w] |= m;
                    }
                }
            });
            if let Some(d) = ins.dst {
                kill[bi][d as usize / 64] |= 1 << (d % 64);
            }
        }
    }
    let mut ch = true;
    while ch {
        ch = false;
        for bi in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &succ[bi] {
                let sb = &f.blocks[s as usize];
                let mut li = live_in[s as usize].clone();
                for (d, _, _) in &sb.phis {
                    li[*d as usize / 64] &= !(1 << (*d % 64));
                }
                for (_, _, inc) in &sb.phis {
                    for (p, o) in inc {
                        if *p as usize == bi {
                            if let Opnd::Reg(r) = o {
                                li[*r as usize / 64] |= 1 << (*r % 64);
                            }
                        }
                    }
                }
                for w in 0..words {
                    out[w] |= li[w];
                }
            }
            for w in 0..words {
                let v = gen[bi][w] | (out[w] & !kill[bi][w]);
                if v != live_in[bi][w] {
                    live_in[bi][w] = v;
                    ch = true;
                }
            }
        }
    }
    for bi in 0..n {
        let mut v = vec![];
        for w in 0..words {
            let mut x = live_in[bi][w];
            while x != 0 {
                v.push((w * 64) as u32 + x.trailing_zeros());
                x &= x - 1;
            }
        }
        f.blocks[bi].live = v;
    }
    // post-dominators on the reverse CFG with a virtual exit (index n); blocks that end in
    // `unreachable` (panics) are not exits: paths through them never come back.
    let mut is_exit = vec![false; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        if matches!(b.insts.last().unwrap().i, I::Ret(..)) {
            is_exit[bi] = true;
        }
    }
    // which blocks can reach an exit
    let mut reach = is_exit.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for bi in 0..n {
            if !reach[bi] && succ[bi].iter().any(|&s| reach[s as usize]) {
                reach[bi] = true;
                ch = true;
            }
        }
    }
    // reverse postorder on the reverse graph
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for bi in 0..n {
        if !reach[bi] {
            continue;
        }
        if is_exit[bi] {
            preds[n].push(bi);
        }
        for &s in &succ[bi] {
            if reach[s as usize] {
                preds[s as usize].push(bi);
            }
        }
    }
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = st.pop() {
        if k < preds[x].len() {
            st.push((x, k + 1));
            let y = preds[x][k];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut rpo = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        rpo[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut new = usize::MAX;
            let mut ss: Vec<usize> = succ[x].iter().map(|&s| s as usize).filter(|&s| reach[s]).collect();
            if is_exit[x] {
                ss.push(n);
            }
            for s in ss {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while rpo[a] > rpo[b] {
                            a = idom[a];
                        }
                        while rpo[b] > rpo[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != idom[x] {
                idom[x] = new;
                ch = true;
            }
        }
    }
    for bi in 0..n {
        f.blocks[bi].ipdom = if idom[bi] == usize::MAX || idom[bi] == n { None } else { Some(idom[bi] as u32) };
    }
}

fn ordering(i: &I, line: &str) -> u8 {
    let acq = |w: &str| matches!(w, "acquire" | "acq_rel" | "seq_cst");
    let rel = |w: &str| matches!(w, "release" | "acq_rel" | "seq_cst");
    let ws: Vec<&str> = line.split([' ', ',']).filter(|w| matches!(*w, "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst")).collect();
    let mut o = 0;
    match i {
        I::Load(_, _, true) | I::Store(_, _, _, true) | I::Rmw(..) | I::CmpXchg(..) => {
            if let Some(w) = ws.first() {
                o |= acq(w) as u8 | (rel(w) as u8) << 1;
            }
            if let (I::CmpXchg(..), Some(w)) = (i, ws.get(1)) {
                o |= (acq(w) as u8) << 2;
            }
        }
        _ => {}
    }
    o
}
