//! The symbolic executor proper.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{fpk, Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u16, u128),
    E(E),
    Agg(Rc<Vec<V>>),
    Undef,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    C(u8),
    S(E, u8),
    U,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub bytes: Vec<B>,
    pub kind: Kind,
    pub align: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Const,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: usize,
    prev: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    next: Option<u32>,
}

#[derive(Clone)]
pub struct Thread {
    frames: Vec<Rc<Frame>>,
    joining: bool,
    /// it spins, and no atomic has changed since
    spun: bool,
}

#[derive(Clone)]
pub struct State {
    th: Vec<Thread>,
    cur: usize,
    mem: BTreeMap<u64, Rc<Obj>>,
    next: u64,
    pc: Vec<E>,
    conc: HashMap<E, u128>,
    model: Rc<Model>,
    inputs: Vec<(u16, V)>,
    panic_ok: E,
    merge: u8,
    switches: u32,
    /// turns given to spinning threads since an atomic changed
    spins: u32,
    max_switches: u32,
    resume: bool,
    ninst: u64,
    /// the thread chosen at every scheduling decision so far
    sched: Vec<u32>,
    /// vector clocks and access history, kept while more than one thread exists
    clk: Vec<Vec<u32>>,
    shadow: Rc<HashMap<u64, Sh>>,
    sync: Rc<HashMap<u64, Vec<u32>>>,
}

impl State {
    /// an atomic changed: threads that spin may go on
    fn changed(&mut self) {
        self.spins = 0;
        for t in &mut self.th {
            t.spun = false;
        }
    }
}

/// Last accesses to one byte, per thread, as vector-clock components.
#[derive(Clone, Default)]
struct Sh {
    nw: Vec<u32>,
    nr: Vec<u32>,
    aw: Vec<u32>,
    ar: Vec<u32>,
}
fn vc_le(a: &[u32], b: &[u32]) -> bool {
    a.iter().enumerate().all(|(i, &x)| x <= *b.get(i).unwrap_or(&0))
}
fn vc_join(a: &mut Vec<u32>, b: &[u32]) {
    for (i, &x) in b.iter().enumerate() {
        if i >= a.len() {
            a.push(x);
        } else if a[i] < x {
            a[i] = x;
        }
    }
}
fn vc_set(a: &mut Vec<u32>, t: usize, x: u32) {
    while a.len() <= t {
        a.push(0);
    }
    a[t] = x;
}

#[derive(Clone, Copy, PartialEq)]
enum Stop {
    None,
    Block(usize, u32),
    Ret(usize),
}

enum Step {
    Cont,
    End,
    /// fork after a branch: (states, use merge point of current block)
    Branch(Vec<State>, Option<Stop>),
    /// the instruction must be re-executed in these states (the current one is consumed)
    Split(Vec<State>),
}

const FN_BASE: u64 = 0x5400_0000_0000;
const GL_BASE: u64 = 0x5500_0000_0000;
const OBJ_BASE: u64 = 0x5600_0000_0000;
const OBJ_END: u64 = 0x5800_0000_0000;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u16, u128)>,
    pub stack: Vec<String>,
    pub sched: Vec<u32>,
}

#[derive(Default, Debug)]
pub struct Counters {
    pub paths_done: u64,
    pub paths_panic_ok: u64,
    pub paths_assumed: u64,
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub asserts_trivial: u64,
    pub asserts_solved: u64,
    pub mem_checks: u64,
    pub panic_checks: u64,
}

pub struct Exec {
    pub m: Module,
    funcs: HashMap<String, Option<Rc<Func>>>,
    fn_addr: HashMap<String, u64>,
    fn_name: HashMap<u64, String>,
    gl_addr: HashMap<String, u64>,
    gl_tab: BTreeMap<u64, String>,
    gl_cache: HashMap<String, Rc<Obj>>,
    pub solver: Solver,
    work: Vec<State>,
    pub viol: Option<Violation>,
    pub unknown: Option<String>,
    pub cnt: Counters,
    pub covers: BTreeMap<u32, u64>,
    pub asserts: BTreeMap<u32, u64>,
    pub dbg: BTreeSet<u32>,
    pub fnset: BTreeSet<String>,
    pub deadline: Instant,
    pub max_insts: u64,
    pub trace: bool,
    pub concrete: Option<Vec<u128>>,
    pub replay_sched: Option<Vec<u32>>,
    pub outputs: Vec<u128>,
    pub samples: Vec<(bool, Vec<u128>)>,
    sample_n: u64,
    undef_n: u32,
    sym_for: HashMap<(usize, u16), E>,
    /// results of the maths library's functions, by name and arguments (uninterpreted functions)
    libm: HashMap<(String, Vec<E>), E>,
}

fn mkv(e: E) -> V {
    let n = node(e);
    if n.op == Op::Const {
        V::C(n.w, n.k)
    } else {
        V::E(e)
    }
}
fn ex(v: &V, w: u16) -> E {
    match v {
        V::C(w2, k) => {
            debug_assert_eq!(*w2, w);
            cst(w, *k)
        }
        V::E(e) => *e,
        V::Undef => cst(w, 0),
        V::Agg(_) => panic!("aggregate used as scalar"),
    }
}

fn rnd(f: f64, k: u128) -> f64 {
    match k {
        fpk::FLOOR => f.floor(),
        fpk::CEIL => f.ceil(),
        fpk::TRUNC => f.trunc(),
        _ => f.round(),
    }
}

impl Exec {
    pub fn new(m: Module, deadline: Instant) -> Exec {
        let mut gl_addr = HashMap::new();
        let mut gl_tab = BTreeMap::new();
        let mut a = GL_BASE;
        for n in &m.order {
            let g = &m.globals[n];
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            gl_addr.insert(n.clone(), a);
            gl_tab.insert(a, n.clone());
            a += g.ty.size().max(1) + 4096;
        }
        Exec {
            m,
            funcs: HashMap::new(),
            fn_addr: HashMap::new(),
            fn_name: HashMap::new(),
            gl_addr,
            gl_tab,
            gl_cache: HashMap::new(),
            solver: Solver::new(deadline),
            work: vec![],
            viol: None,
            unknown: None,
            cnt: Counters::default(),
            covers: BTreeMap::new(),
            asserts: BTreeMap::new(),
            dbg: BTreeSet::new(),
            fnset: BTreeSet::new(),
            deadline,
            max_insts: 40_000_000,
            trace: false,
            concrete: None,
            replay_sched: None,
            outputs: vec![],
            samples: vec![],
            sample_n: 0,
            undef_n: 0,
            sym_for: HashMap::new(),
            libm: HashMap::new(),
        }
    }

    fn func(&mut self, n: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(n) {
            return f.clone();
        }
        let id = self.funcs.len();
        let f = self.m.parse_func(n, id).map(Rc::new);
        self.funcs.insert(n.to_string(), f.clone());
        f
    }
    fn faddr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.fn_addr.get(n) {
            return *a;
        }
        let a = FN_BASE + 16 * (self.fn_addr.len() as u64 + 1);
        self.fn_addr.insert(n.to_string(), a);
        self.fn_name.insert(a, n.to_string());
        a
    }
    fn gaddr(&mut self, n: &str) -> u64 {
        let n = self.m.resolve(n).to_string();
        if let Some(a) = self.gl_addr.get(&n) {
            *a
        } else {
            self.faddr(&n)
        }
    }

    pub fn run_harness(&mut self, name: &str) {
        let f = self.func(name).unwrap_or_else(|| panic!("no harness {name}"));
        let fr = Frame {
            regs: vec![V::Undef; f.nregs],
            f,
            bb: 0,
            ip: 0,
            prev: u32::MAX,
            allocas: vec![],
            dst: None,
            next: None,
        };
        let st = State {
            th: vec![Thread { frames: vec![Rc::new(fr)], joining: false, spun: false }],
            cur: 0,
            mem: BTreeMap::new(),
            next: OBJ_BASE,
            pc: vec![],
            conc: HashMap::new(),
            model: Model::new(HashMap::new()),
            inputs: vec![],
            panic_ok: cst(1, 0),
            merge: 0,
            switches: 0,
            spins: 0,
            max_switches: 0,
            resume: false,
            ninst: 0,
            sched: vec![],
            clk: vec![vec![1]],
            shadow: Rc::new(HashMap::new()),
            sync: Rc::new(HashMap::new()),
        };
        self.work.push(st);
        while let Some(s) = self.work.pop() {
            if self.stop_all() {
                break;
            }
            self.run(s, Stop::None);
        }
    }
    fn stop_all(&mut self) -> bool {
        if self.viol.is_some() || self.unknown.is_some() {
            return true;
        }
        if Instant::now() > self.deadline {
            self.unknown = Some("time budget exhausted".into());
            return true;
        }
        false
    }

    fn run(&mut self, mut st: State, stop: Stop) -> Vec<State> {
        let mut k = 0u32;
        loop {
            k += 1;
            if k & 0xfff == 0 && self.stop_all() {
                return vec![];
            }
            let s = self.step(&mut st);
            match s {
                Step::Cont => {}
                Step::End => return vec![],
                Step::Branch(mut v, mp) => {
                    if self.stop_all() {
                        return vec![];
                    }
                    if v.is_empty() {
                        return vec![];
                    }
                    if v.len() == 1 {
                        st = v.pop().unwrap();
                    } else {
                        self.cnt.forks += v.len() as u64 - 1;
                        let merge = v[0].merge > 0 && v[0].th.len() == 1 && mp.is_some();
                        if merge {
                            let mp = mp.unwrap();
                            let mut res = vec![];
                            for s in v {
                                // a branch target may itself be the merge point
                                if reached(&s, mp) {
                                    res.push(s);
                                } else {
                                    res.extend(self.run(s, mp));
                                }
                                if self.stop_all() {
                                    return vec![];
                                }
                            }
                            let mut merged = self.merge_all(res, mp);
                            if merged.is_empty() {
                                return vec![];
                            }
                            if merged.len() == 1 {
                                st = merged.pop().unwrap();
                            } else {
                                let mut out = vec![];
                                for s in merged {
                                    if reached(&s, stop) {
                                        out.push(s);
                                    } else if stop == Stop::None {
                                        self.work.push(s);
                                    } else {
                                        out.extend(self.run(s, stop));
                                    }
                                }
                                return out;
                            }
                        } else if stop == Stop::None {
                            st = v.pop().unwrap();
                            self.work.extend(v);
                        } else {
                            let mut out = vec![];
                            for s in v {
                                if reached(&s, stop) {
                                    out.push(s);
                                } else {
                                    out.extend(self.run(s, stop));
                                }
                                if self.stop_all() {
                                    return vec![];
                                }
                            }
                            return out;
                        }
                    }
                }
                Step::Split(mut v) => {
                    if self.stop_all() || v.is_empty() {
                        return vec![];
                    }
                    self.cnt.forks += v.len() as u64 - 1;
                    st = v.pop().unwrap();
                    if stop == Stop::None {
                        self.work.extend(v);
                    } else if !v.is_empty() {
                        v.push(st);
                        let mut out = vec![];
                        for s in v {
                            out.extend(self.run(s, stop));
                            if self.stop_all() {
                                return vec![];
                            }
                        }
                        return out;
                    }
                    continue;
                }
            }
            if stop != Stop::None && reached(&st, stop) {
                return vec![st];
            }
        }
    }

    // ---------- merging ----------
    fn merge_all(&mut self, v: Vec<State>, mp: Stop) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        'next: for s in v {
            for o in out.iter_mut() {
                if let Some(m) = self.try_merge(o, &s, mp) {
                    *o = m;
                    self.cnt.merges += 1;
                    continue 'next;
                }
            }
            if !out.is_empty() {
                self.cnt.merge_fail += 1;
            }
            out.push(s);
        }
        out
    }
    fn mergeable_c(&self, a: u128, b: u128, w: u16, mode: u8, heap: bool) -> bool {
        if w == 64 {
            let pl = |x: u128| x >= FN_BASE as u128 && x < OBJ_END as u128;
            if pl(a) || pl(b) {
                return false;
            }
            if mode == 1 && !heap {
                return false;
            }
        }
        true
    }
    fn merge_v(&self, g: E, a: &V, b: &V, mode: u8) -> Option<V> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (V::Undef, x) | (x, V::Undef) => Some(x.clone()),
            (V::C(w, x), V::C(w2, y)) if w == w2 => {
                if !self.mergeable_c(*x, *y, *w, mode, false) {
                    return None;
                }
                Some(mkv(ite(g, cst(*w, *x), cst(*w, *y))))
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let mut o = vec![];
                for i in 0..x.len() {
                    o.push(self.merge_v(g, &x[i], &y[i], mode)?);
                }
                Some(V::Agg(Rc::new(o)))
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => None,
            _ => {
                let w = match (a, b) {
                    (V::E(e), _) | (_, V::E(e)) => width(*e),
                    _ => return None,
                };
                if let (V::C(_, x), _) | (_, V::C(_, x)) = (a, b) {
                    if w == 64 && *x >= FN_BASE as u128 && *x < OBJ_END as u128 {
                        return None;
                    }
                }
                Some(mkv(ite(g, ex(a, w), ex(b, w))))
            }
        }
    }
    fn try_merge(&mut self, a: &State, b: &State, mp: Stop) -> Option<State> {
        if a.th.len() != 1 || b.th.len() != 1 || a.inputs.len() != b.inputs.len() || a.panic_ok != b.panic_ok || a.merge != b.merge {
            return None;
        }
        if a.inputs != b.inputs {
            return None;
        }
        let (fa, fb) = (&a.th[0].frames, &b.th[0].frames);
        if fa.len() != fb.len() {
            return None;
        }
        let mut p = 0;
        while p < a.pc.len() && p < b.pc.len() && a.pc[p] == b.pc[p] {
            p += 1;
        }
        let conj = |v: &[E]| v.iter().fold(cst(1, 1), |x, &y| and(x, y));
        let (sa, sb) = (conj(&a.pc[p..]), conj(&b.pc[p..]));
        let g = sa;
        let mode = a.merge;
        let mut nframes = vec![];
        for i in 0..fa.len() {
            let top = i + 1 == fa.len();
            if Rc::ptr_eq(&fa[i], &fb[i]) {
                nframes.push(fa[i].clone());
                continue;
            }
            if fa[i].f.id != fb[i].f.id || fa[i].bb != fb[i].bb || fa[i].ip != fb[i].ip || fa[i].allocas != fb[i].allocas {
                return None;
            }
            let mut nf = (*fa[i]).clone();
            if top && matches!(mp, Stop::Block(..)) {
                for r in nf.regs.iter_mut() {
                    *r = V::Undef;
                }
                for &r in &fa[i].f.blocks[fa[i].bb as usize].live {
                    let r = r as usize;
                    nf.regs[r] = self.merge_v(g, &fa[i].regs[r], &fb[i].regs[r], mode)?;
                }
                // phis of this block were already evaluated and may be live too
            } else {
                for r in 0..nf.regs.len() {
                    if fa[i].regs[r] != fb[i].regs[r] {
                        nf.regs[r] = self.merge_v(g, &fa[i].regs[r], &fb[i].regs[r], mode)?;
                    }
                }
            }
            nframes.push(Rc::new(nf));
        }
        // memory
        let mut mem = a.mem.clone();
        for (k, ob) in &b.mem {
            match a.mem.get(k) {
                None => {
                    mem.insert(*k, ob.clone());
                }
                Some(oa) => {
                    if Rc::ptr_eq(oa, ob) {
                        continue;
                    }
                    if oa.bytes.len() != ob.bytes.len() || oa.kind != ob.kind {
                        return None;
                    }
                    let heap = oa.kind == Kind::Heap;
                    let mut no: Option<Obj> = None;
                    for i in 0..oa.bytes.len() {
                        let (x, y) = (oa.bytes[i], ob.bytes[i]);
                        if x == y {
                            continue;
                        }
                        let nb = match (x, y) {
                            (B::U, z) | (z, B::U) => z,
                            _ => {
                                // refuse to merge concrete words that look like pointers / lengths
                                if let (B::C(_), B::C(_)) = (x, y) {
                                    let al = i & !7;
                                    if let (Some(wa), Some(wb)) = (cword(oa, al), cword(ob, al)) {
                                        if !self.mergeable_c(wa as u128, wb as u128, 64, mode, heap) {
                                            return None;
                                        }
                                    }
                                } else {
                                    let al = i & !7;
                                    for o in [oa, ob] {
                                        if let Some(w) = cword(o, al) {
                                            if w >= FN_BASE && w < OBJ_END {
                                                return None;
                                            }
                                        }
                                    }
                                }
                                let e = ite(g, byte_e(x), byte_e(y));
                                match is_const(e) {
                                    Some(c) => B::C(c as u8),
                                    None => B::S(e, 0),
                                }
                            }
                        };
                        no.get_or_insert_with(|| (**oa).clone()).bytes[i] = nb;
                    }
                    if let Some(n) = no {
                        mem.insert(*k, Rc::new(n));
                    }
                }
            }
        }
        let mut pc = a.pc[..p].to_vec();
        let d = or(sa, sb);
        let mut conc: HashMap<E, u128> = a.conc.iter().filter(|(k, v)| b.conc.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect();
        if is_const(d).is_none() {
            pc.push(d);
            conc.insert(d, 1);
        }
        let mut out = a.clone();
        out.th[0].frames = nframes;
        out.mem = mem;
        out.pc = pc;
        out.conc = conc;
        out.next = a.next.max(b.next);
        out.ninst = a.ninst.max(b.ninst);
        Some(out)
    }

    // ---------- solver interface ----------
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut set: BTreeSet<u32> = syms(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let ps = syms(p);
                if ps.iter().any(|s| set.contains(s)) {
                    used[i] = true;
                    out.push(p);
                    for s in ps.iter() {
                        if set.insert(*s) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// satisfiability of pc /\ c; returns a model extended with the state's own one
    fn sat(&mut self, st: &State, c: E) -> Option<Rc<Model>> {
        match is_const(c) {
            Some(1) => return Some(st.model.clone()),
            Some(_) => return None,
            None => {}
        }
        if st.model.eval(c) == Some(1) {
            return Some(st.model.clone());
        }
        let mut q = self.slice(st, c);
        q.push(c);
        match self.solver.check(&q) {
            Res::Sat(m) => {
                let mut vals = st.model.vals.clone();
                for (k, v) in &m.vals {
                    vals.insert(*k, *v);
                }
                Some(Model::new(vals))
            }
            Res::Unsat => None,
            Res::Unknown => {
                if self.unknown.is_none() {
                    self.unknown = Some(format!("solver gave no answer ({} constraints) in {}", q.len(), self.stack(st).join(" < ")));
                }
                None
            }
        }
    }
    fn assume(&self, st: &mut State, c: E, m: Rc<Model>) {
        st.model = m;
        self.push_c(st, c);
    }
    fn push_c(&self, st: &mut State, c: E) {
        if is_const(c).is_some() {
            return;
        }
        let n = node(c);
        if n.op == Op::And {
            self.push_c(st, n.a);
            self.push_c(st, n.b);
            return;
        }
        if st.conc.get(&c) == Some(&1) {
            return;
        }
        st.pc.push(c);
        st.conc.insert(c, 1);
        if n.op == Op::Xor && is_const(n.b) == Some(1) {
            st.conc.insert(n.a, 0);
        }
        if n.op == Op::Eq {
            if let Some(k) = is_const(n.b) {
                st.conc.insert(n.a, k);
            }
        }
    }

    // ---------- violations ----------
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.th[st.cur].frames.iter().rev() {
            let ip = f.ip.min(f.f.blocks[f.bb as usize].insts.len() - 1);
            let d = f.f.blocks[f.bb as usize].insts[ip].dbg;
            let mut loc = BTreeSet::new();
            self.m.dbg_funcs(d, &mut loc);
            let name = if f.f.pretty.is_empty() { &f.f.name } else { &f.f.pretty };
            let l: Vec<String> = loc.into_iter().take(6).collect();
            v.push(format!("{} [{}]", name, l.join(", ")));
        }
        v
    }
    fn violate(&mut self, st: &State, m: Rc<Model>, kind: &str, msg: String) {
        if self.viol.is_some() {
            return;
        }
        let mut inputs = vec![];
        for (w, v) in &st.inputs {
            let x = match v {
                V::C(_, k) => *k,
                V::E(e) => m.eval(*e).unwrap_or(0),
                _ => 0,
            };
            inputs.push((*w, x));
        }
        self.viol = Some(Violation { kind: kind.into(), msg, inputs, stack: self.stack(st), sched: st.sched.clone() });
    }

    /// Keep the inputs of some completed paths, to be run against the native build.
    fn sample(&mut self, st: &State, panic: bool) {
        self.sample_n += 1;
        let slot = if self.samples.len() < 16 {
            None
        } else {
            let r = (self.sample_n.wrapping_mul(0x9E3779B97F4A7C15) >> 20) % self.sample_n;
            if r >= 16 {
                return;
            }
            Some(r as usize)
        };
        let v: Vec<u128> = st
            .inputs
            .iter()
            .map(|(_, v)| match v {
                V::C(_, k) => *k,
                V::E(e) => st.model.eval(*e).unwrap_or(0),
                _ => 0,
            })
            .collect();
        match slot {
            None => self.samples.push((panic, v)),
            Some(i) => self.samples[i] = (panic, v),
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind) -> u64 {
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size + 4096;
        st.mem.insert(base, Rc::new(Obj { base, bytes: vec![B::U; size as usize], kind, align }));
        base
    }
    fn find(&mut self, st: &mut State, addr: u64, n: u64) -> Option<u64> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + n <= *b + o.bytes.len() as u64 && addr >= *b {
                return Some(*b);
            }
        }
        if addr >= GL_BASE && addr < OBJ_BASE {
            if let Some((b, name)) = self.gl_tab.range(..=addr).next_back() {
                let b = *b;
                let name = name.clone();
                if !st.mem.contains_key(&b) {
                    let o = self.global(&name, b);
                    let len = o.bytes.len() as u64;
                    st.mem.insert(b, o);
                    if addr + n <= b + len {
                        return Some(b);
                    }
                }
            }
        }
        None
    }
    fn global(&mut self, name: &str, base: u64) -> Rc<Obj> {
        if let Some(o) = self.gl_cache.get(name) {
            return o.clone();
        }
        let (size, constant) = {
            let g = &self.m.globals[name];
            (g.ty.size(), g.constant)
        };
        let mut bytes = vec![B::U; size as usize];
        if let Some((ty, c)) = self.m.global_init(name) {
            self.fill(&mut bytes, 0, &ty, &c);
        } else {
            for b in bytes.iter_mut() {
                *b = B::C(0);
            }
        }
        let o = Rc::new(Obj { base, bytes, kind: if constant { Kind::Const } else { Kind::Global }, align: 16 });
        self.gl_cache.insert(name.to_string(), o.clone());
        o
    }
    fn fill(&mut self, out: &mut [B], off: usize, ty: &Ty, c: &Cst) {
        match c {
            Cst::Zero => {
                for b in &mut out[off..off + ty.size() as usize] {
                    *b = B::C(0);
                }
            }
            Cst::Undef => {}
            Cst::Bytes(v) => {
                for (i, x) in v.iter().enumerate() {
                    out[off + i] = B::C(*x);
                }
            }
            Cst::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let o = ty.field_off(i as u64) as usize;
                    self.fill(out, off + o, t, x);
                }
            }
            _ => {
                if let V::C(w, k) = self.cval(ty, c) {
                    for i in 0..(w as usize + 7) / 8 {
                        out[off + i] = B::C((k >> (8 * i)) as u8);
                    }
                }
            }
        }
    }
    fn cval(&mut self, ty: &Ty, c: &Cst) -> V {
        match c {
            Cst::Int(w, k) => V::C(*w, *k),
            Cst::Global(n, o) => {
                let a = self.gaddr(n);
                V::C(64, a.wrapping_add(*o as u64) as u128)
            }
            Cst::Zero => match ty {
                t if t.is_scalar() => V::C(t.bits(), 0),
                t => V::Agg(Rc::new((0..t.n_fields()).map(|i| self.cval(&t.field_ty(i), &Cst::Zero)).collect())),
            },
            Cst::Undef => match ty {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => V::Agg(Rc::new((0..ty.n_fields()).map(|i| self.cval(&ty.field_ty(i), &Cst::Undef)).collect())),
                _ => V::Undef,
            },
            Cst::Agg(v) => V::Agg(Rc::new(v.iter().map(|(t, x)| self.cval(t, x)).collect())),
            Cst::Bytes(v) => V::Agg(Rc::new(v.iter().map(|b| V::C(8, *b as u128)).collect())),
            Cst::Sub(a, b) => {
                let (x, y) = (self.cval(&Ty::Int(64), a), self.cval(&Ty::Int(64), b));
                if let (V::C(w, x), V::C(_, y)) = (x, y) {
                    V::C(w, x.wrapping_sub(y) & mask(w))
                } else {
                    V::Undef
                }
            }
            Cst::Add(a, b) => {
                let (x, y) = (self.cval(&Ty::Int(64), a), self.cval(&Ty::Int(64), b));
                if let (V::C(w, x), V::C(_, y)) = (x, y) {
                    V::C(w, x.wrapping_add(y) & mask(w))
                } else {
                    V::Undef
                }
            }
            Cst::Trunc(a, w) => {
                if let V::C(_, x) = self.cval(&Ty::Int(64), a) {
                    V::C(*w, x & mask(*w))
                } else {
                    V::Undef
                }
            }
            Cst::Splat(b) => {
                let n = ty.n_fields();
                let v = self.cval(&b.0, &b.1);
                V::Agg(Rc::new(vec![v; n as usize]))
            }
        }
    }
    fn rd_bytes(&mut self, bs: &[B], w: u16) -> V {
        // all concrete
        let n = bs.len();
        if bs.iter().all(|b| matches!(b, B::C(_))) && w <= 128 {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() {
                if let B::C(x) = b {
                    v |= (*x as u128) << (8 * i);
                }
            }
            return V::C(w, v & mask(w));
        }
        // one expression, in order
        if let B::S(e, 0) = bs[0] {
            let we = width(e);
            if we as usize == n * 8 || (we < 8 && n == 1) {
                if (0..n).all(|i| bs[i] == B::S(e, i as u8)) {
                    if we == w {
                        return V::E(e);
                    }
                    if we > w {
                        return mkv(extract(e, 0, w));
                    }
                    return mkv(zx(e, w));
                }
            }
        }
        if bs.iter().all(|b| matches!(b, B::U)) {
            self.undef_n += 1;
            return V::E(new_sym(format!("undef{}", self.undef_n), w));
        }
        let mut acc: Option<E> = None;
        for b in bs.iter() {
            let e = match b {
                B::U => {
                    self.undef_n += 1;
                    new_sym(format!("undef{}", self.undef_n), 8)
                }
                b => byte_e(*b),
            };
            acc = Some(match acc {
                None => e,
                Some(a) => concat(e, a),
            });
        }
        let e = acc.unwrap();
        let we = width(e);
        mkv(if we > w { extract(e, 0, w) } else { e })
    }
    fn wr_bytes(out: &mut [B], v: &V, w: u16) {
        let n = out.len();
        match v {
            V::C(_, k) => {
                for i in 0..n {
                    out[i] = B::C(if i < 16 { (k >> (8 * i)) as u8 } else { 0 });
                }
            }
            V::E(e) => {
                let e = if w % 8 != 0 { zx(*e, n as u16 * 8) } else { *e };
                if let Some(k) = is_const(e) {
                    for i in 0..n {
                        out[i] = B::C((k >> (8 * i)) as u8);
                    }
                } else {
                    for i in 0..n {
                        out[i] = B::S(e, i as u8);
                    }
                }
            }
            V::Undef => {
                for b in out.iter_mut() {
                    *b = B::U;
                }
            }
            V::Agg(_) => panic!(),
        }
    }
    fn load_at(&mut self, st: &mut State, base: u64, addr: u64, ty: &Ty) -> V {
        let o = st.mem[&base].clone();
        self.load_obj(&o, (addr - base) as usize, ty)
    }
    fn load_obj(&mut self, o: &Obj, off: usize, ty: &Ty) -> V {
        if ty.is_scalar() {
            let n = ty.store_size() as usize;
            return self.rd_bytes(&o.bytes[off..off + n], ty.bits());
        }
        let mut v = vec![];
        for i in 0..ty.n_fields() {
            v.push(self.load_obj(o, off + ty.field_off(i) as usize, &ty.field_ty(i)));
        }
        V::Agg(Rc::new(v))
    }
    fn store_at(&mut self, st: &mut State, base: u64, addr: u64, ty: &Ty, v: &V) {
        let o = Rc::make_mut(st.mem.get_mut(&base).unwrap());
        Self::store_obj(o, (addr - base) as usize, ty, v);
    }
    fn store_obj(o: &mut Obj, off: usize, ty: &Ty, v: &V) {
        if ty.is_scalar() {
            let n = ty.store_size() as usize;
            Self::wr_bytes(&mut o.bytes[off..off + n], v, ty.bits());
            return;
        }
        match v {
            V::Agg(f) => {
                for (i, x) in f.iter().enumerate() {
                    Self::store_obj(o, off + ty.field_off(i as u64) as usize, &ty.field_ty(i as u64), x);
                }
            }
            _ => {}
        }
    }

    // ---------- operand access ----------
    fn val(&mut self, st: &State, ty: &Ty, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => {
                let v = &st.th[st.cur].frames.last().unwrap().regs[*r as usize];
                if let V::E(e) = v {
                    if let Some(k) = st.conc.get(e) {
                        return V::C(width(*e), *k);
                    }
                }
                v.clone()
            }
            Opnd::C(Cst::Int(w, k)) => V::C(*w, *k),
            Opnd::C(c) => self.cval(ty, c),
        }
    }
    fn set(&self, st: &mut State, dst: Option<u32>, v: V) {
        if let Some(d) = dst {
            let c = st.cur;
            let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
            f.regs[d as usize] = v;
        }
    }
    fn adv(&self, st: &mut State) {
        let c = st.cur;
        let f = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        f.ip += 1;
    }
    fn jump(&mut self, st: &mut State, bb: u32) {
        let f = st.th[st.cur].frames.last().unwrap().clone();
        let prev = f.bb;
        let blk = &f.f.blocks[bb as usize];
        let mut vals = Vec::with_capacity(blk.phis.len());
        for (d, ty, inc) in &blk.phis {
            let o = inc.iter().find(|(p, _)| *p == prev).unwrap_or_else(|| panic!("phi pred"));
            let v = self.val(st, ty, &o.1);
            vals.push((*d, v));
        }
        drop(f);
        let c = st.cur;
        let fm = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        for (d, v) in vals {
            fm.regs[d as usize] = v;
        }
        fm.prev = prev;
        fm.bb = bb;
        fm.ip = 0;
    }

    /// concretise `e` by forking over every feasible value (bounded)
    fn concretise(&mut self, st: &State, e: E, limit: usize) -> Step {
        let w = width(e);
        let mut out = vec![];
        let mut excl = cst(1, 1);
        let mut model = Some(st.model.clone());
        loop {
            let m = match model {
                Some(m) => m,
                None => break,
            };
            let v = match m.eval(e) {
                Some(v) => v,
                None => {
                    self.unknown = Some("cannot evaluate expression for concretisation".into());
                    return Step::End;
                }
            };
            let c = eq(e, cst(w, v));
            let mut s = st.clone();
            self.assume(&mut s, c, m);
            s.conc.insert(e, v);
            out.push(s);
            if out.len() > limit {
                self.unknown = Some(format!("too many values to concretise in {}", self.stack(st).join(" < ")));
                return Step::End;
            }
            excl = and(excl, not(c));
            model = self.sat(st, excl);
        }
        Step::Split(out)
    }

    /// fork on a boolean, re-executing the instruction in both
    fn split_on(&mut self, st: &State, c: E) -> Step {
        let mut out = vec![];
        for (cc, v) in [(c, 1u128), (not(c), 0)] {
            if let Some(m) = self.sat(st, cc) {
                let mut s = st.clone();
                self.assume(&mut s, cc, m);
                s.conc.insert(c, v);
                out.push(s);
            }
        }
        Step::Split(out)
    }

    /// Resolve an address for an access of `n` bytes.
    /// Ok(Some(addr)) concrete; Ok(None): symbolic inside one object (base returned through `sym`)
    fn resolve(&mut self, st: &mut State, a: &V, n: u64, what: &str) -> Result<(u64, u64), Step> {
        match a {
            V::C(_, k) => {
                let addr = *k as u64;
                self.cnt.mem_checks += 1;
                match self.find(st, addr, n) {
                    Some(b) => Ok((b, addr)),
                    None => {
                        let m = st.model.clone();
                        self.violate(st, m, "memory", format!("invalid {what} of {n} bytes at {addr:#x}"));
                        Err(Step::End)
                    }
                }
            }
            V::E(_) => Err(Step::Cont),
            _ => {
                let m = st.model.clone();
                self.violate(st, m, "memory", format!("{what} through undefined pointer"));
                Err(Step::End)
            }
        }
    }
    /// symbolic address: restrict to one object
    fn resolve_sym(&mut self, st: &mut State, e: E, n: u64, what: &str) -> Result<(u64, Vec<u64>), Step> {
        self.cnt.mem_checks += 1;
        let v = match st.model.eval(e) {
            Some(v) => v as u64,
            None => {
                self.unknown = Some("cannot evaluate address".into());
                return Err(Step::End);
            }
        };
        let b = match self.find(st, v, n) {
            Some(b) => b,
            None => {
                let m = st.model.clone();
                self.violate(st, m, "memory", format!("invalid {what} of {n} bytes at symbolic address (e.g. {v:#x})"));
                return Err(Step::End);
            }
        };
        let size = st.mem[&b].bytes.len() as u64;
        let off = sub(e, cst(64, b as u128));
        let inb = ule(off, cst(64, (size - n) as u128));
        let outb = not(inb);
        if is_const(outb) != Some(0) {
            if let Some(m2) = self.sat(st, outb) {
                // split in-object / elsewhere
                let mut s1 = st.clone();
                let m = st.model.clone();
                self.assume(&mut s1, inb, m);
                let mut s2 = st.clone();
                self.assume(&mut s2, outb, m2);
                return Err(Step::Split(vec![s1, s2]));
            }
            if self.unknown.is_some() {
                return Err(Step::End);
            }
        }
        // candidate offsets
        let on = node(off);
        let _ = on;
        let stride = {
            // trailing known zero bits of the offset
            let mut s = 1u64;
            while s < 64 && is_const(extract(off, 0, (s * 2).trailing_zeros() as u16)) == Some(0) {
                s *= 2;
            }
            s
        };
        let mut c = vec![];
        let mut o = 0;
        while o + n <= size {
            c.push(o);
            o += stride;
        }
        if c.len() > 2048 {
            // too large for an ite chain: enumerate feasible values
            return Err(self.concretise(st, e, 512));
        }
        Ok((b, c))
    }
    fn do_load(&mut self, st: &mut State, a: &V, ty: &Ty) -> Result<V, Step> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(V::Agg(Rc::new(vec![])));
        }
        match self.resolve(st, a, n, "read") {
            Ok((b, addr)) => Ok(self.load_at(st, b, addr, ty)),
            Err(Step::Cont) => {
                let e = ex(a, 64);
                if !ty.is_scalar() {
                    return Err(self.concretise(st, e, 512));
                }
                let (b, c) = self.resolve_sym(st, e, n, "read")?;
                let off = sub(e, cst(64, b as u128));
                let w = ty.bits();
                let mut acc: Option<E> = None;
                for o in c.into_iter().rev() {
                    let cond = eq(off, cst(64, o as u128));
                    if is_const(cond) == Some(0) {
                        continue;
                    }
                    let v = self.load_at(st, b, b + o, ty);
                    let v = ex(&v, w);
                    acc = Some(match acc {
                        None => v,
                        Some(x) => ite(cond, v, x),
                    });
                }
                Ok(mkv(acc.unwrap()))
            }
            Err(s) => Err(s),
        }
    }
    fn do_store(&mut self, st: &mut State, a: &V, ty: &Ty, v: &V) -> Result<(), Step> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        match self.resolve(st, a, n, "write") {
            Ok((b, addr)) => {
                if st.mem[&b].kind == Kind::Const {
                    let m = st.model.clone();
                    self.violate(st, m, "memory", "write to constant".into());
                    return Err(Step::End);
                }
                self.store_at(st, b, addr, ty, v);
                Ok(())
            }
            Err(Step::Cont) => {
                let e = ex(a, 64);
                if !ty.is_scalar() {
                    return Err(self.concretise(st, e, 512));
                }
                let (b, c) = self.resolve_sym(st, e, n, "write")?;
                let off = sub(e, cst(64, b as u128));
                let w = ty.bits();
                let nv = ex(v, w);
                for o in c {
                    let cond = eq(off, cst(64, o as u128));
                    if is_const(cond) == Some(0) {
                        continue;
                    }
                    let old = self.load_at(st, b, b + o, ty);
                    let r = mkv(ite(cond, nv, ex(&old, w)));
                    self.store_at(st, b, b + o, ty, &r);
                }
                Ok(())
            }
            Err(s) => Err(s),
        }
    }

    // ---------- the step function ----------
    fn step(&mut self, st: &mut State) -> Step {
        st.ninst += 1;
        self.cnt.insts += 1;
        if st.ninst > self.max_insts {
            let m = st.model.clone();
            self.violate(st, m, "limit", "instruction limit reached (possible non-termination)".into());
            return Step::End;
        }
        let fr = st.th[st.cur].frames.last().unwrap();
        let f = fr.f.clone();
        let (bb, ip) = (fr.bb, fr.ip);
        let ins = &f.blocks[bb as usize].insts[ip];
        if ins.dbg != 0 {
            self.dbg.insert(ins.dbg);
        }
        if self.trace {
            eprintln!("[{}] {}:{}:{} {:?}", st.ninst, f.name, bb, ip, ins.i);
        }
        // scheduling point
        if st.th.len() > 1 && is_visible(&ins.i) {
            if st.resume {
                st.resume = false;
            } else if st.switches < st.max_switches {
                return self.resched(st, true);
            }
        }
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(s) => return s,
                }
            };
        }
        match &ins.i {
            I::Bin(op, ty, a, b) => {
                let (x, y) = (self.val(st, ty, a), self.val(st, ty, b));
                let r = match ty {
                    Ty::Vec(_, et) => {
                        let et = (**et).clone();
                        match (&x, &y) {
                            (V::Agg(p), V::Agg(q)) => {
                                let mut o = vec![];
                                for i in 0..p.len() {
                                    o.push(tri!(self.bin(st, *op, &et, &p[i], &q[i])));
                                }
                                V::Agg(Rc::new(o))
                            }
                            _ => V::Undef,
                        }
                    }
                    _ => tri!(self.bin(st, *op, ty, &x, &y)),
                };
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::ICmp(p, ty, a, b) => {
                let (x, y) = (self.val(st, ty, a), self.val(st, ty, b));
                let r = match (ty, &x, &y) {
                    (Ty::Vec(_, et), V::Agg(u), V::Agg(v)) => {
                        let w = et.bits();
                        V::Agg(Rc::new((0..u.len()).map(|i| icmp(p, &u[i], &v[i], w)).collect()))
                    }
                    _ => icmp(p, &x, &y, ty.bits()),
                };
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::FCmp(p, ty, a, b) => {
                let (x, y) = (self.val(st, ty, a), self.val(st, ty, b));
                let r = self.fcmp(p, ty.bits(), &x, &y);
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::FNeg(ty, a) => {
                let w = ty.bits();
                let x = self.val(st, ty, a);
                let r = mkv(xor(ex(&x, w), cst(w, 1u128 << (w - 1))));
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::Cast(k, t, u, a) => {
                let x = self.val(st, t, a);
                let r = match self.cast(*k, t, u, &x) {
                    Some(r) => r,
                    None => {
                        self.unknown = Some(format!("unsupported cast {k:?} {t:?} {u:?}"));
                        return Step::End;
                    }
                };
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::Select(ct, c, t, a, b) => {
                let cv = self.val(st, ct, c);
                let (x, y) = (self.val(st, t, a), self.val(st, t, b));
                let r = match cv {
                    V::C(_, 1) => x,
                    V::C(..) => y,
                    V::Undef => y,
                    V::E(e) => {
                        if x == y {
                            x
                        } else if *t == Ty::Ptr && (matches!(x, V::C(..)) || matches!(y, V::C(..))) {
                            return self.split_on(st, e);
                        } else {
                            match sel(e, t, &x, &y) {
                                Some(v) => v,
                                None => return self.split_on(st, e),
                            }
                        }
                    }
                    V::Agg(cs) => match (&x, &y) {
                        (V::Agg(p), V::Agg(q)) => {
                            let et = t.field_ty(0);
                            V::Agg(Rc::new(
                                (0..cs.len())
                                    .map(|i| match &cs[i] {
                                        V::C(_, 1) => p[i].clone(),
                                        V::E(e) => sel(*e, &et, &p[i], &q[i]).unwrap(),
                                        _ => q[i].clone(),
                                    })
                                    .collect(),
                            ))
                        }
                        _ => V::Undef,
                    },
                };
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::Load(ty, a, at) => {
                let p = self.val(st, &Ty::Ptr, a);
                let v = if matches!(ty, Ty::Vec(..)) && !matches!(ty.field_ty(0), Ty::Int(8) | Ty::Int(16) | Ty::Int(32) | Ty::Int(64)) {
                    self.unknown = Some("vector load".into());
                    return Step::End;
                } else {
                    tri!(self.do_load(st, &p, ty))
                };
                tri!(self.race(st, &p, ty.store_size(), false, *at));
                if *at {
                    self.synchronise(st, &p, ins.ord & 1 != 0, false, true, false);
                }
                let v = if let V::E(e) = &v {
                    st.conc.get(e).map(|k| V::C(width(*e), *k)).unwrap_or(v)
                } else {
                    v
                };
                self.set(st, ins.dst, v);
                self.adv(st);
                Step::Cont
            }
            I::Store(ty, v, a, at) => {
                let p = self.val(st, &Ty::Ptr, a);
                let x = self.val(st, ty, v);
                tri!(self.do_store(st, &p, ty, &x));
                tri!(self.race(st, &p, ty.store_size(), true, *at));
                if *at {
                    self.synchronise(st, &p, false, ins.ord & 2 != 0, false, true);
                    st.changed();
                }
                self.adv(st);
                Step::Cont
            }
            I::Gep(b, off, dv) => {
                let base = self.val(st, &Ty::Ptr, b);
                let mut acc = match &base {
                    V::C(_, k) => V::C(64, (*k as u64).wrapping_add(*off as u64) as u128),
                    V::E(e) => mkv(add(*e, cst(64, *off as u64 as u128))),
                    v => v.clone(),
                };
                for (s, w, o) in dv {
                    let i = self.val(st, &Ty::Int(*w), o);
                    acc = match (&acc, &i) {
                        (V::C(_, x), V::C(_, y)) => V::C(64, (*x as u64).wrapping_add((sx(*y, *w) as i64).wrapping_mul(*s) as u64) as u128),
                        (V::Undef, _) | (_, V::Undef) => V::Undef,
                        _ => {
                            let ie = ex(&i, *w);
                            let ie = if *w < 64 { sext(ie, 64) } else { ie };
                            mkv(add(ex(&acc, 64), mul(ie, cst(64, *s as u64 as u128))))
                        }
                    };
                }
                self.set(st, ins.dst, acc);
                self.adv(st);
                Step::Cont
            }
            I::Alloca(size, align, nt, n) => {
                let k = match n {
                    None => 1,
                    Some(o) => match self.val(st, nt, o) {
                        V::C(_, k) => k as u64,
                        V::E(e) => return self.concretise(st, e, 64),
                        _ => 1,
                    },
                };
                let a = self.alloc(st, size * k, *align, Kind::Stack);
                let c = st.cur;
                Rc::make_mut(st.th[c].frames.last_mut().unwrap()).allocas.push(a);
                self.set(st, ins.dst, V::C(64, a as u128));
                self.adv(st);
                Step::Cont
            }
            I::Br(b) => {
                self.jump(st, *b);
                Step::Cont
            }
            I::CondBr(c, a, b) => {
                let cv = self.val(st, &Ty::Int(1), c);
                match cv {
                    V::C(_, k) => {
                        self.jump(st, if k == 1 { *a } else { *b });
                        Step::Cont
                    }
                    V::E(e) => {
                        let mp = self.merge_point(st, &f, bb);
                        let mut out = vec![];
                        for (cc, t) in [(e, *a), (not(e), *b)] {
                            if let Some(m) = self.sat(st, cc) {
                                let mut s = st.clone();
                                self.assume(&mut s, cc, m);
                                self.jump(&mut s, t);
                                out.push(s);
                            }
                            if self.unknown.is_some() {
                                return Step::End;
                            }
                        }
                        Step::Branch(out, mp)
                    }
                    _ => {
                        let m = st.model.clone();
                        self.violate(st, m, "undef", "branch on undefined value".into());
                        Step::End
                    }
                }
            }
            I::Switch(ty, v, d, cs) => {
                let x = self.val(st, ty, v);
                match x {
                    V::C(_, k) => {
                        let t = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                        Step::Cont
                    }
                    V::E(e) => {
                        let w = ty.bits();
                        let mp = self.merge_point(st, &f, bb);
                        let mut out = vec![];
                        let mut def = cst(1, 1);
                        let mut targets: BTreeMap<u32, E> = BTreeMap::new();
                        for (k, t) in cs {
                            let c = eq(e, cst(w, *k));
                            def = and(def, not(c));
                            if *t == *d {
                                continue;
                            }
                            let en = targets.entry(*t).or_insert(cst(1, 0));
                            *en = or(*en, c);
                        }
                        // cases that share the default target
                        for (k, t) in cs {
                            if *t == *d {
                                def = or(def, eq(e, cst(w, *k)));
                            }
                        }
                        let mut all: Vec<(E, u32)> = targets.into_iter().map(|(t, c)| (c, t)).collect();
                        all.push((def, *d));
                        for (cc, t) in all {
                            if let Some(m) = self.sat(st, cc) {
                                let mut s = st.clone();
                                self.assume(&mut s, cc, m);
                                self.jump(&mut s, t);
                                out.push(s);
                            }
                            if self.unknown.is_some() {
                                return Step::End;
                            }
                        }
                        Step::Branch(out, mp)
                    }
                    _ => {
                        let m = st.model.clone();
                        self.violate(st, m, "undef", "switch on undefined value".into());
                        Step::End
                    }
                }
            }
            I::Ret(ty, v) => {
                let x = v.as_ref().map(|o| self.val(st, ty, o));
                self.do_ret(st, x)
            }
            I::Unreachable => {
                let m = st.model.clone();
                self.violate(st, m, "unreachable", "unreachable code reached (undefined behaviour)".into());
                Step::End
            }
            I::ExtractValue(ty, a, ix) => {
                let mut v = self.val(st, ty, a);
                for i in ix {
                    v = match v {
                        V::Agg(f) => f[*i as usize].clone(),
                        _ => V::Undef,
                    };
                }
                self.set(st, ins.dst, v);
                self.adv(st);
                Step::Cont
            }
            I::InsertValue(ty, a, t2, b, ix) => {
                let base = self.val(st, ty, a);
                let v = self.val(st, t2, b);
                let r = insert(base, v, ix, ty);
                self.set(st, ins.dst, r);
                self.adv(st);
                Step::Cont
            }
            I::Freeze(ty, a) => {
                let v = self.val(st, ty, a);
                let v = if v == V::Undef { V::C(ty.bits(), 0) } else { v };
                self.set(st, ins.dst, v);
                self.adv(st);
                Step::Cont
            }
            I::Rmw(k, ty, a, v) => {
                let p = self.val(st, &Ty::Ptr, a);
                if let V::E(e) = p {
                    return self.concretise(st, e, 64);
                }
                let x = self.val(st, ty, v);
                let w = ty.bits();
                let old = tri!(self.do_load(st, &p, ty));
                let (o, n) = (ex(&old, w), ex(&x, w));
                let r = match k.as_str() {
                    "xchg" => n,
                    "add" => add(o, n),
                    "sub" => sub(o, n),
                    "and" => and(o, n),
                    "or" => or(o, n),
                    "xor" => xor(o, n),
                    "umax" => ite(ult(o, n), n, o),
                    "umin" => ite(ult(o, n), o, n),
                    _ => {
                        self.unknown = Some(format!("atomicrmw {k}"));
                        return Step::End;
                    }
                };
                let r = if k == "xchg" { x } else { mkv(r) };
                tri!(self.do_store(st, &p, ty, &r));
                if is_const(eq(ex(&r, w), o)) != Some(1) {
                    st.changed();
                }
                tri!(self.race(st, &p, ty.store_size(), true, true));
                self.synchronise(st, &p, ins.ord & 1 != 0, ins.ord & 2 != 0, true, true);
                self.set(st, ins.dst, old);
                self.adv(st);
                Step::Cont
            }
            I::CmpXchg(ty, a, c, n) => {
                let p = self.val(st, &Ty::Ptr, a);
                if let V::E(e) = p {
                    return self.concretise(st, e, 64);
                }
                let (cv, nv) = (self.val(st, ty, c), self.val(st, ty, n));
                let w = ty.bits();
                let old = tri!(self.do_load(st, &p, ty));
                let okc = eq(ex(&old, w), ex(&cv, w));
                let known = is_const(okc).or_else(|| st.conc.get(&okc).copied());
                if let Some(k) = known {
                    tri!(self.race(st, &p, ty.store_size(), k == 1, true));
                    if k == 1 {
                        st.changed();
                        self.synchronise(st, &p, ins.ord & 1 != 0, ins.ord & 2 != 0, true, true);
                    } else {
                        self.synchronise(st, &p, ins.ord & 4 != 0, false, true, false);
                    }
                }
                match is_const(okc) {
                    Some(k) => {
                        if k == 1 {
                            tri!(self.do_store(st, &p, ty, &nv));
                        }
                        self.set(st, ins.dst, V::Agg(Rc::new(vec![old, V::C(1, k)])));
                    }
                    None => {
                        if let Some(&k) = st.conc.get(&okc) {
                            if k == 1 {
                                tri!(self.do_store(st, &p, ty, &nv));
                            }
                            self.set(st, ins.dst, V::Agg(Rc::new(vec![old, V::C(1, k)])));
                        } else {
                            return self.split_on(st, okc);
                        }
                    }
                }
                self.adv(st);
                Step::Cont
            }
            I::Fence => {
                // over-approximated: every fence synchronises with every other
                self.synchronise(st, &V::C(64, 1), true, true, true, true);
                self.adv(st);
                Step::Cont
            }
            I::Call(rt, callee, args) => self.call(st, ins, rt, callee, args),
            I::Unsupported(s) => {
                self.unknown = Some(format!("unsupported instruction: {s}"));
                Step::End
            }
        }
    }

    fn merge_point(&self, st: &State, f: &Func, bb: u32) -> Option<Stop> {
        if st.merge == 0 {
            return None;
        }
        let d = st.th[st.cur].frames.len();
        match f.blocks[bb as usize].ipdom {
            Some(p) => Some(Stop::Block(d, p)),
            None => {
                if d > 1 {
                    Some(Stop::Ret(d))
                } else {
                    None
                }
            }
        }
    }

    /// Choose which thread runs next. `stay`: the current thread may go on (a switch away from it is
    /// then counted against the bound); otherwise it has finished, waits or spins.
    fn resched(&mut self, st: &mut State, stay: bool) -> Step {
        let done = st.th[1..].iter().all(|t| t.frames.is_empty());
        let mut out = vec![];
        // when every thread that could run spins, let them look again in turn
        let idle = |t: &Thread| t.frames.is_empty() || t.joining;
        let n = st.th.len();
        let turn = if !stay && !done && st.th.iter().all(|t| idle(t) || t.spun) {
            st.spins += 1;
            if st.spins > 2000 {
                let m = st.model.clone();
                self.violate(st, m, "limit", "every thread waits for another one".into());
                return Step::End;
            }
            (1..=n).map(|d| (st.cur + d) % n).find(|&t| !idle(&st.th[t]))
        } else {
            None
        };
        for t in 0..n {
            if turn.is_some_and(|u| u != t) {
                continue;
            }
            if turn.is_none() && st.th[t].spun && !(stay && t == st.cur) {
                continue;
            }
            if t == st.cur && !stay && turn.is_none() {
                // a waiting main thread is woken below
                if !(t == 0 && st.th[0].joining && done) {
                    continue;
                }
            }
            if st.th[t].frames.is_empty() || (st.th[t].joining && !done) {
                continue;
            }
            if let Some(s) = &self.replay_sched {
                if s.get(st.sched.len()).is_some_and(|&w| w as usize != t) {
                    continue;
                }
            }
            let mut s = st.clone();
            s.sched.push(t as u32);
            s.th[t].spun = false;
            if t == 0 && s.th[0].joining {
                s.th[0].joining = false;
                self.joined(&mut s);
            }
            if t != st.cur {
                if stay {
                    s.switches += 1;
                }
                s.cur = t;
                // a fresh thread has not reached a visible operation yet
                let ff = s.th[t].frames.last().unwrap();
                s.resume = is_visible(&ff.f.blocks[ff.bb as usize].insts[ff.ip].i);
            } else {
                s.resume = true;
            }
            out.push(s);
        }
        if out.is_empty() {
            let m = st.model.clone();
            self.violate(st, m, "limit", "every thread waits for another one".into());
            return Step::End;
        }
        out.reverse();
        Step::Split(out)
    }
    fn joined(&mut self, st: &mut State) {
        let (a, b) = st.clk.split_at_mut(1);
        for c in b {
            vc_join(&mut a[0], c);
        }
    }

    /// Happens-before race detection for one access.
    fn race(&mut self, st: &mut State, p: &V, n: u64, write: bool, atomic: bool) -> Result<(), Step> {
        if st.th.len() < 2 {
            return Ok(());
        }
        let V::C(_, p) = p else { return Ok(()) };
        let p = *p as u64;
        let t = st.cur;
        let now = st.clk[t][t];
        let vc = st.clk[t].clone();
        let mut bad = None;
        let sh = Rc::make_mut(&mut st.shadow);
        for a in p..p + n {
            let e = sh.entry(a).or_default();
            let ok = vc_le(&e.nw, &vc) && (atomic || vc_le(&e.aw, &vc)) && (!write || (vc_le(&e.nr, &vc) && (atomic || vc_le(&e.ar, &vc))));
            if !ok {
                bad = Some(a);
                break;
            }
            let f = match (write, atomic) {
                (true, false) => &mut e.nw,
                (true, true) => &mut e.aw,
                (false, false) => &mut e.nr,
                (false, true) => &mut e.ar,
            };
            vc_set(f, t, now);
        }
        if bad.is_some() {
            let m = st.model.clone();
            self.violate(st, m, "race", format!("data race: {} {} of {n} bytes not ordered with another thread's access", if atomic { "atomic" } else { "plain" }, if write { "write" } else { "read" }));
            return Err(Step::End);
        }
        Ok(())
    }
    /// Synchronisation effect of an atomic access.
    fn synchronise(&mut self, st: &mut State, p: &V, acq: bool, rel: bool, read: bool, write: bool) {
        if st.th.len() < 2 {
            return;
        }
        let V::C(_, p) = p else { return };
        let p = *p as u64;
        let t = st.cur;
        if read && acq {
            if let Some(v) = st.sync.get(&p).cloned() {
                vc_join(&mut st.clk[t], &v);
            }
        }
        if write {
            let c = st.clk[t].clone();
            let m = Rc::make_mut(&mut st.sync);
            let e = m.entry(p).or_default();
            if rel {
                if read {
                    vc_join(e, &c);
                } else {
                    *e = c;
                }
                st.clk[t][t] += 1;
            } else if !read {
                e.clear();
            }
        }
    }

    fn do_ret(&mut self, st: &mut State, x: Option<V>) -> Step {
        let c = st.cur;
        let fr = st.th[c].frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.remove(a);
        }
        if st.th[c].frames.is_empty() {
            if c == 0 {
                self.cnt.paths_done += 1;
                self.sample(st, false);
                return Step::End;
            }
            return self.resched(st, false);
        }
        let fm = Rc::make_mut(st.th[c].frames.last_mut().unwrap());
        if let (Some(d), Some(v)) = (fr.dst, x) {
            fm.regs[d as usize] = v;
        }
        if let Some(n) = fr.next {
            self.jump(st, n);
        } else {
            fm.ip += 1;
        }
        Step::Cont
    }

    fn bin(&mut self, st: &mut State, op: Bin, ty: &Ty, x: &V, y: &V) -> Result<V, Step> {
        let w = ty.bits();
        if let (V::C(_, a), V::C(_, b)) = (x, y) {
            let (a, b) = (*a, *b);
            if w <= 128 {
                let m = mask(w);
                let r = match op {
                    Bin::Add => a.wrapping_add(b) & m,
                    Bin::Sub => a.wrapping_sub(b) & m,
                    Bin::Mul => a.wrapping_mul(b) & m,
                    Bin::And => a & b,
                    Bin::Or => a | b,
                    Bin::Xor => a ^ b,
                    Bin::Shl => {
                        if b >= w as u128 {
                            0
                        } else {
                            (a << b) & m
                        }
                    }
                    Bin::LShr => {
                        if b >= w as u128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    Bin::AShr => (sx(a, w) >> b.min(w as u128 - 1) as u32) as u128 & m,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if b == 0 || (matches!(op, Bin::SDiv | Bin::SRem) && b == m && a == 1u128 << (w - 1)) {
                            let md = st.model.clone();
                            self.violate(st, md, "div", "division by zero or overflow (undefined behaviour)".into());
                            return Err(Step::End);
                        }
                        match op {
                            Bin::UDiv => a / b,
                            Bin::URem => a % b,
                            Bin::SDiv => (sx(a, w) / sx(b, w)) as u128 & m,
                            _ => (sx(a, w) % sx(b, w)) as u128 & m,
                        }
                    }
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => {
                        if w == 64 {
                            let (p, q) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                            let r = match op {
                                Bin::FAdd => p + q,
                                Bin::FSub => p - q,
                                Bin::FMul => p * q,
                                Bin::FDiv => p / q,
                                _ => p % q,
                            };
                            r.to_bits() as u128
                        } else {
                            let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                            let r = match op {
                                Bin::FAdd => p + q,
                                Bin::FSub => p - q,
                                Bin::FMul => p * q,
                                Bin::FDiv => p / q,
                                _ => p % q,
                            };
                            r.to_bits() as u128
                        }
                    }
                };
                return Ok(V::C(w, r));
            }
        }
        if matches!(x, V::Undef) || matches!(y, V::Undef) {
            return Ok(V::Undef);
        }
        let (a, b) = (ex(x, w), ex(y, w));
        Ok(mkv(match op {
            Bin::Add => add(a, b),
            Bin::Sub => sub(a, b),
            Bin::Mul => mul(a, b),
            Bin::And => and(a, b),
            Bin::Or => or(a, b),
            Bin::Xor => xor(a, b),
            Bin::Shl => shl(a, b),
            Bin::LShr => lshr(a, b),
            Bin::AShr => ashr(a, b),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                let z = eq(b, cst(w, 0));
                if is_const(z) != Some(0) {
                    if let Some(m) = self.sat(st, z) {
                        self.violate(st, m, "div", "division by zero (undefined behaviour)".into());
                        return Err(Step::End);
                    }
                }
                match op {
                    Bin::UDiv => udiv(a, b),
                    Bin::URem => urem(a, b),
                    Bin::SDiv => sdiv(a, b),
                    _ => srem(a, b),
                }
            }
            Bin::FAdd => fp(fpk::ADD, w, a, b, 0),
            Bin::FSub => fp(fpk::SUB, w, a, b, 0),
            Bin::FMul => fp(fpk::MUL, w, a, b, 0),
            Bin::FDiv => fp(fpk::DIV, w, a, b, 0),
            Bin::FRem => {
                self.unknown = Some("symbolic frem".into());
                return Err(Step::End);
            }
        }))
    }

    fn fcmp(&mut self, p: &str, w: u16, x: &V, y: &V) -> V {
        if let (V::C(_, a), V::C(_, b)) = (x, y) {
            let (a, b) = if w == 64 {
                (f64::from_bits(*a as u64), f64::from_bits(*b as u64))
            } else {
                (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
            };
            let uno = a.is_nan() || b.is_nan();
            let base = match &p[1..] {
                "eq" => a == b,
                "ne" => a != b && !uno,
                "lt" => a < b,
                "le" => a <= b,
                "gt" => a > b,
                "ge" => a >= b,
                _ => false,
            };
            let r = match p {
                "ord" => !uno,
                "uno" => uno,
                "true" => true,
                "false" => false,
                _ if p.starts_with('u') => base || uno,
                _ => base,
            };
            return V::C(1, r as u128);
        }
        let (a, b) = (ex(x, w), ex(y, w));
        let nan = |e: E| -> E {
            // exponent all ones and mantissa non-zero
            let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
            let ex_ = extract(e, mb, eb);
            let mant = extract(e, 0, mb);
            and(eq(ex_, cst(eb, u128::MAX)), ne(mant, cst(mb, 0)))
        };
        let uno = or(nan(a), nan(b));
        let lt = |a: E, b: E| fp_lt(w, a, b);
        let fe = fp_eq(w, a, b);
        let base = match &p[1..] {
            "eq" => fe,
            "ne" => and(not(fe), not(uno)),
            "lt" => lt(a, b),
            "le" => or(lt(a, b), fe),
            "gt" => lt(b, a),
            "ge" => or(lt(b, a), fe),
            _ => cst(1, 0),
        };
        mkv(match p {
            "ord" => not(uno),
            "uno" => uno,
            "true" => cst(1, 1),
            "false" => cst(1, 0),
            _ if p.starts_with('u') => or(base, uno),
            _ => base,
        })
    }

    fn cast(&mut self, k: Cast, t: &Ty, u: &Ty, x: &V) -> Option<V> {
        if let (Ty::Vec(..), V::Agg(v)) = (t, x) {
            if u.n_fields() == t.n_fields() && matches!(u, Ty::Vec(..)) {
                let (a, b) = (t.field_ty(0), u.field_ty(0));
                let mut o = vec![];
                for y in v.iter() {
                    o.push(self.cast(k, &a, &b, y)?);
                }
                return Some(V::Agg(Rc::new(o)));
            }
            if let Ty::Int(w) = u {
                // bitcast <N x iM> to iW
                let et = t.field_ty(0);
                let mut acc: Option<E> = None;
                for y in v.iter() {
                    let e = ex(y, et.bits());
                    acc = Some(match acc {
                        None => e,
                        Some(a) => concat(e, a),
                    });
                }
                let e = acc?;
                return if width(e) == *w { Some(mkv(e)) } else { None };
            }
            return None;
        }
        if let (Ty::Vec(n, et), Ty::Int(_)) = (u, t) {
            let ew = et.bits();
            let e = ex(x, t.bits());
            return Some(V::Agg(Rc::new((0..*n).map(|i| mkv(extract(e, i as u16 * ew, ew))).collect())));
        }
        if !t.is_scalar() || !u.is_scalar() {
            return None;
        }
        let (wt, wu) = (t.bits(), u.bits());
        if let V::Undef = x {
            return Some(V::Undef);
        }
        Some(match k {
            Cast::Same => x.clone(),
            Cast::Trunc => match x {
                V::C(_, v) if wt <= 128 => V::C(wu, v & mask(wu)),
                _ => mkv(extract(ex(x, wt), 0, wu)),
            },
            Cast::ZExt => match x {
                V::C(_, v) if wu <= 128 => V::C(wu, *v),
                _ => mkv(zx(ex(x, wt), wu)),
            },
            Cast::SExt => match x {
                V::C(_, v) if wu <= 128 => V::C(wu, sx(*v, wt) as u128 & mask(wu)),
                _ => mkv(sext(ex(x, wt), wu)),
            },
            Cast::FpToSi | Cast::FpToUi => match x {
                V::C(_, v) => {
                    let f = if wt == 64 { f64::from_bits(*v as u64) } else { f32::from_bits(*v as u32) as f64 };
                    if k == Cast::FpToSi {
                        V::C(wu, f as i128 as u128 & mask(wu))
                    } else {
                        V::C(wu, f as u128 & mask(wu))
                    }
                }
                _ => mkv(fp(if k == Cast::FpToSi { fpk::TO_S } else { fpk::TO_U }, wu, ex(x, wt), 0, 0)),
            },
            Cast::SiToFp | Cast::UiToFp => match x {
                V::C(_, v) => {
                    if wu == 64 {
                        let f = if k == Cast::SiToFp { sx(*v, wt) as f64 } else { *v as f64 };
                        V::C(64, f.to_bits() as u128)
                    } else {
                        let f = if k == Cast::SiToFp { sx(*v, wt) as f32 } else { *v as f32 };
                        V::C(32, f.to_bits() as u128)
                    }
                }
                _ => mkv(fp(if k == Cast::SiToFp { fpk::FROM_S } else { fpk::FROM_U }, wu, ex(x, wt), 0, 0)),
            },
            Cast::FpExt => match x {
                V::C(_, v) => {
                    if wt == 32 {
                        V::C(64, (f32::from_bits(*v as u32) as f64).to_bits() as u128)
                    } else {
                        V::C(32, (f64::from_bits(*v as u64) as f32).to_bits() as u128)
                    }
                }
                _ => mkv(fp(fpk::CVT, wu, ex(x, wt), 0, 0)),
            },
        })
    }

    // ---------- calls ----------
    fn call(&mut self, st: &mut State, ins: &Inst, rt: &Ty, callee: &Callee, args: &[(Ty, Opnd)]) -> Step {
        let name: String = match callee {
            Callee::Direct(n) => n.clone(),
            Callee::Indirect(o) => match self.val(st, &Ty::Ptr, o) {
                V::C(_, a) => match self.fn_name.get(&(a as u64)) {
                    Some(n) => n.clone(),
                    None => {
                        let m = st.model.clone();
                        self.violate(st, m, "memory", format!("call through invalid pointer {a:#x}"));
                        return Step::End;
                    }
                },
                V::E(e) => return self.concretise(st, e, 64),
                _ => {
                    let m = st.model.clone();
                    self.violate(st, m, "memory", "call through undefined pointer".into());
                    return Step::End;
                }
            },
            Callee::Asm(s) => {
                // empty asm barriers (core::hint::black_box)
                if s.starts_with('|') {
                    let a = args.first().map(|(t, o)| self.val(st, t, o)).unwrap_or(V::Undef);
                    self.set(st, ins.dst, a);
                    self.adv(st);
                    return Step::Cont;
                }
                self.unknown = Some(format!("inline asm {s}"));
                return Step::End;
            }
        };
        // quick outs
        if name.starts_with("llvm.lifetime") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.dbg") {
            self.adv(st);
            return Step::Cont;
        }
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (t, o) in args {
            av.push(if *t == Ty::Opaque { V::Undef } else { self.val(st, t, o) });
        }
        if name.starts_with("llvm.") {
            return self.intrinsic(st, ins, rt, &name, args, av);
        }
        if name.starts_with("vt_") {
            return self.vt(st, ins, &name, av);
        }
        match name.as_str() {
            "memcmp" | "bcmp" => {
                let n = match &av[2] {
                    V::C(_, n) => *n as u64,
                    V::E(e) => return self.concretise(st, *e, 64),
                    _ => 0,
                };
                let mut acc = cst(32, 0);
                let mut eqs = cst(1, 1);
                let mut bytes = vec![];
                for i in 0..2 {
                    if let V::E(e) = &av[i] {
                        return self.concretise(st, *e, 64);
                    }
                    if n == 0 {
                        bytes.push(vec![]);
                        continue;
                    }
                    match self.resolve(st, &av[i], n, "read") {
                        Ok((b, a)) => {
                            let o = &st.mem[&b];
                            bytes.push(o.bytes[(a - b) as usize..(a - b + n) as usize].to_vec());
                        }
                        Err(s) => return s,
                    }
                }
                if name == "bcmp" {
                    let mut i = 0usize;
                    while i < n as usize {
                        let step = if n as usize - i >= 8 { 8 } else { 1 };
                        let a = self.rd_bytes(&bytes[0][i..i + step].to_vec(), step as u16 * 8);
                        let b = self.rd_bytes(&bytes[1][i..i + step].to_vec(), step as u16 * 8);
                        eqs = and(eqs, eq(ex(&a, step as u16 * 8), ex(&b, step as u16 * 8)));
                        i += step;
                    }
                    acc = ite(eqs, cst(32, 0), cst(32, 1));
                } else {
                    for i in (0..n as usize).rev() {
                        let (a, b) = (byte_e(bytes[0][i]), byte_e(bytes[1][i]));
                        let d = ite(ult(a, b), cst(32, u128::MAX), cst(32, 1));
                        acc = ite(eq(a, b), acc, d);
                    }
                }
                self.set(st, ins.dst, mkv(acc));
                self.adv(st);
                return Step::Cont;
            }
            "memcpy" | "memmove" => {
                let r = av[0].clone();
                return match self.memcpy(st, &av) {
                    Ok(()) => {
                        self.set(st, ins.dst, r);
                        self.adv(st);
                        Step::Cont
                    }
                    Err(s) => s,
                };
            }
            "memset" => {
                let r = av[0].clone();
                let v = match &av[1] {
                    V::C(_, k) => V::C(8, k & 0xff),
                    V::E(e) => mkv(extract(*e, 0, 8)),
                    _ => V::Undef,
                };
                let a2 = vec![av[0].clone(), v, av[2].clone()];
                return match self.memset(st, &a2) {
                    Ok(()) => {
                        self.set(st, ins.dst, r);
                        self.adv(st);
                        Step::Cont
                    }
                    Err(s) => s,
                };
            }
            "abort" => {
                return self.panic(st, "abort");
            }
            _ => {}
        }
        if name.contains("__rust_no_alloc_shim_is_unstable") {
            self.adv(st);
            return Step::Cont;
        }
        if name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("rust_begin_unwind") || name.contains("4core6option13expect_failed") || name.contains("4core6result13unwrap_failed") {
            return self.panic(st, &name);
        }
        let f = match self.func(&name) {
            Some(f) => f,
            None => {
                if let Some(r) = self.libm(&name, args, &av) {
                    self.set(st, ins.dst, r);
                    self.adv(st);
                    return Step::Cont;
                }
                self.unknown = Some(format!("call to external function {name}"));
                return Step::End;
            }
        };
        if f.pretty.starts_with("core::panicking::") || f.pretty.starts_with("std::panicking::") {
            return self.panic(st, &f.pretty.clone());
        }
        if st.th[st.cur].frames.len() > 3000 {
            let m = st.model.clone();
            self.violate(st, m, "limit", "recursion limit reached".into());
            return Step::End;
        }
        self.fnset.insert(if f.pretty.is_empty() { f.name.clone() } else { f.pretty.clone() });
        let mut regs = vec![V::Undef; f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if i < av.len() {
                regs[*p as usize] = av[i].clone();
            }
        }
        let fr = Frame { f, bb: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], dst: ins.dst, next: ins.next };
        let c = st.cur;
        st.th[c].frames.push(Rc::new(fr));
        Step::Cont
    }

    fn panic(&mut self, st: &mut State, what: &str) -> Step {
        self.cnt.panic_checks += 1;
        let bad = not(st.panic_ok);
        if let Some(m) = self.sat(st, bad) {
            self.violate(st, m, "panic", format!("panic ({what})"));
        } else {
            self.cnt.paths_panic_ok += 1;
            self.sample(st, true);
        }
        Step::End
    }

    fn memcpy(&mut self, st: &mut State, av: &[V]) -> Result<(), Step> {
        let n = match &av[2] {
            V::C(_, n) => *n as u64,
            V::E(e) => return Err(self.concretise(st, *e, 64)),
            _ => 0,
        };
        if n == 0 {
            return Ok(());
        }
        for i in 0..2 {
            if let V::E(e) = &av[i] {
                return Err(self.concretise(st, *e, 512));
            }
        }
        let (db, da) = self.resolve(st, &av[0], n, "write")?;
        let (sb, sa) = self.resolve(st, &av[1], n, "read")?;
        self.race(st, &av[1], n, false, false)?;
        self.race(st, &av[0], n, true, false)?;
        let src = st.mem[&sb].clone();
        let d = Rc::make_mut(st.mem.get_mut(&db).unwrap());
        let so = (sa - sb) as usize;
        let dof = (da - db) as usize;
        d.bytes[dof..dof + n as usize].copy_from_slice(&src.bytes[so..so + n as usize]);
        Ok(())
    }
    fn memset(&mut self, st: &mut State, av: &[V]) -> Result<(), Step> {
        let n = match &av[2] {
            V::C(_, n) => *n as u64,
            V::E(e) => return Err(self.concretise(st, *e, 64)),
            _ => 0,
        };
        if n == 0 {
            return Ok(());
        }
        if let V::E(e) = &av[0] {
            return Err(self.concretise(st, *e, 512));
        }
        let (b, a) = self.resolve(st, &av[0], n, "write")?;
        self.race(st, &av[0], n, true, false)?;
        let bv = match &av[1] {
            V::C(_, k) => B::C(*k as u8),
            V::E(e) => B::S(*e, 0),
            _ => B::U,
        };
        let d = Rc::make_mut(st.mem.get_mut(&b).unwrap());
        for i in 0..n {
            d.bytes[(a - b + i) as usize] = bv;
        }
        Ok(())
    }

    fn new_input(&mut self, st: &mut State, w: u16) -> V {
        let idx = st.inputs.len();
        if let Some(c) = &self.concrete {
            let v = V::C(w, c.get(idx).copied().unwrap_or(0) & mask(w));
            st.inputs.push((w, v.clone()));
            return v;
        }
        let e = *self.sym_for.entry((idx, w)).or_insert_with(|| new_sym(format!("in{idx}"), w));
        let v = V::E(e);
        st.inputs.push((w, v.clone()));
        v
    }

    fn vt(&mut self, st: &mut State, ins: &Inst, name: &str, av: Vec<V>) -> Step {
        let done = |me: &Self, st: &mut State, v: V| {
            me.set(st, ins.dst, v);
            me.adv(st);
            Step::Cont
        };
        let w = match name {
            "vt_bool" => 1,
            "vt_u8" => 8,
            "vt_u16" => 16,
            "vt_u32" => 32,
            "vt_u64" => 64,
            "vt_u128" => 128,
            _ => 0,
        };
        if w > 0 {
            let v = self.new_input(st, w);
            return done(self, st, v);
        }
        match name {
            "vt_pick" => {
                let n = match &av[0] {
                    V::C(_, n) => *n as u64,
                    _ => {
                        self.unknown = Some("vt_pick of a symbolic count".into());
                        return Step::End;
                    }
                };
                if let Some(c) = &self.concrete {
                    let v = c.get(st.inputs.len()).copied().unwrap_or(0);
                    st.inputs.push((64, V::C(64, v)));
                    return done(self, st, V::C(64, v));
                }
                let mut out = vec![];
                for i in 0..n {
                    let mut s = st.clone();
                    s.inputs.push((64, V::C(64, i as u128)));
                    done(self, &mut s, V::C(64, i as u128));
                    out.push(s);
                }
                out.reverse();
                Step::Split(out)
            }
            "vt_hide" => {
                let v = av[0].clone();
                done(self, st, v)
            }
            "vt_conc" => match &av[0] {
                V::E(e) => self.concretise(st, *e, 256),
                v => done(self, st, v.clone()),
            },
            "vt_assume" => {
                let c = ex(&av[0], 1);
                match self.sat(st, c) {
                    Some(m) => {
                        self.assume(st, c, m);
                        self.adv(st);
                        Step::Cont
                    }
                    None => {
                        self.cnt.paths_assumed += 1;
                        Step::End
                    }
                }
            }
            "vt_assert" => {
                let line = match &av[1] {
                    V::C(_, k) => *k as u32,
                    _ => 0,
                };
                let c = ex(&av[0], 1);
                *self.asserts.entry(line).or_insert(0) += 1;
                if is_const(c) == Some(1) {
                    self.cnt.asserts_trivial += 1;
                } else {
                    if let Some(m) = self.sat(st, not(c)) {
                        self.violate(st, m, "assert", format!("harness assertion at line {line}"));
                        return Step::End;
                    }
                    if self.unknown.is_some() {
                        return Step::End;
                    }
                    self.cnt.asserts_solved += 1;
                    st.conc.insert(c, 1);
                }
                self.adv(st);
                Step::Cont
            }
            "vt_cover" => {
                if let V::C(_, k) = &av[0] {
                    *self.covers.entry(*k as u32).or_insert(0) += 1;
                }
                self.adv(st);
                Step::Cont
            }
            "vt_cover_if" => {
                // reachable with the condition true?
                if let V::C(_, k) = &av[1] {
                    let k = *k as u32;
                    let c = ex(&av[0], 1);
                    if !self.covers.contains_key(&k) && self.sat(st, c).is_some() {
                        self.covers.insert(k, 1);
                    }
                }
                self.adv(st);
                Step::Cont
            }
            "vt_panic_ok" => {
                st.panic_ok = ex(&av[0], 1);
                self.adv(st);
                Step::Cont
            }
            "vt_merge" => {
                if let V::C(_, k) = &av[0] {
                    st.merge = *k as u8;
                }
                self.adv(st);
                Step::Cont
            }
            "vt_out" => {
                if let V::C(_, k) = &av[0] {
                    self.outputs.push(*k);
                }
                self.adv(st);
                Step::Cont
            }
            "vt_alloc" => {
                let n = match &av[0] {
                    V::C(_, n) => *n as u64,
                    V::E(e) => return self.concretise(st, *e, 64),
                    _ => 0,
                };
                let al = match &av[1] {
                    V::C(_, n) => *n as u64,
                    V::E(e) => return self.concretise(st, *e, 64),
                    _ => 8,
                };
                if n > 1 << 24 {
                    // allocation failure: null
                    return done(self, st, V::C(64, 0));
                }
                let a = self.alloc(st, n, al, Kind::Heap);
                done(self, st, V::C(64, a as u128))
            }
            "vt_dealloc" => {
                let p = match &av[0] {
                    V::C(_, p) => *p as u64,
                    V::E(e) => return self.concretise(st, *e, 64),
                    _ => 0,
                };
                let n = match &av[1] {
                    V::C(_, n) => *n as u64,
                    V::E(e) => return self.concretise(st, *e, 64),
                    _ => 0,
                };
                let ok = st.mem.get(&p).map(|o| o.kind == Kind::Heap && o.bytes.len() as u64 == n).unwrap_or(false);
                if !ok {
                    let m = st.model.clone();
                    self.violate(st, m, "memory", format!("invalid deallocation of {p:#x} ({n} bytes): double free or wrong layout"));
                    return Step::End;
                }
                if let Err(s) = self.race(st, &av[0], n, true, false) {
                    return s;
                }
                st.mem.remove(&p);
                self.adv(st);
                Step::Cont
            }
            "vt_live_heap" => {
                let n = st.mem.values().filter(|o| o.kind == Kind::Heap).count();
                done(self, st, V::C(64, n as u128))
            }
            "vt_switches" => {
                if let V::C(_, k) = &av[0] {
                    st.max_switches = *k as u32;
                }
                self.adv(st);
                Step::Cont
            }
            "vt_spawn" => {
                let n = match &av[0] {
                    V::C(_, a) => self.fn_name.get(&(*a as u64)).cloned(),
                    _ => None,
                };
                let Some(n) = n else {
                    self.unknown = Some("vt_spawn".into());
                    return Step::End;
                };
                let f = self.func(&n).unwrap();
                let mut regs = vec![V::Undef; f.nregs];
                regs[f.params[0] as usize] = av[1].clone();
                st.th.push(Thread {
                    frames: vec![Rc::new(Frame { f, bb: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], dst: None, next: None })],
                    joining: false,
                    spun: false,
                });
                let c = st.cur;
                let vc = st.clk[c].clone();
                st.clk.push(vc);
                let t = st.th.len() - 1;
                vc_set(&mut st.clk[t], t, 1);
                st.clk[c][c] += 1;
                self.adv(st);
                Step::Cont
            }
            "vt_join" => {
                self.adv(st);
                if st.th[1..].iter().all(|t| t.frames.is_empty()) {
                    self.joined(st);
                    return Step::Cont;
                }
                st.th[0].joining = true;
                self.resched(st, false)
            }
            "vt_yield" => {
                self.adv(st);
                Step::Cont
            }
            _ => {
                self.unknown = Some(format!("unknown {name}"));
                Step::End
            }
        }
    }

    /// A function of the maths library (log, sin, pow, ...): evaluated when its arguments are
    /// constants, otherwise an uninterpreted function - any value, but equal for equal arguments.
    fn libm(&mut self, name: &str, args: &[(Ty, Opnd)], av: &[V]) -> Option<V> {
        let w = args.first()?.0.bits();
        if !matches!(w, 32 | 64) {
            return None;
        }
        let base = if w == 32 { name.strip_suffix('f').unwrap_or(name) } else { name };
        const NAMES: [&str; 17] = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "exp2", "log", "log2", "log10", "pow", "cbrt", "powi"];
        if !NAMES.contains(&base) {
            return None;
        }
        let c: Vec<u128> = av.iter().filter_map(|v| if let V::C(_, k) = v { Some(*k) } else { None }).collect();
        if c.len() == av.len() {
            macro_rules! ev {
                ($f:ty, $u:ty) => {{
                    let x = <$f>::from_bits(c[0] as $u);
                    let y = || <$f>::from_bits(c[1] as $u);
                    (match base {
                        "sin" => x.sin(),
                        "cos" => x.cos(),
                        "tan" => x.tan(),
                        "asin" => x.asin(),
                        "acos" => x.acos(),
                        "atan" => x.atan(),
                        "sinh" => x.sinh(),
                        "cosh" => x.cosh(),
                        "tanh" => x.tanh(),
                        "exp" => x.exp(),
                        "exp2" => x.exp2(),
                        "log" => x.ln(),
                        "log2" => x.log2(),
                        "log10" => x.log10(),
                        "cbrt" => x.cbrt(),
                        "pow" => x.powf(y()),
                        _ => x.powi(c[1] as u32 as i32),
                    })
                    .to_bits() as u128
                }};
            }
            return Some(V::C(w, if w == 64 { ev!(f64, u64) } else { ev!(f32, u32) }));
        }
        let key = av.iter().zip(args).map(|(v, t)| ex(v, t.0.bits())).collect();
        let n = self.libm.len();
        Some(mkv(*self.libm.entry((format!("{base}{w}"), key)).or_insert_with(|| new_sym(format!("libm{n}"), w))))
    }

    fn intrinsic(&mut self, st: &mut State, ins: &Inst, rt: &Ty, name: &str, args: &[(Ty, Opnd)], av: Vec<V>) -> Step {
        let n = &name[5..];
        let is = |p: &str| n.starts_with(p);
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                self.set(st, ins.dst, v);
                self.adv(st);
                return Step::Cont;
            }};
        }
        if is("memcpy.") || is("memmove.") {
            return match self.memcpy(st, &av) {
                Ok(()) => {
                    self.adv(st);
                    Step::Cont
                }
                Err(s) => s,
            };
        }
        if is("memset.") {
            return match self.memset(st, &av) {
                Ok(()) => {
                    self.adv(st);
                    Step::Cont
                }
                Err(s) => s,
            };
        }
        if is("assume") {
            if let V::E(e) = &av[0] {
                // a violated assumption is undefined behaviour
                let bad = not(*e);
                if let Some(m) = self.sat(st, bad) {
                    self.violate(st, m, "ub", "llvm.assume violated (undefined behaviour)".into());
                    return Step::End;
                }
                let c = *e;
                st.conc.insert(c, 1);
            } else if let V::C(_, 0) = &av[0] {
                let m = st.model.clone();
                self.violate(st, m, "ub", "llvm.assume(false) reached".into());
                return Step::End;
            }
            self.adv(st);
            return Step::Cont;
        }
        if is("trap") || is("debugtrap") || is("ubsantrap") {
            return self.panic(st, "trap");
        }
        if is("expect") || is("threadlocal.address") || is("launder") || is("strip.invariant") || is("ptrmask") {
            ret!(av[0].clone());
        }
        if is("x86.sse2.pause") {
            // a spinning thread: let the others run
            self.adv(st);
            let c = st.cur;
            st.th[c].spun = true;
            return if st.th.len() > 1 { self.resched(st, false) } else { Step::Cont };
        }
        if is("is.constant") {
            ret!(V::C(1, 0));
        }
        if is("invariant") || is("sideeffect") || is("donothing") || is("pseudoprobe") || is("prefetch") {
            self.adv(st);
            return Step::Cont;
        }
        if is("load.relative") {
            // ptr + *(i32*)(ptr+off)
            let base = ex(&av[0], 64);
            let off = ex(&av[1], 64);
            let a = mkv(add(base, off));
            let v = match self.do_load(st, &a, &Ty::Int(32)) {
                Ok(v) => v,
                Err(s) => return s,
            };
            let r = mkv(add(base, sext(ex(&v, 32), 64)));
            ret!(r);
        }
        let w = match args.first().map(|a| &a.0) {
            Some(t) if t.is_scalar() => t.bits(),
            _ => {
                self.unknown = Some(format!("intrinsic {name}"));
                return Step::End;
            }
        };
        if av.iter().any(|v| matches!(v, V::Undef)) {
            ret!(if matches!(rt, Ty::Struct(..)) { V::Agg(Rc::new(vec![V::Undef, V::Undef])) } else { V::Undef });
        }
        let a = ex(&av[0], w);
        if n.contains(".with.overflow.") {
            let b = ex(&av[1], w);
            let (r, o) = if is("uadd") {
                let s = add(a, b);
                // a + b wraps iff ~a < b ; with known small operands this folds
                let o = if w < 127 {
                    let wide = add(zx(a, w + 1), zx(b, w + 1));
                    extract(wide, w, 1)
                } else {
                    ult(s, a)
                };
                let o2 = ult(s, a);
                (s, if is_const(o).is_some() { o } else { o2 })
            } else if is("usub") {
                (sub(a, b), ult(a, b))
            } else if is("sadd") {
                let s = add(a, b);
                let wide = add(sext(a, w + 1), sext(b, w + 1));
                let o = xor(extract(wide, w, 1), extract(wide, w - 1, 1));
                (s, o)
            } else if is("ssub") {
                let wide = sub(sext(a, w + 1), sext(b, w + 1));
                let o = xor(extract(wide, w, 1), extract(wide, w - 1, 1));
                (sub(a, b), o)
            } else if is("umul") {
                let p = mul(zx(a, 2 * w), zx(b, 2 * w));
                (extract(p, 0, w), ne(extract(p, w, w), cst(w, 0)))
            } else {
                let p = mul(sext(a, 2 * w), sext(b, 2 * w));
                let r = extract(p, 0, w);
                (r, ne(sext(r, 2 * w), p))
            };
            ret!(V::Agg(Rc::new(vec![mkv(r), mkv(o)])));
        }
        let bin = |i: usize| ex(&av[i], w);
        if is("umax.") {
            let b = bin(1);
            ret!(mkv(ite(ult(a, b), b, a)));
        }
        if is("umin.") {
            let b = bin(1);
            ret!(mkv(ite(ult(a, b), a, b)));
        }
        if is("smax.") {
            let b = bin(1);
            ret!(mkv(ite(slt(a, b), b, a)));
        }
        if is("smin.") {
            let b = bin(1);
            ret!(mkv(ite(slt(a, b), a, b)));
        }
        if is("abs.") {
            ret!(mkv(ite(slt(a, cst(w, 0)), neg(a), a)));
        }
        if is("uadd.sat") {
            let b = bin(1);
            let s = add(a, b);
            ret!(mkv(ite(ult(s, a), cst(w, u128::MAX), s)));
        }
        if is("usub.sat") {
            let b = bin(1);
            ret!(mkv(ite(ult(a, b), cst(w, 0), sub(a, b))));
        }
        if is("sadd.sat") || is("ssub.sat") {
            let b = bin(1);
            let wide = if is("sadd") { add(sext(a, w + 1), sext(b, w + 1)) } else { sub(sext(a, w + 1), sext(b, w + 1)) };
            let o = xor(extract(wide, w, 1), extract(wide, w - 1, 1));
            let sat = ite(extract(wide, w, 1), cst(w, 1u128 << (w - 1)), cst(w, (1u128 << (w - 1)) - 1));
            ret!(mkv(ite(o, sat, extract(wide, 0, w))));
        }
        if is("ucmp.") || is("scmp.") {
            let b = bin(1);
            let rw = rt.bits();
            let lt = if is("ucmp") { ult(a, b) } else { slt(a, b) };
            ret!(mkv(ite(lt, cst(rw, u128::MAX), ite(eq(a, b), cst(rw, 0), cst(rw, 1)))));
        }
        if is("fshl.") || is("fshr.") {
            let b = bin(1);
            let c = bin(2);
            if let Some(k) = is_const(c) {
                let k = (k % w as u128) as u16;
                let r = if k == 0 {
                    if is("fshl") {
                        a
                    } else {
                        b
                    }
                } else {
                    let cc = concat(a, b);
                    if is("fshl") {
                        extract(cc, w - k, w)
                    } else {
                        extract(cc, k, w)
                    }
                };
                ret!(mkv(r));
            }
            let cc = concat(a, b);
            let sh = zx(urem(c, cst(w, w as u128)), 2 * w);
            let r = if is("fshl") { extract(shl(cc, sh), w, w) } else { extract(lshr(cc, sh), 0, w) };
            ret!(mkv(r));
        }
        if is("bswap.") {
            let nb = w / 8;
            let mut acc = extract(a, 0, 8);
            for i in 1..nb {
                acc = concat(acc, extract(a, i * 8, 8));
            }
            ret!(mkv(acc));
        }
        if is("bitreverse.") {
            let mut acc = extract(a, 0, 1);
            for i in 1..w {
                acc = concat(acc, extract(a, i, 1));
            }
            ret!(mkv(acc));
        }
        if is("ctpop.") {
            let mut acc = cst(w, 0);
            for i in 0..w {
                acc = add(acc, zx(extract(a, i, 1), w));
            }
            ret!(mkv(acc));
        }
        if is("ctlz.") {
            let mut acc = cst(w, w as u128);
            for i in 0..w {
                acc = ite(extract(a, i, 1), cst(w, (w - 1 - i) as u128), acc);
            }
            ret!(mkv(acc));
        }
        if is("cttz.") {
            let mut acc = cst(w, w as u128);
            for i in (0..w).rev() {
                acc = ite(extract(a, i, 1), cst(w, i as u128), acc);
            }
            ret!(mkv(acc));
        }
        // floats
        if is("floor.") || is("ceil.") || is("trunc.") || is("round.") {
            let k = if is("floor") {
                fpk::FLOOR
            } else if is("ceil") {
                fpk::CEIL
            } else if is("trunc") {
                fpk::TRUNC
            } else {
                fpk::ROUND
            };
            if let V::C(_, v) = &av[0] {
                let r = if w == 64 { rnd(f64::from_bits(*v as u64), k).to_bits() as u128 } else { (rnd(f32::from_bits(*v as u32) as f64, k) as f32).to_bits() as u128 };
                ret!(V::C(w, r));
            }
            ret!(mkv(fp(k, w, a, 0, 0)));
        }
        if is("sqrt.") || is("fma.") || is("fmuladd.") {
            let c: Vec<u128> = av.iter().filter_map(|v| if let V::C(_, k) = v { Some(*k) } else { None }).collect();
            if c.len() == av.len() {
                let r = if w == 64 {
                    let f: Vec<f64> = c.iter().map(|&k| f64::from_bits(k as u64)).collect();
                    (if f.len() == 1 { f[0].sqrt() } else { f[0].mul_add(f[1], f[2]) }).to_bits() as u128
                } else {
                    let f: Vec<f32> = c.iter().map(|&k| f32::from_bits(k as u32)).collect();
                    (if f.len() == 1 { f[0].sqrt() } else { f[0].mul_add(f[1], f[2]) }).to_bits() as u128
                };
                ret!(V::C(w, r));
            }
            if is("sqrt.") {
                ret!(mkv(fp(fpk::SQRT, w, a, 0, 0)));
            }
            ret!(mkv(fp(fpk::FMA, w, a, bin(1), bin(2))));
        }
        if let Some(r) = self.libm(n.split('.').next().unwrap(), args, &av) {
            ret!(r);
        }
        if is("fabs.") {
            ret!(mkv(and(a, cst(w, mask(w - 1)))));
        }
        if is("copysign.") {
            let b = bin(1);
            ret!(mkv(concat(extract(b, w - 1, 1), extract(a, 0, w - 1))));
        }
        if is("fptosi.sat") || is("fptoui.sat") {
            let rw = rt.bits();
            if let V::C(_, v) = &av[0] {
                let f = if w == 64 { f64::from_bits(*v as u64) } else { f32::from_bits(*v as u32) as f64 };
                let r = if is("fptosi") {
                    let lo = -(2f64.powi(rw as i32 - 1));
                    let hi = 2f64.powi(rw as i32 - 1);
                    if f.is_nan() {
                        0
                    } else if f < lo {
                        1u128 << (rw - 1)
                    } else if f >= hi {
                        mask(rw - 1)
                    } else {
                        f as i128 as u128 & mask(rw)
                    }
                } else if f.is_nan() || f < 0.0 {
                    0
                } else if f >= 2f64.powi(rw as i32) {
                    mask(rw)
                } else {
                    f as u128
                };
                ret!(V::C(rw, r));
            }
            let fc = |x: f64| -> E { if w == 64 { cst(64, x.to_bits() as u128) } else { cst(32, (x as f32).to_bits() as u128) } };
            let lt = |x: E, y: E| fp_lt(w, x, y);
            let fe = |x: E, y: E| fp_eq(w, x, y);
            let nan = {
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                and(eq(extract(a, mb, eb), cst(eb, u128::MAX)), ne(extract(a, 0, mb), cst(mb, 0)))
            };
            let r = if is("fptosi") {
                let lo = fc(-(2f64.powi(rw as i32 - 1)));
                let hi = fc(2f64.powi(rw as i32 - 1));
                let conv = fp(fpk::TO_S, rw, a, 0, 0);
                let x = ite(or(lt(hi, a), fe(hi, a)), cst(rw, mask(rw - 1)), conv);
                ite(lt(a, lo), cst(rw, 1u128 << (rw - 1)), x)
            } else {
                let hi = fc(2f64.powi(rw as i32));
                let conv = fp(fpk::TO_U, rw, a, 0, 0);
                let x = ite(or(lt(hi, a), fe(hi, a)), cst(rw, mask(rw)), conv);
                ite(or(lt(a, fc(0.0)), fe(a, fc(0.0))), cst(rw, 0), x)
            };
            ret!(mkv(ite(nan, cst(rw, 0), r)));
        }
        if is("minnum.") || is("maxnum.") {
            if let (V::C(_, x), V::C(_, y)) = (&av[0], &av[1]) {
                let r = if w == 64 {
                    let (p, q) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    (if is("min") { p.min(q) } else { p.max(q) }).to_bits() as u128
                } else {
                    let (p, q) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (if is("min") { p.min(q) } else { p.max(q) }).to_bits() as u128
                };
                ret!(V::C(w, r));
            }
        }
        self.unknown = Some(format!("intrinsic {name}"));
        Step::End
    }
}

fn is_visible(i: &I) -> bool {
    match i {
        I::Load(_, _, a) | I::Store(_, _, _, a) => *a,
        I::Rmw(..) | I::CmpXchg(..) => true,
        I::Call(_, Callee::Direct(n), _) => n == "vt_yield",
        _ => false,
    }
}

fn reached(st: &State, s: Stop) -> bool {
    let fr = &st.th[st.cur].frames;
    match s {
        Stop::None => false,
        Stop::Block(d, bb) => fr.len() == d && fr[d - 1].bb == bb && fr[d - 1].ip == 0,
        Stop::Ret(d) => fr.len() < d,
    }
}

fn cword(o: &Obj, off: usize) -> Option<u64> {
    if off + 8 > o.bytes.len() {
        return None;
    }
    let mut v = 0u64;
    for i in 0..8 {
        match o.bytes[off + i] {
            B::C(x) => v |= (x as u64) << (8 * i),
            _ => return None,
        }
    }
    Some(v)
}

pub fn byte_e(b: B) -> E {
    match b {
        B::C(x) => cst(8, x as u128),
        B::S(e, i) => {
            let w = width(e);
            if w <= 8 {
                zx(e, 8)
            } else {
                extract(e, i as u16 * 8, 8)
            }
        }
        B::U => cst(8, 0),
    }
}

fn icmp(p: &str, x: &V, y: &V, w: u16) -> V {
    if let (V::C(_, a), V::C(_, b)) = (x, y) {
        let (a, b) = (*a, *b);
        let r = match p {
            "eq" => a == b,
            "ne" => a != b,
            "ult" => a < b,
            "ule" => a <= b,
            "ugt" => a > b,
            "uge" => a >= b,
            "slt" => sx(a, w) < sx(b, w),
            "sle" => sx(a, w) <= sx(b, w),
            "sgt" => sx(a, w) > sx(b, w),
            _ => sx(a, w) >= sx(b, w),
        };
        return V::C(1, r as u128);
    }
    if matches!(x, V::Undef) || matches!(y, V::Undef) {
        return V::Undef;
    }
    let (a, b) = (ex(x, w), ex(y, w));
    mkv(match p {
        "eq" => eq(a, b),
        "ne" => ne(a, b),
        "ult" => ult(a, b),
        "ule" => ule(a, b),
        "ugt" => ult(b, a),
        "uge" => ule(b, a),
        "slt" => slt(a, b),
        "sle" => sle(a, b),
        "sgt" => slt(b, a),
        _ => sle(b, a),
    })
}

fn sel(c: E, t: &Ty, x: &V, y: &V) -> Option<V> {
    match (x, y) {
        (V::Undef, v) | (v, V::Undef) => Some(v.clone()),
        (V::Agg(p), V::Agg(q)) => {
            let mut o = vec![];
            for i in 0..p.len() {
                o.push(sel(c, &t.field_ty(i as u64), &p[i], &q[i])?);
            }
            Some(V::Agg(Rc::new(o)))
        }
        _ => {
            let w = t.bits();
            Some(mkv(ite(c, ex(x, w), ex(y, w))))
        }
    }
}

fn insert(base: V, v: V, ix: &[u64], ty: &Ty) -> V {
    if ix.is_empty() {
        return v;
    }
    let mut f: Vec<V> = match base {
        V::Agg(f) => (*f).clone(),
        _ => vec![V::Undef; ty.n_fields() as usize],
    };
    let i = ix[0] as usize;
    let t = ty.field_ty(ix[0]);
    f[i] = insert(f[i].clone(), v, &ix[1..], &t);
    V::Agg(Rc::new(f))
}

fn fp_nan(w: u16, e: E) -> E {
    let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
    and(eq(extract(e, mb, eb), cst(eb, u128::MAX)), ne(extract(e, 0, mb), cst(mb, 0)))
}
fn fp_both_zero(w: u16, a: E, b: E) -> E {
    and(eq(extract(a, 0, w - 1), cst(w - 1, 0)), eq(extract(b, 0, w - 1), cst(w - 1, 0)))
}
/// IEEE equality over the bit patterns
fn fp_eq(w: u16, a: E, b: E) -> E {
    let ord = not(or(fp_nan(w, a), fp_nan(w, b)));
    and(ord, or(eq(a, b), fp_both_zero(w, a, b)))
}
/// IEEE less-than over the bit patterns
fn fp_lt(w: u16, a: E, b: E) -> E {
    let ord = not(or(fp_nan(w, a), fp_nan(w, b)));
    let (sa, sb) = (extract(a, w - 1, 1), extract(b, w - 1, 1));
    let neg = ite(sb, ult(b, a), not(fp_both_zero(w, a, b)));
    let pos = and(not(sb), ult(a, b));
    and(ord, ite(sa, neg, pos))
}
