//! SMT-LIB2 printing and bit-blasting to DIMACS for queries the in-process solver gives up on.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write;

fn topo(v: &[E]) -> Vec<E> {
    let mut seen = HashMap::new();
    let mut out = vec![];
    let mut st: Vec<(E, bool)> = v.iter().map(|&e| (e, false)).collect();
    while let Some((e, done)) = st.pop() {
        if done {
            out.push(e);
            continue;
        }
        if seen.insert(e, ()).is_some() {
            continue;
        }
        st.push((e, true));
        for k in kids(e) {
            if !seen.contains_key(&k) {
                st.push((k, false));
            }
        }
    }
    out
}
fn kids(e: E) -> Vec<E> {
    let n = node(e);
    match n.op {
        Op::Const | Op::Sym => vec![],
        Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
        Op::Ite => vec![n.a, n.b, n.c],
        Op::Fp => vec![n.a, n.b, n.c],
        _ => vec![n.a, n.b],
    }
}

pub fn smtlib(v: &[E]) -> String {
    let mut s = String::from("(set-logic QF_BV)\n");
    let order = topo(v);
    if order.iter().any(|&e| node(e).op == Op::Fp) {
        return "(set-logic QF_BV)\n".into(); // no (check-sat): reads as no answer
    }
    for &e in &order {
        let n = node(e);
        let r = |x: E| format!("n{x}");
        let body = match n.op {
            Op::Sym => {
                let _ = writeln!(s, "(declare-const s{} (_ BitVec {}))", n.k, n.w);
                format!("s{}", n.k)
            }
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            Op::Extract => format!("((_ extract {} {}) {})", n.k as u16 + n.w - 1, n.k, r(n.a)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - width(n.a), r(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - width(n.a), r(n.a)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", r(n.a), r(n.b)),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", r(n.a), r(n.b)),
            _ => {
                let o = match n.op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::UDiv => "bvudiv",
                    Op::URem => "bvurem",
                    Op::SDiv => "bvsdiv",
                    Op::SRem => "bvsrem",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                    Op::Shl => "bvshl",
                    Op::LShr => "bvlshr",
                    Op::AShr => "bvashr",
                    Op::Concat => "concat",
                    _ => unreachable!(),
                };
                format!("({} {} {})", o, r(n.a), r(n.b))
            }
        };
        let _ = writeln!(s, "(define-fun n{} () (_ BitVec {}) {})", e, n.w, body);
    }
    for &e in v {
        let _ = writeln!(s, "(assert (= n{} #b1))", e);
    }
    s.push_str("(check-sat)\n");
    let mut ss: Vec<u32> = vec![];
    for &c in v {
        ss.extend(syms(c).iter());
    }
    ss.sort();
    ss.dedup();
    for k in ss {
        let _ = writeln!(s, "(eval s{k})");
    }
    s
}

pub fn parse_z3(text: &str, v: &[E]) -> Option<Option<HashMap<u32, u128>>> {
    let mut lines = text.lines();
    match lines.next()?.trim() {
        "unsat" => Some(None),
        "sat" => {
            let mut ss: Vec<u32> = vec![];
            for &c in v {
                ss.extend(syms(c).iter());
            }
            ss.sort();
            ss.dedup();
            let mut m = HashMap::new();
            for k in ss {
                let l = lines.next()?.trim();
                let val = if let Some(h) = l.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()?
                } else if let Some(b) = l.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).ok()?
                } else {
                    0
                };
                m.insert(k, val);
            }
            Some(Some(m))
        }
        _ => None,
    }
}

// ---- AIG-style blaster with Tseitin output ----
type L = i32; // literal; TRUE = 1
const T: L = 1;
const F: L = -1;

struct Bl {
    nv: i32,
    clauses: Vec<i32>,
    nclauses: usize,
    andc: HashMap<(L, L), L>,
    xorc: HashMap<(L, L), L>,
    itec: HashMap<(L, L, L), L>,
}
impl Bl {
    fn var(&mut self) -> L {
        self.nv += 1;
        self.nv
    }
    fn cl(&mut self, c: &[L]) {
        self.clauses.extend_from_slice(c);
        self.clauses.push(0);
        self.nclauses += 1;
    }
    fn and(&mut self, a: L, b: L) -> L {
        if a == F || b == F || a == -b {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.andc.get(&key) {
            return r;
        }
        let r = self.var();
        self.cl(&[-r, a]);
        self.cl(&[-r, b]);
        self.cl(&[r, -a, -b]);
        self.andc.insert(key, r);
        r
    }
    fn or(&mut self, a: L, b: L) -> L {
        -self.and(-a, -b)
    }
    fn xor(&mut self, a: L, b: L) -> L {
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == T {
            return -b;
        }
        if b == T {
            return -a;
        }
        if a == b {
            return F;
        }
        if a == -b {
            return T;
        }
        let neg = (a < 0) != (b < 0);
        let (x, y) = (a.abs().min(b.abs()), a.abs().max(b.abs()));
        let r = if let Some(&r) = self.xorc.get(&(x, y)) {
            r
        } else {
            let r = self.var();
            self.cl(&[-r, x, y]);
            self.cl(&[-r, -x, -y]);
            self.cl(&[r, -x, y]);
            self.cl(&[r, x, -y]);
            self.xorc.insert((x, y), r);
            r
        };
        if neg {
            -r
        } else {
            r
        }
    }
    fn ite(&mut self, c: L, a: L, b: L) -> L {
        if c == T {
            return a;
        }
        if c == F {
            return b;
        }
        if a == b {
            return a;
        }
        if a == T || a == c {
            return self.or(c, b);
        }
        if a == F || a == -c {
            return self.and(-c, b);
        }
        if b == T || b == -c {
            return self.or(-c, a);
        }
        if b == F || b == c {
            return self.and(c, a);
        }
        if a == -b {
            return self.xor(c, b);
        }
        if c < 0 {
            return self.ite(-c, b, a);
        }
        if let Some(&r) = self.itec.get(&(c, a, b)) {
            return r;
        }
        let r = self.var();
        self.cl(&[-c, -a, r]);
        self.cl(&[-c, a, -r]);
        self.cl(&[c, -b, r]);
        self.cl(&[c, b, -r]);
        self.cl(&[-a, -b, r]);
        self.cl(&[a, b, -r]);
        self.itec.insert((c, a, b), r);
        r
    }
    fn maj(&mut self, a: L, b: L, c: L) -> L {
        let ab = self.and(a, b);
        let x = self.xor(a, b);
        let xc = self.and(x, c);
        self.or(ab, xc)
    }
    fn addc(&mut self, a: &[L], b: &[L], mut c: L) -> (Vec<L>, L) {
        let mut o = vec![];
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            o.push(self.xor(x, c));
            c = self.maj(a[i], b[i], c);
        }
        (o, c)
    }
    fn negv(&mut self, a: &[L]) -> Vec<L> {
        let na: Vec<L> = a.iter().map(|x| -x).collect();
        let z = vec![F; a.len()];
        self.addc(&na, &z, T).0
    }
    fn subb(&mut self, a: &[L], b: &[L]) -> (Vec<L>, L) {
        let nb: Vec<L> = b.iter().map(|x| -x).collect();
        let (o, c) = self.addc(a, &nb, T);
        (o, -c)
    }
    fn mulv(&mut self, a: &[L], b: &[L]) -> Vec<L> {
        let w = a.len();
        // use the operand with fewer non-constant bits as the multiplier
        let nz = |x: &[L]| x.iter().filter(|&&l| l != F).count();
        let (a, b) = if nz(a) < nz(b) { (b, a) } else { (a, b) };
        let mut acc = vec![F; w];
        for i in 0..w {
            if b[i] == F {
                continue;
            }
            let mut row = vec![F; w];
            for j in 0..w - i {
                row[i + j] = self.and(a[j], b[i]);
            }
            acc = self.addc(&acc, &row, F).0;
        }
        acc
    }
    fn ultl(&mut self, a: &[L], b: &[L]) -> L {
        let mut r = F;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r = self.ite(x, b[i], r);
        }
        r
    }
    fn eql(&mut self, a: &[L], b: &[L]) -> L {
        let mut r = T;
        for i in 0..a.len() {
            let x = -self.xor(a[i], b[i]);
            r = self.and(r, x);
        }
        r
    }
    fn itev(&mut self, c: L, a: &[L], b: &[L]) -> Vec<L> {
        (0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
    }
    fn divrem(&mut self, a: &[L], b: &[L]) -> (Vec<L>, Vec<L>) {
        let w = a.len();
        let mut q = vec![F; w];
        let mut r = vec![F; w + 1];
        let mut bx = b.to_vec();
        bx.push(F);
        for i in (0..w).rev() {
            r.pop();
            r.insert(0, a[i]);
            let (d, borrow) = self.subb(&r, &bx);
            q[i] = -borrow;
            r = self.itev(-borrow, &d, &r);
        }
        r.pop();
        // b == 0: q = ones (falls out), r = a (falls out)
        (q, r)
    }
    fn shift(&mut self, a: &[L], b: &[L], left: bool, fill: L) -> Vec<L> {
        let w = a.len();
        let mut cur = a.to_vec();
        let mut over = F;
        for (i, &s) in b.iter().enumerate() {
            if i < 16 && (1usize << i) < w {
                let k = 1usize << i;
                let sh: Vec<L> = (0..w)
                    .map(|j| {
                        if left {
                            if j >= k {
                                cur[j - k]
                            } else {
                                F
                            }
                        } else if j + k < w {
                            cur[j + k]
                        } else {
                            fill
                        }
                    })
                    .collect();
                cur = self.itev(s, &sh, &cur);
            } else {
                over = self.or(over, s);
            }
        }
        let fv = vec![fill; w];
        self.itev(over, &fv, &cur)
    }
}

/// DIMACS text and symbol -> literal map; `None` when the query uses floats.
pub fn cnf(v: &[E]) -> Option<(String, HashMap<u32, Vec<i32>>)> {
    let order = topo(v);
    let mut bl = Bl {
        nv: 1,
        clauses: vec![],
        nclauses: 0,
        andc: HashMap::new(),
        xorc: HashMap::new(),
        itec: HashMap::new(),
    };
    bl.cl(&[T]);
    let mut m: HashMap<E, Vec<L>> = HashMap::new();
    let mut symbits = HashMap::new();
    for &e in &order {
        let n = node(e);
        let w = n.w as usize;
        let a = m.get(&n.a).cloned().unwrap_or_default();
        let b = m.get(&n.b).cloned().unwrap_or_default();
        let r: Vec<L> = match n.op {
            Op::Fp => return None,
            Op::Const => (0..w).map(|i| if i < 128 && n.k >> i & 1 == 1 { T } else { F }).collect(),
            Op::Sym => {
                let bits: Vec<L> = (0..w).map(|_| bl.var()).collect();
                symbits.insert(n.k as u32, bits.clone());
                bits
            }
            Op::Add => bl.addc(&a, &b, F).0,
            Op::Sub => bl.subb(&a, &b).0,
            Op::Mul => bl.mulv(&a, &b),
            Op::UDiv => bl.divrem(&a, &b).0,
            Op::URem => bl.divrem(&a, &b).1,
            Op::SDiv | Op::SRem => {
                let (sa, sb) = (a[w - 1], b[w - 1]);
                let na = bl.negv(&a);
                let nb = bl.negv(&b);
                let ua = bl.itev(sa, &na, &a);
                let ub = bl.itev(sb, &nb, &b);
                let (q, r) = bl.divrem(&ua, &ub);
                if n.op == Op::SDiv {
                    let s = bl.xor(sa, sb);
                    let nq = bl.negv(&q);
                    bl.itev(s, &nq, &q)
                } else {
                    let nr = bl.negv(&r);
                    bl.itev(sa, &nr, &r)
                }
            }
            Op::And => (0..w).map(|i| bl.and(a[i], b[i])).collect(),
            Op::Or => (0..w).map(|i| bl.or(a[i], b[i])).collect(),
            Op::Xor => (0..w).map(|i| bl.xor(a[i], b[i])).collect(),
            Op::Shl => bl.shift(&a, &b, true, F),
            Op::LShr => bl.shift(&a, &b, false, F),
            Op::AShr => {
                let f = a[w - 1];
                bl.shift(&a, &b, false, f)
            }
            Op::Eq => vec![bl.eql(&a, &b)],
            Op::Ult => vec![bl.ultl(&a, &b)],
            Op::Slt => {
                let mut x = a.clone();
                let mut y = b.clone();
                let l = x.len() - 1;
                x[l] = -x[l];
                y[l] = -y[l];
                vec![bl.ultl(&x, &y)]
            }
            Op::Ite => {
                let c = m.get(&n.c).cloned().unwrap();
                bl.itev(a[0], &b, &c)
            }
            Op::Concat => {
                let mut x = b.clone();
                x.extend(a);
                x
            }
            Op::Extract => a[n.k as usize..n.k as usize + w].to_vec(),
            Op::ZExt => {
                let mut x = a;
                x.resize(w, F);
                x
            }
            Op::SExt => {
                let mut x = a;
                let s = *x.last().unwrap();
                x.resize(w, s);
                x
            }
        };
        m.insert(e, r);
    }
    for &e in v {
        let l = m[&e][0];
        bl.cl(&[l]);
    }
    let mut s = String::with_capacity(bl.clauses.len() * 7);
    let _ = writeln!(s, "p cnf {} {}", bl.nv, bl.nclauses);
    for &l in &bl.clauses {
        if l == 0 {
            s.push_str("0\n");
        } else {
            let _ = write!(s, "{l} ");
        }
    }
    Some((s, symbits))
}

pub fn parse_kissat(text: &str, map: &HashMap<u32, Vec<i32>>) -> Option<Option<HashMap<u32, u128>>> {
    if text.contains("s UNSATISFIABLE") {
        return Some(None);
    }
    if !text.contains("s SATISFIABLE") {
        return None;
    }
    let mut pos = std::collections::HashSet::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("v ") {
            for t in r.split_whitespace() {
                if let Ok(x) = t.parse::<i32>() {
                    if x > 0 {
                        pos.insert(x);
                    }
                }
            }
        }
    }
    let mut out = HashMap::new();
    for (k, bits) in map {
        let mut v = 0u128;
        for (i, b) in bits.iter().enumerate() {
            if pos.contains(b) {
                v |= 1 << i;
            }
        }
        out.insert(*k, v);
    }
    Some(Some(out))
}
