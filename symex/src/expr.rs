//! Hash-consed bit-vector expression DAG with local simplification, known-bits
//! analysis and concrete evaluation under a model.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    /// uninterpreted-by-us float operation: `k` selects the operation
    Fp,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
struct Known {
    z: u128,
    o: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    known: Vec<Known>,
    /// bloom-ish set of symbols per node (exact, shared)
    pub syms: Vec<Rc<Vec<u32>>>,
    map: HashMap<Node, E>,
    pub sym_names: Vec<(String, u16)>,
    empty: Rc<Vec<u32>>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::new());
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Arena {
    fn new() -> Self {
        Arena {
            nodes: vec![],
            known: vec![],
            syms: vec![],
            map: HashMap::new(),
            sym_names: vec![],
            empty: Rc::new(vec![]),
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let kn = self.compute_known(&n);
        let syms = self.compute_syms(&n);
        self.nodes.push(n);
        self.known.push(kn);
        self.syms.push(syms);
        self.map.insert(n, e);
        e
    }
    fn compute_syms(&self, n: &Node) -> Rc<Vec<u32>> {
        let arity = match n.op {
            Op::Const => 0,
            Op::Sym => return Rc::new(vec![n.k as u32]),
            Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite | Op::Fp => 3,
            _ => 2,
        };
        if arity == 0 {
            return self.empty.clone();
        }
        let mut cur = self.syms[n.a as usize].clone();
        if arity >= 2 {
            cur = union(&cur, &self.syms[n.b as usize]);
        }
        if arity >= 3 {
            cur = union(&cur, &self.syms[n.c as usize]);
        }
        cur
    }
    fn compute_known(&self, n: &Node) -> Known {
        let none = Known { z: 0, o: 0 };
        if n.w > 128 {
            return none;
        }
        let m = mask(n.w);
        let ka = |e: E| self.known[e as usize];
        let wide = |e: E| self.nodes[e as usize].w > 128;
        match n.op {
            Op::Const => Known { z: !n.k & m, o: n.k },
            Op::And => {
                let (x, y) = (ka(n.a), ka(n.b));
                Known { z: (x.z | y.z) & m, o: x.o & y.o }
            }
            Op::Or => {
                let (x, y) = (ka(n.a), ka(n.b));
                Known { z: x.z & y.z & m, o: x.o | y.o }
            }
            Op::Xor => {
                let (x, y) = (ka(n.a), ka(n.b));
                let kn = (x.z | x.o) & (y.z | y.o) & m;
                let v = x.o ^ y.o;
                Known { z: kn & !v, o: kn & v }
            }
            Op::ZExt => {
                let x = ka(n.a);
                let wa = self.nodes[n.a as usize].w;
                Known { z: x.z | (m & !mask(wa)), o: x.o }
            }
            Op::SExt => {
                let x = ka(n.a);
                let wa = self.nodes[n.a as usize].w;
                let hi = m & !mask(wa);
                let sb = 1u128 << (wa - 1);
                if x.z & sb != 0 {
                    Known { z: x.z | hi, o: x.o }
                } else if x.o & sb != 0 {
                    Known { z: x.z, o: x.o | hi }
                } else {
                    x
                }
            }
            Op::Concat => {
                if wide(n.a) || wide(n.b) {
                    return none;
                }
                let (x, y) = (ka(n.a), ka(n.b));
                let wb = self.nodes[n.b as usize].w;
                Known { z: ((x.z << wb) | y.z) & m, o: (x.o << wb) | y.o }
            }
            Op::Extract => {
                if wide(n.a) {
                    return none;
                }
                let x = ka(n.a);
                let lo = n.k as u32;
                Known { z: (x.z >> lo) & m, o: (x.o >> lo) & m }
            }
            Op::Ite => {
                let (x, y) = (ka(n.b), ka(n.c));
                Known { z: x.z & y.z, o: x.o & y.o }
            }
            Op::Add => {
                // trailing known zeros and upper bound
                let (x, y) = (ka(n.a), ka(n.b));
                let mx = (!x.z & m).checked_add(!y.z & m);
                let mut z = 0;
                if let Some(mx) = mx {
                    if mx <= m && mx < u128::MAX {
                        let bits = 128 - mx.leading_zeros();
                        z |= m & !mask(bits as u16);
                    }
                }
                let tz = (!x.z).trailing_zeros().min((!y.z).trailing_zeros());
                z |= mask(tz as u16) & m;
                Known { z, o: 0 }
            }
            Op::Mul => {
                let (x, y) = (ka(n.a), ka(n.b));
                let (ma, mb) = (!x.z & m, !y.z & m);
                let ba = 128 - ma.leading_zeros();
                let bb = 128 - mb.leading_zeros();
                let mut z = 0;
                if ba + bb < n.w as u32 {
                    z |= m & !mask((ba + bb) as u16);
                }
                let tz = ((!x.z).trailing_zeros() + (!y.z).trailing_zeros()).min(n.w as u32);
                z |= mask(tz as u16) & m;
                Known { z, o: 0 }
            }
            Op::URem => {
                let y = ka(n.b);
                let x = ka(n.a);
                // result <= a, and < b when b != 0
                let bits = 128 - (!x.z & m).leading_zeros();
                let mut z = m & !mask(bits as u16);
                let nb = &self.nodes[n.b as usize];
                if nb.op == Op::Const && nb.k != 0 {
                    let b2 = 128 - (!y.z & m).leading_zeros();
                    z |= m & !mask(b2 as u16);
                }
                Known { z, o: 0 }
            }
            Op::UDiv => {
                let x = ka(n.a);
                let nb = &self.nodes[n.b as usize];
                if nb.op == Op::Const && nb.k != 0 {
                    let mx = (!x.z & m) / nb.k;
                    let bits = 128 - mx.leading_zeros();
                    Known { z: m & !mask(bits as u16), o: 0 }
                } else {
                    none
                }
            }
            Op::LShr => {
                let x = ka(n.a);
                let bits = 128 - (!x.z & m).leading_zeros();
                Known { z: m & !mask(bits as u16), o: 0 }
            }
            _ => none,
        }
    }
}

fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if b.is_empty() || Rc::ptr_eq(a, b) {
        return a.clone();
    }
    if a.is_empty() {
        return b.clone();
    }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            out.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            out.push(b[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if out.len() == a.len() {
        return a.clone();
    }
    if out.len() == b.len() {
        return b.clone();
    }
    Rc::new(out)
}

pub fn node(e: E) -> Node {
    AR.with(|a| a.borrow().nodes[e as usize])
}
pub fn width(e: E) -> u16 {
    AR.with(|a| a.borrow().nodes[e as usize].w)
}
fn known(e: E) -> Known {
    AR.with(|a| a.borrow().known[e as usize])
}
pub fn syms(e: E) -> Rc<Vec<u32>> {
    AR.with(|a| a.borrow().syms[e as usize].clone())
}
fn mk(op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
    AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        let e = ar.intern(Node { op, w, a, b, c, k });
        // fully known -> constant
        if op != Op::Const && w <= 128 {
            let kn = ar.known[e as usize];
            if kn.z | kn.o == mask(w) {
                return ar.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: kn.o });
            }
        }
        e
    })
}
pub fn n_nodes() -> usize {
    AR.with(|a| a.borrow().nodes.len())
}

pub fn cst(w: u16, v: u128) -> E {
    if w > 128 {
        let lo = cst(128, v);
        return concat(cst(w - 128, 0), lo);
    }
    mk(Op::Const, w, 0, 0, 0, v & mask(w))
}
pub fn new_sym(name: String, w: u16) -> E {
    let k = AR.with(|a| {
        let mut a = a.borrow_mut();
        a.sym_names.push((name, w));
        a.sym_names.len() - 1
    });
    mk(Op::Sym, w, 0, 0, 0, k as u128)
}
pub fn sym_info(k: u32) -> (String, u16) {
    AR.with(|a| a.borrow().sym_names[k as usize].clone())
}
pub fn is_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
fn umax(e: E) -> u128 {
    let w = width(e);
    if w > 128 {
        return u128::MAX;
    }
    !known(e).z & mask(w)
}
fn umin(e: E) -> u128 {
    known(e).o
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    if w > 128 {
        return mk(Op::Add, w, a.min(b), a.max(b), 0, 0);
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x.wrapping_add(y));
        }
        if y == 0 {
            return a;
        }
        let n = node(a);
        if n.op == Op::Add {
            if let Some(z) = is_const(n.b) {
                return add(n.a, cst(w, y.wrapping_add(z)));
            }
        }
    }
    // disjoint bits
    let (ka, kb) = (known(a), known(b));
    if (!ka.z & !kb.z & mask(w)) == 0 {
        return or(a, b);
    }
    let nb = node(b);
    let na = node(a);
    // (x - y) + y
    if na.op == Op::Sub && na.b == b {
        return na.a;
    }
    if nb.op == Op::Sub && nb.b == a {
        return nb.a;
    }
    if is_const(b).is_some() {
        return mk(Op::Add, w, a, b, 0, 0);
    }
    mk(Op::Add, w, a.min(b), a.max(b), 0, 0)
}
pub fn neg(a: E) -> E {
    sub(cst(width(a), 0), a)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return cst(w, 0);
    }
    if w > 128 {
        return mk(Op::Sub, w, a, b, 0, 0);
    }
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x.wrapping_sub(y));
        }
        return add(a, cst(w, y.wrapping_neg()));
    }
    let na = node(a);
    if na.op == Op::Add {
        if na.a == b {
            return na.b;
        }
        if na.b == b {
            return na.a;
        }
    }
    mk(Op::Sub, w, a, b, 0, 0)
}
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    if w > 128 {
        return mk(Op::Mul, w, a.min(b), a.max(b), 0, 0);
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x.wrapping_mul(y));
        }
        if y == 0 {
            return b;
        }
        if y == 1 {
            return a;
        }
        if y.is_power_of_two() {
            return shl(a, cst(w, y.trailing_zeros() as u128));
        }
        return mk(Op::Mul, w, a, b, 0, 0);
    }
    mk(Op::Mul, w, a.min(b), a.max(b), 0, 0)
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        if let Some(y) = is_const(b) {
            if y != 0 {
                if let Some(x) = is_const(a) {
                    return cst(w, x / y);
                }
                if y.is_power_of_two() {
                    return lshr(a, cst(w, y.trailing_zeros() as u128));
                }
            }
        }
        if let Some((na, nb, nw)) = narrow2(a, b) {
            return zext(udiv(na, nb), w, nw);
        }
    }
    mk(Op::UDiv, w, a, b, 0, 0)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        if let Some(y) = is_const(b) {
            if y != 0 {
                if let Some(x) = is_const(a) {
                    return cst(w, x % y);
                }
                if y.is_power_of_two() {
                    return and(a, cst(w, y - 1));
                }
            }
        }
        if let Some((na, nb, nw)) = narrow2(a, b) {
            return zext(urem(na, nb), w, nw);
        }
    }
    mk(Op::URem, w, a, b, 0, 0)
}
/// both operands have known-zero top halves: divide in a smaller width.
fn narrow2(a: E, b: E) -> Option<(E, E, u16)> {
    let w = width(a);
    let m = umax(a) | umax(b);
    let bits = (128 - m.leading_zeros()).max(1) as u16;
    // (a zero divisor is reported before the quotient is formed, so its value there is immaterial)
    if bits < w {
        Some((extract(a, 0, bits), extract(b, 0, bits), bits))
    } else {
        None
    }
}
/// number of bits that represent `e` as a signed value
fn sbits(e: E) -> u16 {
    let n = node(e);
    let w = n.w;
    if w > 128 {
        return w;
    }
    match n.op {
        Op::Const => {
            let v = sx(n.k, w);
            (129 - if v < 0 { (!v).leading_zeros() } else { v.leading_zeros() }) as u16
        }
        Op::SExt => sbits(n.a).min(width(n.a)),
        Op::Ite => sbits(n.b).max(sbits(n.c)).min(w),
        _ => ((128 - umax(e).leading_zeros()) as u16 + 1).min(w),
    }
}
fn snarrow(a: E, b: E) -> Option<u16> {
    let m = sbits(a).max(sbits(b)) + 1;
    if m < width(a) {
        Some(m)
    } else {
        None
    }
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
            if y != 0 {
                return cst(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        let sb = 1u128 << (w - 1);
        if known(a).z & sb != 0 && known(b).z & sb != 0 {
            return udiv(a, b);
        }
    }
    if w <= 128 {
        if let Some(m) = snarrow(a, b) {
            return sext(mk(Op::SDiv, m, extract(a, 0, m), extract(b, 0, m), 0, 0), w);
        }
    }
    mk(Op::SDiv, w, a, b, 0, 0)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
            if y != 0 {
                return cst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        let sb = 1u128 << (w - 1);
        if known(a).z & sb != 0 && known(b).z & sb != 0 {
            return urem(a, b);
        }
    }
    if w <= 128 {
        if let Some(m) = snarrow(a, b) {
            return sext(mk(Op::SRem, m, extract(a, 0, m), extract(b, 0, m), 0, 0), w);
        }
    }
    mk(Op::SRem, w, a, b, 0, 0)
}
pub fn and(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return a;
    }
    if w > 128 {
        // keep zero constants cheap
        if is_wide_zero(a) {
            return a;
        }
        if is_wide_zero(b) {
            return b;
        }
        return mk(Op::And, w, a.min(b), a.max(b), 0, 0);
    }
    let m = mask(w);
    let (ka, kb) = (known(a), known(b));
    // every possibly-one bit of one side is known one in the other
    if !ka.z & m & !kb.o == 0 {
        return a;
    }
    if !kb.z & m & !ka.o == 0 {
        return b;
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x & y);
        }
        if y == 0 {
            return b;
        }
        // low mask
        let t = (!y).trailing_zeros() as u16;
        if t < w && y == mask(t) {
            return zext(extract(a, 0, t), w, t);
        }
        // contiguous mask hi..lo
        let lo = y.trailing_zeros() as u16;
        let len = (!(y >> lo)).trailing_zeros() as u16;
        if y >> lo == mask(len) {
            let mid = extract(a, lo, len);
            let r = concat(mid, cst(lo, 0));
            return zext(r, w, lo + len);
        }
        let na = node(a);
        if na.op == Op::And {
            if let Some(z) = is_const(na.b) {
                return and(na.a, cst(w, y & z));
            }
        }
        return mk(Op::And, w, a, b, 0, 0);
    }
    if w == 1 {
        if is_not(a, b) {
            return cst(1, 0);
        }
        // and(x, and(x,y))
        let nb = node(b);
        if nb.op == Op::And && (nb.a == a || nb.b == a) {
            return b;
        }
        let na = node(a);
        if na.op == Op::And && (na.a == b || na.b == b) {
            return a;
        }
    }
    mk(Op::And, w, a.min(b), a.max(b), 0, 0)
}
fn is_wide_zero(e: E) -> bool {
    let n = node(e);
    match n.op {
        Op::Const => n.k == 0,
        Op::Concat => is_wide_zero(n.a) && is_wide_zero(n.b),
        Op::ZExt => is_wide_zero(n.a),
        _ => false,
    }
}
fn is_not(a: E, b: E) -> bool {
    let na = node(a);
    if na.op == Op::Xor && na.a == b && is_const(na.b) == Some(mask(na.w)) {
        return true;
    }
    let nb = node(b);
    nb.op == Op::Xor && nb.a == a && is_const(nb.b) == Some(mask(nb.w))
}
pub fn or(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return a;
    }
    if is_wide_zero(a) {
        return b;
    }
    if is_wide_zero(b) {
        return a;
    }
    // zext(lo) | concat(hi, 0)  ->  concat
    for (x, y) in [(a, b), (b, a)] {
        let nx = node(x);
        let ny = node(y);
        let (hi, k) = match ny.op {
            Op::Concat if is_wide_zero(ny.b) => (ny.a, width(ny.b)),
            Op::ZExt => {
                let ni = node(ny.a);
                if ni.op == Op::Concat && is_wide_zero(ni.b) {
                    (zext(ni.a, w - width(ni.b), width(ni.a)), width(ni.b))
                } else {
                    continue;
                }
            }
            _ => continue,
        };
        if nx.op == Op::ZExt && width(nx.a) <= k {
            let lo = zext(nx.a, k, width(nx.a));
            return concat(hi, lo);
        }
        if nx.op == Op::Const && nx.w <= 128 && nx.k <= mask(k) {
            return concat(hi, cst(k, nx.k));
        }
    }
    if w > 128 {
        return mk(Op::Or, w, a.min(b), a.max(b), 0, 0);
    }
    let m = mask(w);
    let (ka, kb) = (known(a), known(b));
    if !ka.z & m & !kb.o == 0 {
        return b;
    }
    if !kb.z & m & !ka.o == 0 {
        return a;
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return cst(w, x | y);
    }
    if w == 1 && is_not(a, b) {
        return cst(1, 1);
    }
    if is_const(b).is_some() {
        return mk(Op::Or, w, a, b, 0, 0);
    }
    mk(Op::Or, w, a.min(b), a.max(b), 0, 0)
}
pub fn xor(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return cst(w, 0);
    }
    if is_wide_zero(a) {
        return b;
    }
    if is_wide_zero(b) {
        return a;
    }
    if w > 128 {
        return mk(Op::Xor, w, a.min(b), a.max(b), 0, 0);
    }
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = is_const(b) {
        if let Some(x) = is_const(a) {
            return cst(w, x ^ y);
        }
        let n = node(a);
        if n.op == Op::Xor {
            if let Some(z) = is_const(n.b) {
                return xor(n.a, cst(w, y ^ z));
            }
        }
        return mk(Op::Xor, w, a, b, 0, 0);
    }
    mk(Op::Xor, w, a.min(b), a.max(b), 0, 0)
}
pub fn not(a: E) -> E {
    let w = width(a);
    if w > 128 {
        // ~x = -1 - x
        let half = w - 128;
        let ones = concat(cst(half.min(128), u128::MAX), cst(128, u128::MAX));
        assert!(half <= 128);
        return mk(Op::Xor, w, a, ones, 0, 0);
    }
    xor(a, cst(w, u128::MAX))
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k >= w as u128 {
            return cst(w, 0);
        }
        let k = k as u16;
        if k == 0 {
            return a;
        }
        if let (true, Some(x)) = (w <= 128, is_const(a)) {
            return cst(w, x << k);
        }
        return concat(extract(a, 0, w - k), cst(k, 0));
    }
    if is_wide_zero(a) {
        return a;
    }
    mk(Op::Shl, w, a, b, 0, 0)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k >= w as u128 {
            return cst(w, 0);
        }
        let k = k as u16;
        if k == 0 {
            return a;
        }
        return zext(extract(a, k, w - k), w, w - k);
    }
    if is_wide_zero(a) {
        return a;
    }
    mk(Op::LShr, w, a, b, 0, 0)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if w <= 128 {
        if known(a).z >> (w - 1) & 1 == 1 {
            return lshr(a, b);
        }
    }
    if let Some(k) = is_const(b) {
        let k = k.min(w as u128 - 1) as u16;
        if k == 0 {
            return a;
        }
        return sext(extract(a, k, w - k), w);
    }
    mk(Op::AShr, w, a, b, 0, 0)
}
pub fn zext(a: E, w: u16, wa: u16) -> E {
    debug_assert_eq!(width(a), wa);
    if w == wa {
        return a;
    }
    let n = node(a);
    if n.op == Op::Const && w <= 128 {
        return cst(w, n.k);
    }
    if n.op == Op::ZExt {
        return mk(Op::ZExt, w, n.a, 0, 0, 0);
    }
    mk(Op::ZExt, w, a, 0, 0, 0)
}
pub fn zx(a: E, w: u16) -> E {
    zext(a, w, width(a))
}
pub fn sext(a: E, w: u16) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if n.op == Op::Const && w <= 128 {
        return cst(w, sx(n.k, n.w) as u128);
    }
    if n.w <= 128 && known(a).z >> (n.w - 1) & 1 == 1 {
        return zx(a, w);
    }
    if n.op == Op::SExt {
        return mk(Op::SExt, w, n.a, 0, 0, 0);
    }
    mk(Op::SExt, w, a, 0, 0, 0)
}
pub fn extract(a: E, lo: u16, len: u16) -> E {
    let n = node(a);
    debug_assert!(lo + len <= n.w && len > 0, "extract {lo} {len} of {}", n.w);
    if lo == 0 && len == n.w {
        return a;
    }
    match n.op {
        Op::Const => return cst(len, n.k >> lo),
        Op::Extract => return extract(n.a, n.k as u16 + lo, len),
        Op::ZExt => {
            let wa = width(n.a);
            if lo >= wa {
                return cst(len, 0);
            }
            if lo + len <= wa {
                return extract(n.a, lo, len);
            }
            return zx(extract(n.a, lo, wa - lo), len);
        }
        Op::SExt => {
            let wa = width(n.a);
            if lo + len <= wa {
                return extract(n.a, lo, len);
            }
            if lo < wa {
                return sext(extract(n.a, lo, wa - lo), len);
            }
            return sext(extract(n.a, wa - 1, 1), len);
        }
        Op::Concat => {
            let wb = width(n.b);
            if lo + len <= wb {
                return extract(n.b, lo, len);
            }
            if lo >= wb {
                return extract(n.a, lo - wb, len);
            }
            let hi = extract(n.a, 0, lo + len - wb);
            let low = extract(n.b, lo, wb - lo);
            return concat(hi, low);
        }
        Op::And => return and(extract(n.a, lo, len), extract(n.b, lo, len)),
        Op::Or => return or(extract(n.a, lo, len), extract(n.b, lo, len)),
        Op::Xor => return xor(extract(n.a, lo, len), extract(n.b, lo, len)),
        Op::Add if lo == 0 => return add(extract(n.a, 0, len), extract(n.b, 0, len)),
        Op::Sub if lo == 0 => return sub(extract(n.a, 0, len), extract(n.b, 0, len)),
        Op::Mul if lo == 0 => return mul(extract(n.a, 0, len), extract(n.b, 0, len)),
        Op::Ite => {
            let (cb, cc) = (node(n.b).op == Op::Const, node(n.c).op == Op::Const);
            if cb || cc {
                return ite(n.a, extract(n.b, lo, len), extract(n.c, lo, len));
            }
        }
        _ => {}
    }
    mk(Op::Extract, len, a, 0, 0, lo as u128)
}
pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    if na.op == Op::Const && nb.op == Op::Const && w <= 128 {
        return cst(w, (na.k << nb.w) | nb.k);
    }
    if is_wide_zero(a) {
        return zx(b, w);
    }
    if na.op == Op::ZExt {
        // keep the zero extension outermost
        let inner = concat(na.a, b);
        return zx(inner, w);
    }
    if na.op == Op::Concat {
        return concat(na.a, concat(na.b, b));
    }
    if na.op == Op::Ite {
        if nb.op == Op::Ite && nb.a == na.a {
            return ite(na.a, concat(na.b, nb.b), concat(na.c, nb.c));
        }
        if nb.op == Op::Concat {
            let nba = node(nb.a);
            if nba.op == Op::Ite && nba.a == na.a {
                let f = ite(na.a, concat(na.b, nba.b), concat(na.c, nba.c));
                return concat(f, nb.b);
            }
        }
    }
    // fuse adjacent extracts
    if na.op == Op::Extract {
        let alo = na.k as u16;
        if nb.op == Op::Extract && nb.a == na.a && nb.k as u16 + nb.w == alo {
            return extract(na.a, nb.k as u16, w);
        }
        if nb.w == alo && nb.op != Op::Extract && extract(na.a, 0, nb.w) == b {
            return extract(na.a, 0, w);
        }
        if nb.op == Op::Concat {
            let nba = node(nb.a);
            if nba.op == Op::Extract && nba.a == na.a && nba.k as u16 + nba.w == alo {
                return concat(extract(na.a, nba.k as u16, na.w + nba.w), nb.b);
            }
        }
    }
    mk(Op::Concat, w, a, b, 0, 0)
}
pub fn eq(a: E, b: E) -> E {
    if a == b {
        return cst(1, 1);
    }
    let w = width(a);
    let (a, b) = if is_const(a).is_some() { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(1, (na.k == nb.k) as u128);
    }
    if w <= 128 {
        let (ka, kb) = (known(a), known(b));
        if ka.z & kb.o != 0 || ka.o & kb.z != 0 {
            return cst(1, 0);
        }
    }
    if let Some(k) = is_const(b) {
        if w == 1 {
            return if k == 1 { a } else { not(a) };
        }
        match na.op {
            Op::ZExt => {
                let wa = width(na.a);
                return if wa <= 128 && k & !mask(wa) == 0 {
                    eq(na.a, cst(wa, k))
                } else if wa > 128 {
                    mk(Op::Eq, 1, a, b, 0, 0)
                } else {
                    cst(1, 0)
                };
            }
            Op::SExt => {
                let wa = width(na.a);
                if w <= 128 {
                    let t = cst(wa, k);
                    return if is_const(sext(t, w)) == Some(k) { eq(na.a, t) } else { cst(1, 0) };
                }
            }
            Op::Concat => {
                if w <= 128 {
                    let wb = width(na.b);
                    return and(eq(na.a, cst(w - wb, k >> wb)), eq(na.b, cst(wb, k)));
                }
            }
            Op::Ite => {
                let (x, y) = (is_const(na.b), is_const(na.c));
                if x.is_some() || y.is_some() {
                    return ite(na.a, eq(na.b, b), eq(na.c, b));
                }
            }
            Op::Add => {
                if let Some(c2) = is_const(na.b) {
                    return eq(na.a, cst(w, k.wrapping_sub(c2)));
                }
            }
            Op::Sub if k == 0 => return eq(na.a, na.b),
            Op::Xor => {
                if k == 0 {
                    return eq(na.a, na.b);
                }
                if let Some(c2) = is_const(na.b) {
                    return eq(na.a, cst(w, k ^ c2));
                }
            }
            Op::Or if k == 0 => return and(eq(na.a, b), eq(na.b, b)),
            _ => {}
        }
        return mk(Op::Eq, 1, a, b, 0, 0);
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let (x, y) = (width(na.a), width(nb.a));
        let m = x.max(y);
        return eq(zx(na.a, m), zx(nb.a, m));
    }
    if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
        return and(eq(na.a, nb.a), eq(na.b, nb.b));
    }
    if (na.op == Op::Concat || nb.op == Op::Concat) && w > 1 {
        // split on the concat boundary when the other side splits structurally
        let (c, o) = if na.op == Op::Concat { (na, b) } else { (nb, a) };
        let no = node(o);
        let wb = width(c.b);
        let splits = matches!(no.op, Op::ZExt | Op::Extract | Op::Concat | Op::Sym | Op::Const);
        if splits {
            return and(eq(c.a, extract(o, wb, w - wb)), eq(c.b, extract(o, 0, wb)));
        }
    }
    mk(Op::Eq, 1, a.min(b), a.max(b), 0, 0)
}
pub fn ne(a: E, b: E) -> E {
    not(eq(a, b))
}
pub fn ult(a: E, b: E) -> E {
    if a == b {
        return cst(1, 0);
    }
    let w = width(a);
    if w > 128 {
        return mk(Op::Ult, 1, a, b, 0, 0);
    }
    if umax(a) < umin(b) {
        return cst(1, 1);
    }
    if umin(a) >= umax(b) {
        return cst(1, 0);
    }
    let (na, nb) = (node(a), node(b));
    if let Some(k) = is_const(b) {
        if k == 1 {
            return eq(a, cst(w, 0));
        }
        if k == mask(w) {
            return ne(a, b);
        }
        if na.op == Op::ZExt {
            let wa = width(na.a);
            // k <= umax(a) here, so it fits
            return ult(na.a, cst(wa, k));
        }
    }
    if let Some(k) = is_const(a) {
        if k == 0 {
            return ne(b, a);
        }
        if k == mask(w) - 1 {
            return eq(b, cst(w, mask(w)));
        }
        if nb.op == Op::ZExt {
            let wb = width(nb.a);
            if k <= mask(wb) {
                return ult(cst(wb, k), nb.a);
            }
        }
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt {
        let m = width(na.a).max(width(nb.a));
        if m < w {
            return ult(zx(na.a, m), zx(nb.a, m));
        }
    }
    // ite of constants on one side
    if na.op == Op::Ite && is_const(b).is_some() && is_const(na.b).is_some() && is_const(na.c).is_some() {
        return ite(na.a, ult(na.b, b), ult(na.c, b));
    }
    if nb.op == Op::Ite && is_const(a).is_some() && is_const(nb.b).is_some() && is_const(nb.c).is_some() {
        return ite(nb.a, ult(a, nb.b), ult(a, nb.c));
    }
    mk(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return cst(1, 0);
    }
    let w = width(a);
    if w <= 128 {
        let sb = 1u128 << (w - 1);
        let (ka, kb) = (known(a), known(b));
        if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
            return cst(1, (sx(x, w) < sx(y, w)) as u128);
        }
        if ka.z & sb != 0 && kb.z & sb != 0 || ka.o & sb != 0 && kb.o & sb != 0 {
            return ult(a, b);
        }
        if ka.o & sb != 0 && kb.z & sb != 0 {
            return cst(1, 1);
        }
        if ka.z & sb != 0 && kb.o & sb != 0 {
            return cst(1, 0);
        }
        if is_const(b) == Some(0) {
            return extract(a, w - 1, 1);
        }
        if is_const(a) == Some(mask(w)) {
            return not(extract(b, w - 1, 1));
        }
    }
    mk(Op::Slt, 1, a, b, 0, 0)
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    if let Some(k) = is_const(c) {
        return if k == 1 { a } else { b };
    }
    let w = width(a);
    let nc = node(c);
    if nc.op == Op::Xor && is_const(nc.b) == Some(1) {
        return ite(nc.a, b, a);
    }
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(1)) => return or(not(c), a),
            (None, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt && w > 1 {
        let m = width(na.a).max(width(nb.a));
        if m < w {
            return zx(ite(c, zx(na.a, m), zx(nb.a, m)), w);
        }
    }
    for (x, y, fl) in [(na, nb, false), (nb, na, true)] {
        // ite(c, zext(x), const) with const small
        if x.op == Op::ZExt && y.op == Op::Const && y.w <= 128 {
            let wi = width(x.a);
            if wi <= 128 && y.k & !mask(wi) == 0 {
                let k = cst(wi, y.k);
                let r = if fl { ite(c, k, x.a) } else { ite(c, x.a, k) };
                return zx(r, w);
            }
        }
    }
    mk(Op::Ite, w, c, a, b, 0)
}
/// set once a float operation has been encoded (the solver is then told to expect floats)
pub static FP_USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn fp(kind: u128, w: u16, a: E, b: E, c: E) -> E {
    FP_USED.store(true, std::sync::atomic::Ordering::Relaxed);
    mk(Op::Fp, w, a, b, c, kind)
}

/// Satisfying assignment with an evaluation cache.
pub struct Model {
    pub vals: HashMap<u32, u128>,
    cache: RefCell<HashMap<E, Option<u128>>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Rc<Model> {
        Rc::new(Model { vals, cache: RefCell::new(HashMap::new()) })
    }
    pub fn eval(&self, e: E) -> Option<u128> {
        let n = node(e);
        match n.op {
            Op::Const => return Some(n.k),
            Op::Sym => return Some(*self.vals.get(&(n.k as u32)).unwrap_or(&0)),
            _ => {}
        }
        if let Some(&v) = self.cache.borrow().get(&e) {
            return v;
        }
        let v = self.eval_node(n);
        self.cache.borrow_mut().insert(e, v);
        v
    }
    fn eval_fp(&self, n: Node) -> Option<u128> {
        use crate::z3::fpk;
        let wa = width(n.a);
        let a = self.eval(n.a)?;
        match n.k {
            fpk::FROM_S | fpk::FROM_U => {
                let s = n.k == fpk::FROM_S;
                return Some(match (n.w, s) {
                    (64, true) => (sx(a, wa) as f64).to_bits() as u128,
                    (64, false) => (a as f64).to_bits() as u128,
                    (_, true) => (sx(a, wa) as f32).to_bits() as u128,
                    (_, false) => (a as f32).to_bits() as u128,
                });
            }
            fpk::CVT => {
                return Some(match (wa, n.w) {
                    (32, 64) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
                    (64, 32) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
                    _ => return None,
                })
            }
            fpk::TO_S | fpk::TO_U => return None,
            _ => {}
        }
        macro_rules! ev {
            ($f:ty, $u:ty) => {{
                let x = <$f>::from_bits(a as $u);
                let y = || Some(<$f>::from_bits(self.eval(n.b)? as $u));
                let r: $f = match n.k {
                    fpk::ADD => x + y()?,
                    fpk::SUB => x - y()?,
                    fpk::MUL => x * y()?,
                    fpk::DIV => x / y()?,
                    fpk::SQRT => x.sqrt(),
                    fpk::FMA => x.mul_add(y()?, <$f>::from_bits(self.eval(n.c)? as $u)),
                    fpk::FLOOR => x.floor(),
                    fpk::CEIL => x.ceil(),
                    fpk::TRUNC => x.trunc(),
                    fpk::ROUND => x.round(),
                    fpk::EQ => return Some((x == y()?) as u128),
                    fpk::LT => return Some((x < y()?) as u128),
                    fpk::ISNAN => return Some(x.is_nan() as u128),
                    _ => return None,
                };
                // the bits of a NaN are the solver's choice
                if r.is_nan() {
                    return None;
                }
                Some(r.to_bits() as u128)
            }};
        }
        if wa == 64 {
            ev!(f64, u64)
        } else {
            ev!(f32, u32)
        }
    }
    fn eval_node(&self, n: Node) -> Option<u128> {
        if n.w > 128 {
            return None;
        }
        let m = mask(n.w);
        if n.op == Op::Ite {
            return if self.eval(n.a)? == 1 { self.eval(n.b) } else { self.eval(n.c) };
        }
        if n.op == Op::Extract && width(n.a) > 128 {
            return None;
        }
        if n.op == Op::Fp {
            return self.eval_fp(n);
        }
        let wa = width(n.a);
        let a = self.eval(n.a)?;
        match n.op {
            Op::ZExt => return Some(a),
            Op::SExt => return Some(sx(a, wa) as u128 & m),
            Op::Extract => return Some((a >> n.k as u32) & m),
            _ => {}
        }
        let b = self.eval(n.b)?;
        Some(match n.op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(a, wa), sx(b, wa));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Op::SRem => {
                let (x, y) = (sx(a, wa), sx(b, wa));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= n.w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= n.w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = b.min(n.w as u128 - 1) as u32;
                (sx(a, n.w) >> s) as u128 & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
            Op::Concat => {
                let wb = width(n.b);
                (a << wb) | b
            }
            _ => unreachable!(),
        })
    }
}

/// Replace products of two unknowns and divisions by fresh variables (one per distinct term).
/// Unsatisfiability of the result implies unsatisfiability of the original.
pub fn abstract_hard(v: &[E], memo: &mut std::collections::HashMap<E, E>) -> Option<Vec<E>> {
    let mut any = false;
    let mut out: Vec<E> = v.iter().map(|&e| abs_rec(e, memo, &mut any)).collect();
    if any {
        // facts that hold of the replaced terms
        AXIOMS.with(|a| {
            let a = a.borrow();
            let mut seen = std::collections::HashSet::new();
            let mut i = 0;
            let mut terms: Vec<(u8, E, E, E)> = vec![];
            while i < out.len() {
                for &k in syms(out[i]).iter() {
                    if seen.insert(k) {
                        if let Some(v) = a.get(&k) {
                            out.extend(v.iter().copied());
                        }
                        // equal operands give equal results
                        if let Some(&t) = TERMS.with(|t| t.borrow().get(&k).copied()).as_ref() {
                            if terms.len() < 40 {
                                for &u in &terms {
                                    congruence(t, u, &mut out);
                                }
                                terms.push(t);
                            }
                        }
                    }
                }
                i += 1;
            }
        });
        Some(out)
    } else {
        None
    }
}
/// is this symbol a replaced product or division of wide operands?
pub fn wide_term(k: u32) -> bool {
    TERMS.with(|t| t.borrow().get(&k).map_or(false, |t| width(t.3) >= 40))
}
fn congruence(t: (u8, E, E, E), u: (u8, E, E, E), out: &mut Vec<E>) {
    if t.0 != u.0 {
        return;
    }
    let w = width(t.1).max(width(u.1));
    let (w1, w2) = (width(t.3), width(u.3));
    if t.0 != 0 && w1 != w2 {
        return;
    }
    let same = |x: E, y: E| eq(zx(x, w), zx(y, w));
    let mut pre = and(same(t.1, u.1), same(t.2, u.2));
    if t.0 == 0 {
        pre = or(pre, and(same(t.1, u.2), same(t.2, u.1)));
    }
    if is_const(pre) == Some(0) {
        return;
    }
    let r = w1.max(w2);
    out.push(or(not(pre), eq(zx(t.3, r), zx(u.3, r))));
}
thread_local! {
    /// symbol -> (0 product | 1.. division, operands, the symbol)
    static TERMS: std::cell::RefCell<HashMap<u32, (u8, E, E, E)>> = std::cell::RefCell::new(HashMap::new());
    static AXIOMS: std::cell::RefCell<HashMap<u32, Vec<E>>> = std::cell::RefCell::new(HashMap::new());
}
fn axiom(p: E, e: E) {
    let k = syms(p)[0];
    AXIOMS.with(|a| a.borrow_mut().entry(k).or_default().push(e));
}
fn abs_rec(e: E, memo: &mut std::collections::HashMap<E, E>, any: &mut bool) -> E {
    if let Some(&r) = memo.get(&e) {
        if r != e {
            *any = true;
        }
        return r;
    }
    let n = node(e);
    let r = match n.op {
        Op::Const | Op::Sym | Op::Fp => e,
        Op::Mul if n.w > 1 && n.w <= 128 && is_const(n.a).is_none() && is_const(n.b).is_none() => {
            // one variable per full product of the unextended operands, so that the low half
            // and the whole of the same product stay related
            *any = true;
            let strip = |e: E| -> E {
                let m = node(e);
                if m.op == Op::ZExt {
                    m.a
                } else {
                    let bits = (128 - umax(e).leading_zeros()).max(1) as u16;
                    if bits < m.w {
                        extract(e, 0, bits)
                    } else {
                        e
                    }
                }
            };
            let (x, y) = (strip(n.a), strip(n.b));
            let k = width(x).max(width(y));
            let (x, y) = (zx(x, k), zx(y, k));
            let key = mk(Op::Mul, 2 * k, x.min(y), x.max(y), u32::MAX as E, 1);
            let p = match memo.get(&key) {
                Some(&p) => p,
                None => {
                    let p = new_sym(format!("abs{key}"), 2 * k);
                    memo.insert(key, p);
                    let (ax, ay) = (abs_rec(x, memo, any), abs_rec(y, memo, any));
                    TERMS.with(|t| t.borrow_mut().insert(syms(p)[0], (0, ax, ay, p)));
                    if 2 * k <= 128 {
                        let (mx, my) = (umax(x), umax(y));
                        axiom(p, ule(p, cst(2 * k, mx * my)));
                        let (zx_, zy) = (eq(ax, cst(k, 0)), eq(ay, cst(k, 0)));
                        axiom(p, eq(eq(p, cst(2 * k, 0)), or(zx_, zy)));
                        axiom(p, or(ne(ax, cst(k, 1)), eq(p, zx(ay, 2 * k))));
                        axiom(p, or(ne(ay, cst(k, 1)), eq(p, zx(ax, 2 * k))));
                    }
                    p
                }
            };
            if n.w <= 2 * k {
                extract(p, 0, n.w)
            } else {
                zx(p, n.w)
            }
        }
        Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem if n.w > 1 && is_const(n.a).is_none() && is_const(n.b).is_none() => {
            *any = true;
            let s = new_sym(format!("abs{e}"), n.w);
            if n.op != Op::Mul {
                let (x, y) = (abs_rec(n.a, memo, any), abs_rec(n.b, memo, any));
                let op = match n.op {
                    Op::UDiv => 1,
                    Op::URem => 2,
                    Op::SDiv => 3,
                    _ => 4,
                };
                TERMS.with(|t| t.borrow_mut().insert(syms(s)[0], (op, x, y, s)));
                let z = eq(y, cst(n.w, 0));
                match n.op {
                    Op::UDiv => axiom(s, or(z, ule(s, x))),
                    Op::URem => {
                        axiom(s, or(z, ult(s, y)));
                        axiom(s, ule(s, x));
                    }
                    _ => {}
                }
            }
            let kz = if n.w <= 128 { known(e).z } else { 0 };
            if kz != 0 {
                and(s, cst(n.w, !kz))
            } else {
                s
            }
        }
        _ => {
            let a = abs_rec(n.a, memo, any);
            let bin = !matches!(n.op, Op::Extract | Op::ZExt | Op::SExt);
            let b = if bin { abs_rec(n.b, memo, any) } else { 0 };
            match n.op {
                Op::Add => add(a, b),
                Op::Sub => sub(a, b),
                Op::Mul => mul(a, b),
                Op::UDiv => udiv(a, b),
                Op::URem => urem(a, b),
                Op::SDiv => sdiv(a, b),
                Op::SRem => srem(a, b),
                Op::And => and(a, b),
                Op::Or => or(a, b),
                Op::Xor => xor(a, b),
                Op::Shl => shl(a, b),
                Op::LShr => lshr(a, b),
                Op::AShr => ashr(a, b),
                Op::Eq => eq(a, b),
                Op::Ult => ult(a, b),
                Op::Slt => slt(a, b),
                Op::Concat => concat(a, b),
                Op::Ite => {
                    let c = abs_rec(n.c, memo, any);
                    ite(a, b, c)
                }
                Op::Extract => extract(a, n.k as u16, n.w),
                Op::ZExt => zx(a, n.w),
                Op::SExt => sext(a, n.w),
                _ => unreachable!(),
            }
        }
    };
    memo.insert(e, r);
    r
}
