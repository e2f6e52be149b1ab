//! C26. Bounds: every history of 7 operations (8 in thorough; add of any 2-bit value, take a reference, release a reference, look up) on a fresh interner of u8,
//! with up to 5 handles; histories of 5 operations around the first chunk boundary (31..=33 live values); interners of boxed slices; every history of 4 clone / drop / recompute
//! operations on three interned BigInts; every allocation is released when the interner is dropped.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_utils::intern::InternId;
use numeric_utils::Interner;

const NH: usize = 5;
/// what the interner should hold: per handle its id, value, and how many references the history holds through it
struct Model { id: [usize; NH], val: [u8; NH], refs: [usize; NH], n: usize }
impl Model {
    fn new() -> Self { Model { id: [0; NH], val: [0; NH], refs: [0; NH], n: 0 } }
    /// references held to slot `id`
    fn count(&self, id: usize) -> usize { let mut c = 0; let mut i = 0; while i < self.n { if self.id[i] == id { c += self.refs[i]; } i += 1; } c }
}
fn id(x: usize) -> InternId { InternId::from_usize(x) }
fn history(it: &Interner<u8>, m: &mut Model, steps: usize, bits: u8) {
    for _ in 0..steps {
        match pick(4) {
            0 => {
                if m.n == NH { return; }
                let v: u8 = any(); assume(v < 1 << bits);
                let k = it.add::<u8, u8>(v).into_usize();
                // a value in use has exactly one slot
                let mut i = 0; while i < m.n { if m.refs[i] > 0 { check!((m.id[i] == k) == (m.val[i] == v)); } i += 1; }
                m.id[m.n] = k; m.val[m.n] = v; m.refs[m.n] = 1; m.n += 1;
            }
            1 => { if m.n == 0 { return; } let h = pick(m.n); if m.refs[h] == 0 { return; } it.incr(id(m.id[h])); m.refs[h] += 1; }
            2 => { if m.n == 0 { return; } let h = pick(m.n); if m.refs[h] == 0 { return; } it.decr(id(m.id[h])); m.refs[h] -= 1; }
            _ => {}
        }
        let mut h = 0;
        while h < m.n {
            let c = m.count(m.id[h]);
            check!(it.refcount(id(m.id[h])) == c);
            match it.try_get(id(m.id[h])) {
                Some(&v) => { check!(c > 0); if m.refs[h] > 0 { check!(v == m.val[h]); check!(*it.get(id(m.id[h])) == v) } }
                None => check!(c == 0),
            }
            h += 1;
        }
    }
}
harness! {
    fn c26_t_hist8() { let l0 = live_heap(); { let it = Interner::<u8>::new(); let mut m = Model::new(); history(&it, &mut m, 8, 2); } check!(live_heap() == l0); }
    fn c26_q_hist7() { let l0 = live_heap(); { let it = Interner::<u8>::new(); let mut m = Model::new(); history(&it, &mut m, 7, 2); } check!(live_heap() == l0); }
    fn c26_q_cap() { let l0 = live_heap(); { let it = Interner::<u8>::with_capacity(pick(3) * 33); let mut m = Model::new(); history(&it, &mut m, 4, 2); } check!(live_heap() == l0); }
    fn c26_q_chunk() { // around the chunk boundary
        let l0 = live_heap();
        { let it = Interner::<u8>::new(); let full = 31 + pick(3);
          let mut ids = [0usize; 33]; let mut i = 0;
          while i < full { ids[i] = it.add::<u8, u8>(100 + i as u8).into_usize(); i += 1; }
          let mut m = Model::new(); history(&it, &mut m, 5, 2);
          i = 0; while i < full { check!(*it.get(id(ids[i])) == 100 + i as u8); check!(it.refcount(id(ids[i])) == 1); let mut j = 0; while j < i { check!(ids[j] != ids[i]); j += 1; } i += 1; } }
        check!(live_heap() == l0); }
    fn c26_q_boxed() { let l0 = live_heap();
        { let it = Interner::<Box<[usize]>>::new(); let (a, b): ([usize; 2], [usize; 2]) = (any(), any());
          let i = it.add::<&[usize], [usize]>(&a); let j = it.add::<Vec<usize>, [usize]>(b.to_vec());
          check!((i == j) == (a == b)); if i == j { check!(it.refcount(i.clone()) == 2) }
          check!(**it.get(i.clone()) == a); check!(**it.get(j.clone()) == b);
          it.decr(i.clone());
          let c: [usize; 2] = any(); let k = it.add::<&[usize], [usize]>(&c);
          check!((k == j) == (b == c));
          check!(**it.get(j) == b); check!(**it.get(k) == c); }
        check!(live_heap() == l0); }
    fn c26_q_equal() { // equal values added while one is live share its slot
        let it = Interner::<u64>::new(); let (a, b): (u64, u64) = (any(), any());
        let i = it.add::<u64, u64>(a); let j = it.add::<u64, u64>(b); let k = it.add::<u64, u64>(a);
        check!(i == k); check!((i == j) == (a == b)); check!(it.refcount(i) == if a == b { 3 } else { 2 }); }
    fn c26_q_bigint() {
        let x: [u64; 3] = any(); assume(x[0] >> 62 != 0 && x[1] >> 62 != 0 && x[2] >> 62 != 0);
        let mut v: [Option<BigInt>; 3] = [Some(BigInt::from(x[0])), Some(BigInt::from(x[1])), None];
        let mut w = [x[0], x[1], 0];
        for _ in 0..3 {
            match pick(4) {
                0 => { let d = pick(3); let s = pick(3); if v[s].is_none() || d == s { return; } v[d] = v[s].clone(); w[d] = w[s]; }
                1 => { let d = pick(3); if v[d].is_none() { return; } v[d] = None; }
                2 => { let d = pick(3); v[d] = Some(BigInt::from(x[2])); w[d] = x[2]; }
                _ => { let d = pick(3); if v[d].is_none() { return; } let n = -v[d].take().unwrap(); v[d] = Some(-n); }
            }
        }
        for i in 0..3 { if let Some(b) = &v[i] { check!(*b == w[i]); } }
    }
}
