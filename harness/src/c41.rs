//! C41. Bounds: vectors of 1 to 4 dimensions over the fields of 5 and 7 elements, all components, and 3 over f64 with two free components; binomials: n over 2 for every n below 2^10 (2^13 in thorough), n over r for n up to 20.
//! Oracle: the defining formula a_i b_j - a_j b_i; Pascal's triangle.
use crate::gf::Gf;
use crate::vt::*;
use crate::*;
use numeric_compounds::bivec::{verif_choose_n, BiVector};
use numeric_compounds::vector::Vector;

macro_rules! wedge { ($($n:ident $p:literal, $d:literal;)*) => { harness! { $( fn $n() {
    let a: [Gf<$p>; $d] = core::array::from_fn(|_| Gf::sym()); let b: [Gf<$p>; $d] = core::array::from_fn(|_| Gf::sym());
    let w = if pick(2) == 0 { BiVector::new(Vector::new(a), Vector::new(b)) } else { Vector::wedge(Vector::new(a), Vector::new(b)) };
    let c = w.verif_components();
    check!(c.len() == $d * ($d - 1) / 2);
    let mut k = 0;
    for i in 0..$d { for j in i + 1..$d { check!(c[k] == a[i] * b[j] - a[j] * b[i]); k += 1; } }
} )* } } }
wedge! { c41_q_1 7, 1; c41_q_2 7, 2; c41_q_3 7, 3; c41_q_4 5, 4; }
fn pascal(n: usize, r: usize) -> usize { let mut row = [0usize; 32]; row[0] = 1; for i in 1..=n { for j in (1..=i).rev() { row[j] += row[j - 1]; } } row[r] }
harness! {
    fn c41_q_float() {
        let a: [i8; 3] = [any(), 5, -9]; let b: [i8; 3] = [any(), 3, -7]; assume(b[0] >= -8 && b[0] < 8);
        let w = Vector::wedge(Vector::new(a.map(|x| x as f64)), Vector::new(b.map(|x| x as f64)));
        let c = w.verif_components(); check!(c.len() == 3);
        let e = |i: usize, j: usize| (a[i] as i32 * b[j] as i32 - a[j] as i32 * b[i] as i32) as f64;
        check!(c[0] == e(0, 1)); check!(c[1] == e(0, 2)); check!(c[2] == e(1, 2));
    }
    fn c41_q_choose2() { let n: u16 = any(); assume(n < 1 << 10); let n = n as usize; check!(verif_choose_n(n, 2) == if n < 2 { 0 } else { n * (n - 1) / 2 }); check!(verif_choose_n(n, 0) == 1); check!(verif_choose_n(n, 1) == n); }
    fn c41_q_choose() { let n = pick(21); let r = pick(24); check!(verif_choose_n(n, r) == if r > n { 0 } else { pascal(n, r) }); }
    fn c41_t_choose2() { let n: u16 = any(); assume(n < 1 << 13); let n = n as usize; check!(verif_choose_n(n, 2) == if n < 2 { 0 } else { n * (n - 1) / 2 }); }
}
