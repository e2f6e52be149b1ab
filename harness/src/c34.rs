//! C34. Bounds: Matrix of every shape up to 3 by 3 used below over i32 with all 16-bit (products: 8-bit, 4-bit for three terms) entries; the ring laws over the field of 3 elements, 2 by 2. Oracle: the entry-wise
//! formulas.
use crate::gf::Gf;
use crate::vt::*;
use crate::*;
use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_compounds::vector::Vector;
use numeric_traits::identity::*;

fn m<const R: usize, const C: usize>() -> [[i32; C]; R] { core::array::from_fn(|_| core::array::from_fn(|_| any::<i16>() as i32)) }
fn m8<const R: usize, const C: usize>() -> [[i32; C]; R] { core::array::from_fn(|_| core::array::from_fn(|_| any::<i8>() as i32)) }
fn g<const R: usize, const C: usize>() -> Matrix<Gf<3>, R, C> { Matrix::new(core::array::from_fn(|_| core::array::from_fn(|_| Gf::sym()))) }
fn m4<const R: usize, const C: usize>() -> [[i32; C]; R] { core::array::from_fn(|_| core::array::from_fn(|_| (any::<i8>() >> 4) as i32)) }
fn mul<const R: usize, const K: usize, const C: usize>() {
    let (a, b) = if K < 3 { (m8::<R, K>(), m8::<K, C>()) } else { (m4::<R, K>(), m4::<K, C>()) };
    let r = Matrix::new(a) * Matrix::new(b);
    for i in 0..R { for j in 0..C { let mut s = 0; for k in 0..K { s += a[i][k] * b[k][j]; } check!(r[(i, j)] == s); } }
}
fn shape<const R: usize, const C: usize>() {
    let (a, b) = (m::<R, C>(), m::<R, C>());
    match pick(10) {
        0 => { let r = Matrix::new(a) + Matrix::new(b); for i in 0..R { for j in 0..C { check!(r[(i, j)] == a[i][j] + b[i][j]); } } }
        1 => { let r = Matrix::new(a) - Matrix::new(b); for i in 0..R { for j in 0..C { check!(r[(i, j)] == a[i][j] - b[i][j]); } } }
        2 => { let r = Matrix::new(a).transpose(); for i in 0..R { for j in 0..C { check!(r[(j, i)] == a[i][j]); } } check!(r.transpose() == Matrix::new(a)); }
        3 => { let r = Matrix::from_rows(a.map(Vector::new)); for i in 0..R { for j in 0..C { check!(r[(i, j)] == a[i][j]); } } }
        4 => { let r: Matrix<i32, C, R> = Matrix::from_columns(a.map(Vector::new)); for i in 0..R { for j in 0..C { check!(r[(j, i)] == a[i][j]); } } }
        5 => { let (x, y) = (pick(R), pick(R)); let (mut r, mut d) = (Matrix::new(a), DynMatrix::from(a)); r.swap_rows(x, y); d.swap_rows(x, y);
               for i in 0..R { for j in 0..C { let e = a[if i == x { y } else if i == y { x } else { i }][j]; check!(r[(i, j)] == e); check!(d[(i, j)] == e); } } }
        6 => { check!(Matrix::<i32, R, C>::zero() == Matrix::new([[0; C]; R]) && Matrix::<i32, R, C>::default() == Matrix::new([[0; C]; R])); check!(Matrix::new(a).is_zero() == (a == [[0; C]; R])); }
        7 => { let o = Matrix::<i32, R, C>::one(); let mut id = true;
               for i in 0..R { for j in 0..C { check!(o[(i, j)] == (i == j) as i32); id &= a[i][j] == (i == j) as i32; } }
               check!(o.is_one()); check!(Matrix::new(a).is_one() == id); }
        8 => { check!((Matrix::new(a) == Matrix::new(b)) == (a == b)); check!((DynMatrix::from(a) == DynMatrix::from(b)) == (a == b)); check!(Matrix::new(a).clone() == Matrix::new(a)); }
        _ => { let d = DynMatrix::from(a); check!(d.rows() == R && d.cols() == C); for i in 0..R { for j in 0..C { check!(d[(i, j)] == a[i][j]); } }
               let d2 = DynMatrix::new(a.iter().flatten().copied().collect(), R, C); check!(d == d2); }
    }
}
harness! {
    fn c34_q_12() { shape::<1, 2>(); } fn c34_q_21() { shape::<2, 1>(); } fn c34_q_22() { shape::<2, 2>(); } fn c34_q_23() { shape::<2, 3>(); }
    fn c34_q_32() { shape::<3, 2>(); } fn c34_q_33() { shape::<3, 3>(); } fn c34_t_34() { shape::<3, 4>(); }
    fn c34_q_mul111() { mul::<1, 1, 1>(); } fn c34_q_mul222() { mul::<2, 2, 2>(); } fn c34_q_mul232() { mul::<2, 3, 2>(); } fn c34_q_mul123() { mul::<1, 2, 3>(); } fn c34_q_mul312() { mul::<3, 1, 2>(); }
    fn c34_q_mul321() { mul::<3, 2, 1>(); } fn c34_q_mul333() { mul::<3, 3, 3>(); }
    fn c34_q_unit() { let a = m8::<3, 3>(); check!(Matrix::<i32, 3, 3>::one() * Matrix::new(a) == Matrix::new(a)); check!(Matrix::new(a) * Matrix::one() == Matrix::new(a)); }
    fn c34_q_diag() { let a = m::<3, 3>(); let d: [i32; 3] = Matrix::new(a).diag().into(); check!(d == [a[0][0], a[1][1], a[2][2]]); }
    fn c34_q_laws() {
        let (a, b, c) = (g::<2, 2>(), g::<2, 2>(), g::<2, 2>());
        match pick(3) {
            0 => check!((a.clone() * b.clone()) * c.clone() == a * (b * c)),
            1 => check!(a.clone() * (b.clone() + c.clone()) == a.clone() * b + a * c),
            _ => check!((a.clone() * b.clone()).transpose() == b.transpose() * a.transpose()),
        } }
}
