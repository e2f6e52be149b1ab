//! C37. Bounds: arrays of 0 to 4 elements, all element values; owned heap elements (Box<u8>) for the accounting of drops: every allocation is tracked, so a value dropped twice, read after its drop
//! or (where everything is consumed) never dropped is a violation. Early exits (any, all, try_fold, None, Err) at every position.
use crate::vt::*;
use crate::*;
use numeric_static_iter::*;
extern crate alloc;
use alloc::boxed::Box;

fn arr<const N: usize>() -> [u8; N] { core::array::from_fn(|_| any()) }
fn run<const N: usize>() {
    let (a, b) = (arr::<N>(), arr::<N>());
    match pick(10) {
        0 => { let mut seen = 0; let r: [u16; N] = a.into_static_iter().map(|x| { seen += 1; x as u16 + seen as u16 * 256 }).collect(); check!(seen == N); for i in 0..N { check!(r[i] == a[i] as u16 + (i as u16 + 1) * 256); } }
        1 => { let r: [(u8, u8); N] = a.into_static_iter().zip(b).collect(); for i in 0..N { check!(r[i] == (a[i], b[i])); } }
        2 => { let r: [(usize, u8); N] = a.into_static_iter().enumerate().collect(); for i in 0..N { check!(r[i] == (i, a[i])); } }
        3 => { let r = a.into_static_iter().fold(7u64, |acc, x| acc * 256 + x as u64); let mut e = 7u64; for i in 0..N { e = e * 256 + a[i] as u64; } check!(r == e); }
        4 => { let k: u8 = any(); let mut n = 0; let r = a.into_static_iter().try_fold(0usize, |acc, x| { n += 1; if x == k { Err((acc, x)) } else { Ok(acc + 1) } });
               let mut p = N; for i in (0..N).rev() { if a[i] == k { p = i; } } check!(r == if p == N { Ok(N) } else { Err((p, k)) }); check!(n == if p == N { N } else { p + 1 }); }
        5 => { let k: u8 = any(); let (mut p, mut q) = (false, true); for i in 0..N { p |= a[i] == k; q &= a[i] == k; } check!(a.into_static_iter().any(|x| x == k) == p); check!((&a).into_static_iter().all(|x| *x == k) == q); }
        6 => { let w = a.map(|x| x as u64); let (mut s, mut p) = (0, 1); for i in 0..N { s += w[i]; p *= w[i]; } check!(w.into_static_iter().sum() == s); check!(w.into_static_iter().product() == p); }
        7 => { let r: [usize; N] = StaticRangeTo::<N>.into_static_iter().collect(); for i in 0..N { check!(r[i] == i); } let r: [&u8; N] = (&a).into_static_iter().collect(); for i in 0..N { check!(core::ptr::eq(r[i], &a[i])); } }
        8 => { let r: [[u8; 2]; N] = zip_all([a, b]).collect(); for i in 0..N { check!(r[i] == [a[i], b[i]]); } let r: [[u8; 3]; N] = zip_all([a, b, a]).collect(); for i in 0..N { check!(r[i] == [a[i], b[i], a[i]]); } }
        _ => { let r: [(u8, &u8); N] = zip_all((a, &b)).collect(); for i in 0..N { check!(r[i] == (a[i], &b[i])); } }
    }
}
fn coll<const N: usize>() {
    let a = arr::<N>();
    let mut bad = N; for i in (0..N).rev() { if a[i] >= 200 { bad = i; } }
    cover!(bad < N || N == 0); cover!(bad == N);
    let mut n = 0; let calls = if bad < N { bad + 1 } else { N };
    match pick(4) {
        0 => { let r: Option<[u16; N]> = a.into_static_iter().map(|x| { n += 1; if x < 200 { Some(x as u16 + 1) } else { None } }).collect(); check!(r.is_some() == (bad == N)); check!(n == calls); if let Some(r) = r { for i in 0..N { check!(r[i] == a[i] as u16 + 1); } } }
        1 => { let r: Result<[u16; N], u8> = a.into_static_iter().map(|x| { n += 1; if x < 200 { Ok(x as u16 + 1) } else { Err(x) } }).collect(); check!(n == calls);
               match r { Ok(r) => { check!(bad == N); for i in 0..N { check!(r[i] == a[i] as u16 + 1); } } Err(e) => { check!(bad < N); check!(e == a[bad.min(N - 1)]); } } }
        2 => { // the first of the outer and inner failures decides
               let mut inner = N; for i in (0..N).rev() { if a[i] == 100 { inner = i; } }
               let r: Option<Option<[u8; N]>> = a.into_static_iter().map(|x| if x >= 200 { None } else if x == 100 { Some(None) } else { Some(Some(x)) }).collect();
               match r { None => check!(bad < N && bad < inner), Some(None) => check!(inner < N && inner < bad), Some(Some(r)) => { check!(bad == N && inner == N); check!(r == a); } } }
        _ => { let r: Result<Option<[u8; N]>, u8> = a.into_static_iter().map(|x| if x >= 200 { Err(x) } else { Ok(Some(x)) }).collect(); match r { Ok(r) => { check!(bad == N); check!(r == Some(a)); } Err(e) => { check!(bad < N); check!(e == a[bad.min(N - 1)]); } } }
    }
}
fn boxes<const N: usize>() {
    let (a, b) = (arr::<N>(), arr::<N>());
    let base = live_heap();
    let (x, y) = (a.map(Box::new), b.map(Box::new));
    match pick(6) {
        0 => { let r: [Box<u8>; N] = x.into_static_iter().collect(); for i in 0..N { check!(*r[i] == a[i]); } drop(r); drop(y); }
        1 => { let r: [(Box<u8>, Box<u8>); N] = x.into_static_iter().zip(y).collect(); for i in 0..N { check!(*r[i].0 == a[i] && *r[i].1 == b[i]); } }
        2 => { let r: [[Box<u8>; 2]; N] = zip_all([x, y]).collect(); for i in 0..N { check!(*r[i][0] == a[i] && *r[i][1] == b[i]); } }
        3 => { drop(y); let s = x.into_static_iter().fold(0u32, |acc, v| acc + *v as u32); let mut e = 0; for i in 0..N { e += a[i] as u32; } check!(s == e); }
        4 => { let r: Option<[Box<u8>; N]> = x.into_static_iter().map(Some).collect(); match r { None => check!(false), Some(r) => for i in 0..N { check!(*r[i] == a[i]); } } drop(y); }
        _ => { let r: Result<[(usize, Box<u8>); N], ()> = x.into_static_iter().enumerate().map(Ok).collect(); match r { Err(_) => check!(false), Ok(r) => for i in 0..N { check!(*r[i].1 == a[i]); } } drop(y); }
    }
    check!(live_heap() == base);
}
/// leaving early: nothing is dropped twice or read after its drop
fn early<const N: usize>() {
    let a = arr::<N>(); let x = a.map(Box::new); let k: u8 = any();
    let mut first = N; for i in (0..N).rev() { if a[i] == k { first = i; } }
    match pick(3) {
        0 => check!(x.into_static_iter().any(|v| *v == k) == (first < N)),
        1 => { let r: Option<[Box<u8>; N]> = x.into_static_iter().map(|v| if *v == k { None } else { Some(v) }).collect(); match r { None => check!(first < N), Some(r) => { check!(first == N); for i in 0..N { check!(*r[i] == a[i]); } } } }
        _ => { let r: Result<[Box<u8>; N], Box<u8>> = x.into_static_iter().map(|v| if *v == k { Err(v) } else { Ok(v) }).collect(); match r { Err(e) => { check!(first < N); check!(*e == k); } Ok(r) => { check!(first == N); for i in 0..N { check!(*r[i] == a[i]); } } } }
    }
}
harness! {
    fn c37_q_run0() { run::<0>(); } fn c37_q_run1() { run::<1>(); } fn c37_q_run2() { run::<2>(); } fn c37_q_run3() { run::<3>(); } fn c37_q_run4() { run::<4>(); }
    fn c37_q_coll0() { coll::<0>(); } fn c37_q_coll1() { coll::<1>(); } fn c37_q_coll2() { coll::<2>(); } fn c37_q_coll3() { coll::<3>(); } fn c37_q_coll4() { coll::<4>(); }
    fn c37_qb_box0() { boxes::<0>(); } fn c37_qb_box1() { boxes::<1>(); } fn c37_qb_box2() { boxes::<2>(); } fn c37_qb_box3() { boxes::<3>(); }
    fn c37_qb_early1() { early::<1>(); } fn c37_qb_early2() { early::<2>(); } fn c37_qb_early3() { early::<3>(); } fn c37_t_early4() { early::<4>(); }
}
