//! C27. Bounds: two threads (three with 2 preemptions; 3 or 4 in thorough), every sequentially consistent interleaving of their atomic operations with up to 5 preemptive context switches (6 around a shared value, 4 when the
//! interner grows, 3 in the BigInt histories; more in thorough) plus free switches when a thread ends or spins; each thread performs one or two interner operations; the added values are free.
//! Plain accesses are checked for data races by happens-before over the actual acquire/release orderings. Outcomes that only arise from weaker hardware
//! orderings without a data race are outside the bound.
use crate::vt::*;
use crate::*;
use numeric_ints::BigInt;
use numeric_utils::intern::InternId;
use numeric_utils::Interner;

struct Sh { it: Interner<u8>, v: [u8; 2], op: [usize; 2], id: [usize; 2], base: usize }
fn id(x: usize) -> InternId { InternId::from_usize(x) }
fn body(s: *mut Sh, t: usize) {
    let (it, v, op) = unsafe { (&(*s).it, (*s).v[t], (*s).op[t]) };
    match op {
        0 => { let i = it.add::<u8, u8>(v); check!(*it.get(i.clone()) == v); unsafe { (&raw mut (*s).id[t]).write(i.into_usize()) } }
        1 => { let i = it.add::<u8, u8>(v); check!(*it.get(i.clone()) == v); it.decr(i); }
        2 => it.decr(id(unsafe { (*s).base })),
        3 => it.incr(id(unsafe { (*s).base })),
        _ => { let b = id(unsafe { (*s).base }); it.incr(b.clone()); check!(*it.get(b.clone()) == 9); it.decr(b); }
    }
}
extern "C" fn t0(s: *mut u8) { body(s as *mut Sh, 0) }
extern "C" fn t1(s: *mut u8) { body(s as *mut Sh, 1) }
/// each thread adds a value (and drops it again when its op is 1)
#[inline(always)]
fn adds(it: Interner<u8>, op: [usize; 2], sw: u32) {
    let mut s = Sh { it, v: [any(), any()], op, id: [usize::MAX; 2], base: 0 };
    assume(s.v[0] < 4 && s.v[1] < 4);
    let p = &raw mut s;
    unsafe { vt_switches(sw); vt_spawn(t0, p as *mut u8); vt_spawn(t1, p as *mut u8); vt_join(); }
    let [a, b] = s.id;
    if op[0] == 0 { check!(*s.it.get(id(a)) == s.v[0]); check!(s.it.refcount(id(a)) == 1 + (a == b) as usize); }
    if op[1] == 0 { check!(*s.it.get(id(b)) == s.v[1]); check!(s.it.refcount(id(b)) == 1 + (a == b) as usize); }
    if op == [0, 0] { check!((a == b) == (s.v[0] == s.v[1])); }
    cover!(s.v[0] == s.v[1]); cover!(s.v[0] != s.v[1]);
}
/// one live value (9, held once by the main thread) the threads share
#[inline(always)]
fn shared(op: [usize; 2], val: u8, sw: u32) {
    let it = Interner::<u8>::with_capacity(1);
    let base = it.add::<u8, u8>(9).into_usize();
    let extra = op.iter().filter(|&&o| o == 2).count();
    for _ in 0..extra { it.incr(id(base)); }
    let mut s = Sh { it, v: [val, val], op, id: [usize::MAX; 2], base };
    let p = &raw mut s;
    unsafe { vt_switches(sw); vt_spawn(t0, p as *mut u8); vt_spawn(t1, p as *mut u8); vt_join(); }
    check!(*s.it.get(id(base)) == 9);
    let mut want = 1;
    for t in 0..2 { match op[t] { 0 => { check!(*s.it.get(id(s.id[t])) == val); if val == 9 { check!(s.id[t] == base); want += 1 } } 3 => want += 1, _ => {} } }
    check!(s.it.refcount(id(base)) == want);
}
harness! {
    fn c27_q_add_add() { adds(Interner::with_capacity(1), [0, 0], 5) }
    fn c27_q_add_drop() { adds(Interner::with_capacity(1), [0, 1], 5) }
    fn c27_q_drop_drop() { adds(Interner::with_capacity(1), [1, 1], 5) }
    fn c27_q_grow() { adds(Interner::new(), [0, 0], 4) }
    fn c27_q_grow_drop() { adds(Interner::new(), [0, 1], 4) }
    fn c27_t_add_add() { adds(Interner::with_capacity(1), [0, 0], 7) }
    fn c27_t_add_drop() { adds(Interner::with_capacity(1), [0, 1], 7) }
    fn c27_t_grow() { adds(Interner::new(), [0, 0], 5) }
    fn c27_q_shared_add() { shared([0, 0], 9, 6) }
    fn c27_q_shared_other() { shared([0, 4], 3, 6) }
    fn c27_q_shared_refs() { shared([3, 2], 9, 6) }
    fn c27_q_shared_refs2() { shared([2, 4], 9, 6) }
    fn c27_q_shared_drop() { shared([0, 2], 9, 6) }
    fn c27_q_last_ref() { // the last reference is dropped while the same, or another, value is added
        let it = Interner::<u8>::with_capacity(1);
        let base = it.add::<u8, u8>(1).into_usize();
        let v: u8 = any(); assume(v < 4);
        let mut s = Sh { it, v: [v, v], op: [0, 2], id: [usize::MAX; 2], base };
        let p = &raw mut s;
        unsafe { vt_switches(6); vt_spawn(t0, p as *mut u8); vt_spawn(t1, p as *mut u8); vt_join(); }
        check!(*s.it.get(id(s.id[0])) == v); check!(s.it.refcount(id(s.id[0])) == 1);
        if s.id[0] != base { check!(s.it.refcount(id(base)) == 0) } }
    fn c27_q_three_add() { three([0, 0, 0], 2) }
    fn c27_q_three_mix() { three([0, 1, 2], 2) }
    fn c27_t_three_add() { three([0, 0, 0], 3) }
    fn c27_t_three_mix() { three([0, 1, 2], 4) }
    fn c27_q_bigint() { bigs(3) }
    fn c27_t_bigint() { bigs(4) }
}
/// three threads
#[inline(always)]
fn three(op: [usize; 3], sw: u32) {
    let it = Interner::<u8>::with_capacity(1);
    let base = it.add::<u8, u8>(1).into_usize(); // its reference belongs to a thread with op 2, if there is one
    let v: [u8; 3] = any(); assume(v[0] < 4 && v[1] < 4 && v[2] < 4);
    let mut s = Sh3 { it, v, op, id: [usize::MAX; 3], base };
    let p = &raw mut s;
    unsafe { vt_switches(sw); vt_spawn(h0, p as *mut u8); vt_spawn(h1, p as *mut u8); vt_spawn(h2, p as *mut u8); vt_join(); }
    let held = !op.contains(&2);
    for t in 0..3 { if op[t] == 0 {
        let mut n = (held && s.id[t] == base) as usize;
        for u in 0..3 { if op[u] == 0 && s.id[u] == s.id[t] { n += 1; check!(s.v[u] == s.v[t]); } else if held && !op.contains(&1) && op[u] == 0 { check!(s.v[u] != s.v[t]); } }
        check!(*s.it.get(id(s.id[t])) == s.v[t]); check!(s.it.refcount(id(s.id[t])) == n);
    } }
    if held { check!(*s.it.get(id(base)) == 1); }
}
struct Sh3 { it: Interner<u8>, v: [u8; 3], op: [usize; 3], id: [usize; 3], base: usize }
fn body3(s: *mut Sh3, t: usize) {
    let (it, v, op) = unsafe { (&(*s).it, (*s).v[t], (*s).op[t]) };
    match op {
        0 => { let i = it.add::<u8, u8>(v); check!(*it.get(i.clone()) == v); unsafe { (&raw mut (*s).id[t]).write(i.into_usize()) } }
        1 => { let i = it.add::<u8, u8>(v); check!(*it.get(i.clone()) == v); it.decr(i); }
        _ => it.decr(id(unsafe { (*s).base })),
    }
}
extern "C" fn h0(s: *mut u8) { body3(s as *mut Sh3, 0) }
extern "C" fn h1(s: *mut u8) { body3(s as *mut Sh3, 1) }
extern "C" fn h2(s: *mut u8) { body3(s as *mut Sh3, 2) }
struct Bg { x: [u64; 2], a: BigInt, out: [Option<BigInt>; 2] }
fn big(s: *mut Bg, t: usize) {
    let x = unsafe { (*s).x[t] };
    let b = BigInt::from(x); // interned
    check!(b == x);
    let c = unsafe { (*s).a.clone() };
    check!(c == u64::MAX);
    drop(c);
    unsafe { (&raw mut (*s).out[t]).write(Some(b)) }
}
extern "C" fn b0(s: *mut u8) { big(s as *mut Bg, 0) }
extern "C" fn b1(s: *mut u8) { big(s as *mut Bg, 1) }
#[inline(always)]
fn bigs(sw: u32) {
    let k = pick(2);
    let mut s = Bg { x: [1 << 63, (1 << 63) + k as u64], a: BigInt::from(u64::MAX), out: [None, None] };
    let p = &raw mut s;
    unsafe { vt_switches(sw); vt_spawn(b0, p as *mut u8); vt_spawn(b1, p as *mut u8); vt_join(); }
    for t in 0..2 { check!(matches!(&s.out[t], Some(b) if *b == s.x[t])) }
    check!(s.a == u64::MAX);
    check!((s.out[0] == s.out[1]) == (k == 0));
}
