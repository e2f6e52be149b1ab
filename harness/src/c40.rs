//! C40. Bounds: one thread: up to 5 pushes of free values; two threads of up to two operations each with up to 6 preemptive switches (10 in thorough; 4 to 7 for the longer ones), three threads with 2 to 4 (6), over every
//! sequentially consistent interleaving of their atomic operations; the pushed values are free. Plain accesses are checked for data races by happens-before over the actual orderings.
use crate::vt::*;
use crate::*;
use numeric_utils::linked::UnsyncLinked;

/// the list holds exactly these values, by every way of looking at it
fn holds(l: &UnsyncLinked<Box<u8>>, w: &[u8]) {
    check!(l.len() == w.len()); check!(l.is_empty() == w.is_empty());
    let mut it = l.iter();
    for (i, &v) in w.iter().enumerate() { check!(l.get(i).is_some_and(|x| **x == v)); check!(*l[i] == v); check!(it.next().is_some_and(|x| **x == v)); }
    check!(it.next().is_none()); check!(l.get(w.len()).is_none()); check!(l.get(w.len() + 1 + pick(2)).is_none());
}
struct Sh { l: UnsyncLinked<Box<u8>>, v: [u8; 6], op: [u8; 3], at: [usize; 6], base: usize }
/// ops: 0 push, 1 push twice, 2 look at the list, 3 ask its length
fn body(s: *mut Sh, t: usize) {
    let (l, v, op, base) = unsafe { (&(*s).l, (*s).v, (*s).op[t], (*s).base) };
    let at = unsafe { &raw mut (*s).at as *mut usize };
    match op {
        0 | 1 => for k in 0..1 + op as usize {
            let n = l.push(Box::new(v[2 * t + k]));
            check!(n > base); check!(*l[n - 1] == v[2 * t + k]); check!(!l.is_empty());
            unsafe { at.add(2 * t + k).write(n) }
        },
        2 => { let mut n = 0; for x in l.iter() { check!(**x < 100); n += 1; } check!(n >= base); for i in 0..n { check!(l.get(i).is_some()); } }
        _ => { let n = l.len(); check!(n >= base); check!(n == 0 || l.get(n - 1).is_some()); let m = l.len(); check!(m >= n); check!(l.is_empty() == false || n == 0); }
    }
}
extern "C" fn t0(s: *mut u8) { body(s as *mut Sh, 0) }
extern "C" fn t1(s: *mut u8) { body(s as *mut Sh, 1) }
extern "C" fn t2(s: *mut u8) { body(s as *mut Sh, 2) }
#[inline(always)]
fn run(n: usize, op: [u8; 3], base: usize, sw: u32) {
    let l0 = live_heap();
    {
        let l = UnsyncLinked::new();
        for i in 0..base { check!(l.push(Box::new(50 + i as u8)) == i + 1); }
        let v: [u8; 6] = [any(), any(), any(), any(), any(), any()]; for x in v { assume(x < 100); }
        let mut s = Sh { l, v, op, at: [0; 6], base };
        let p = &raw mut s;
        unsafe { vt_switches(sw); vt_spawn(t0, p as *mut u8); vt_spawn(t1, p as *mut u8); if n > 2 { vt_spawn(t2, p as *mut u8); } vt_join(); }
        let mut total = base;
        for t in 0..n { if op[t] < 2 { total += 1 + op[t] as usize; } }
        // every push returned a length of its own, and its value is at that place; one thread's pushes are in order
        let mut seen = [false; 8];
        for t in 0..n { for k in 0..2 { let a = s.at[2 * t + k]; if op[t] < 2 && k <= op[t] as usize { check!(a > base && a <= total && !seen[a]); seen[a] = true; check!(**s.l.get(a - 1).unwrap() == s.v[2 * t + k]); } }
            if op[t] == 1 { check!(s.at[2 * t] < s.at[2 * t + 1]); } }
        check!(s.l.len() == total); check!(s.l.get(total).is_none());
        for i in 0..base { check!(*s.l[i] == 50 + i as u8); }
        // any value is in the list as often as it was pushed
        if sw > 5 {
            let x: u8 = any(); let (mut have, mut want) = (0, 0);
            for y in s.l.iter() { have += (**y == x) as u32; }
            for i in 0..base { want += (50 + i as u8 == x) as u32; }
            for t in 0..n { for k in 0..2 { if op[t] < 2 && k <= op[t] as usize { want += (s.v[2 * t + k] == x) as u32; } } }
            check!(have == want);
        }
    }
    check!(live_heap() == l0);
}
harness! {
    fn c40_q_seq() { let l0 = live_heap(); {
        let l = UnsyncLinked::new(); let v: [u8; 5] = [any(), any(), any(), any(), any()]; let n = pick(6);
        holds(&l, &[]);
        for i in 0..n { check!(l.push(Box::new(v[i])) == i + 1); }
        holds(&l, &v[..n]);
    } check!(live_heap() == l0); }
    fn c40_q_push_push() { run(2, [0, 0, 0], 0, 6) }
    fn c40_q_push_push1() { run(2, [0, 0, 0], 1, 6) }
    fn c40_q_twice() { run(2, [1, 1, 0], 0, 4) }
    fn c40_q_twice1() { run(2, [1, 0, 0], 2, 4) }
    fn c40_q_look() { run(2, [0, 2, 0], 0, 6) }
    fn c40_q_look1() { run(2, [1, 2, 0], 1, 4) }
    fn c40_q_len() { run(2, [0, 3, 0], 0, 6) }
    fn c40_q_len1() { run(2, [1, 3, 0], 1, 4) }
    fn c40_q_three() { run(3, [0, 0, 0], 0, 4) }
    fn c40_q_three_len() { run(3, [0, 0, 3], 0, 2) }
    fn c40_t_push_push() { run(2, [0, 0, 0], 0, 10) }
    fn c40_t_twice() { run(2, [1, 1, 0], 0, 6) }
    fn c40_t_look() { run(2, [1, 2, 0], 1, 7) }
    fn c40_t_three() { run(3, [0, 0, 0], 0, 6) }
    fn c40_t_three1() { run(3, [0, 0, 2], 1, 4) }
}
