//! The interface between a harness and whatever runs it: the symbolic executor
//! (`/verif/symex`) or the native replayer (`/verif/runner.c`).
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    pub fn vt_bool() -> bool;
    pub fn vt_u8() -> u8;
    pub fn vt_u16() -> u16;
    pub fn vt_u32() -> u32;
    pub fn vt_u64() -> u64;
    pub fn vt_u128() -> u128;
    pub fn vt_pick(n: u64) -> u64;
    pub fn vt_conc(n: u64) -> u64;
    pub fn vt_hide(x: u128) -> u128;
    pub fn vt_assume(c: bool);
    pub fn vt_assert(c: bool, line: u32);
    pub fn vt_cover(line: u32);
    pub fn vt_cover_if(c: bool, line: u32);
    pub fn vt_panic_ok(c: bool);
    pub fn vt_merge(mode: u32);
    pub fn vt_out(x: u64);
    pub fn vt_alloc(n: usize, a: usize) -> *mut u8;
    pub fn vt_dealloc(p: *mut u8, n: usize, a: usize);
    pub fn vt_live_heap() -> u64;
    pub fn vt_switches(n: u32);
    pub fn vt_spawn(f: extern "C" fn(*mut u8), arg: *mut u8);
    pub fn vt_join();
    pub fn vt_yield();
}

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        vt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        vt_dealloc(p, l.size(), l.align())
    }
}
#[global_allocator]
static G: A = A;

/// A value that is symbolic over its whole type.
pub trait Sym: Sized {
    fn sym() -> Self;
}
macro_rules! sym { ($($t:ty, $u:ty, $f:ident);*) => { $( impl Sym for $t {
    #[inline(always)] fn sym() -> Self { unsafe { $f() as $u as $t } }
} )* } }
sym!(u8,u8,vt_u8; i8,u8,vt_u8; u16,u16,vt_u16; i16,u16,vt_u16; u32,u32,vt_u32; i32,u32,vt_u32;
     u64,u64,vt_u64; i64,u64,vt_u64; usize,u64,vt_u64; isize,u64,vt_u64; u128,u128,vt_u128; i128,u128,vt_u128);
impl Sym for bool {
    #[inline(always)]
    fn sym() -> bool {
        unsafe { vt_bool() }
    }
}
impl<T: Sym, const N: usize> Sym for [T; N] {
    #[inline(always)]
    fn sym() -> Self {
        core::array::from_fn(|_| T::sym())
    }
}

/// The identity, opaque to the compiler, so that it cannot fold code against oracle.
pub trait Hide {
    fn hide(self) -> Self;
}
macro_rules! hide { ($($t:ty)*) => { $( impl Hide for $t {
    #[inline(always)] fn hide(self) -> Self { unsafe { vt_hide(self as u128) as $t } }
} )* } }
hide!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
#[inline(always)]
pub fn any<T: Sym>() -> T {
    T::sym()
}
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { vt_pick(n as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vt_assume(c) }
}
/// From here on a panic is a violation unless `c` holds.
#[inline(always)]
pub fn panic_ok(c: bool) {
    unsafe { vt_panic_ok(c) }
}
/// Allow the executor to join paths (0: never, 1: heap words too, 2: everything).
#[inline(always)]
pub fn merge(m: u32) {
    unsafe { vt_merge(m) }
}
#[inline(always)]
pub fn live_heap() -> u64 {
    unsafe { vt_live_heap() }
}

#[macro_export]
macro_rules! check {
    ($c:expr) => {
        unsafe { $crate::vt::vt_assert($c, line!()) }
    };
}
#[macro_export]
macro_rules! cover {
    ($c:expr) => {
        unsafe { $crate::vt::vt_cover_if($c, line!()) }
    };
    () => {
        unsafe { $crate::vt::vt_cover(line!()) }
    };
}
/// Defines one entry point of the checks.
#[macro_export]
macro_rules! harness {
    ($(fn $n:ident() $b:block)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n() { $b }
    )* };
}
