//! Minimal binding to libz3 (loaded with dlopen) and the query layer.
use crate::blast;
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::{Duration, Instant};

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type P = *mut c_void;

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: {
                    let n = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { panic!("missing symbol {:?}", n); }
                    std::mem::transmute(p)
                },)* }
            }
        }
    };
}
api! {
    mk_config: fn() -> P;
    mk_context: fn(P) -> P;
    mk_params: fn(P) -> P;
    params_inc_ref: fn(P, P);
    mk_string_symbol: fn(P, *const c_char) -> P;
    mk_int_symbol: fn(P, c_int) -> P;
    params_set_uint: fn(P, P, P, c_uint);
    solver_set_params: fn(P, P, P);
    mk_bv_sort: fn(P, c_uint) -> P;
    mk_bool_sort: fn(P) -> P;
    mk_const: fn(P, P, P) -> P;
    mk_numeral: fn(P, *const c_char, P) -> P;
    mk_unsigned_int64: fn(P, u64, P) -> P;
    mk_eq: fn(P, P, P) -> P;
    mk_not: fn(P, P) -> P;
    mk_ite: fn(P, P, P, P) -> P;
    mk_and: fn(P, c_uint, *const P) -> P;
    mk_or: fn(P, c_uint, *const P) -> P;
    mk_xor: fn(P, P, P) -> P;
    mk_implies: fn(P, P, P) -> P;
    mk_true: fn(P) -> P;
    mk_false: fn(P) -> P;
    mk_bvadd: fn(P, P, P) -> P;
    mk_bvsub: fn(P, P, P) -> P;
    mk_bvmul: fn(P, P, P) -> P;
    mk_bvudiv: fn(P, P, P) -> P;
    mk_bvurem: fn(P, P, P) -> P;
    mk_bvsdiv: fn(P, P, P) -> P;
    mk_bvsrem: fn(P, P, P) -> P;
    mk_bvand: fn(P, P, P) -> P;
    mk_bvor: fn(P, P, P) -> P;
    mk_bvxor: fn(P, P, P) -> P;
    mk_bvshl: fn(P, P, P) -> P;
    mk_bvlshr: fn(P, P, P) -> P;
    mk_bvashr: fn(P, P, P) -> P;
    mk_bvult: fn(P, P, P) -> P;
    mk_bvslt: fn(P, P, P) -> P;
    mk_concat: fn(P, P, P) -> P;
    mk_extract: fn(P, c_uint, c_uint, P) -> P;
    mk_zero_ext: fn(P, c_uint, P) -> P;
    mk_sign_ext: fn(P, c_uint, P) -> P;
    mk_solver_for_logic: fn(P, P) -> P;
    mk_solver: fn(P) -> P;
    solver_inc_ref: fn(P, P);
    solver_dec_ref: fn(P, P);
    solver_assert: fn(P, P, P);
    solver_check_assumptions: fn(P, P, c_uint, *const P) -> c_int;
    solver_get_model: fn(P, P) -> P;
    model_inc_ref: fn(P, P);
    model_dec_ref: fn(P, P);
    model_eval: fn(P, P, P, bool, *mut P) -> bool;
    get_numeral_string: fn(P, P) -> *const c_char;
    mk_fpa_sort_64: fn(P) -> P;
    mk_fpa_sort_32: fn(P) -> P;
    mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    mk_fpa_to_ieee_bv: fn(P, P) -> P;
    mk_fpa_round_nearest_ties_to_even: fn(P) -> P;
    mk_fpa_round_toward_zero: fn(P) -> P;
    mk_fpa_sqrt: fn(P, P, P) -> P;
    mk_fpa_fma: fn(P, P, P, P, P) -> P;
    mk_fpa_add: fn(P, P, P, P) -> P;
    mk_fpa_sub: fn(P, P, P, P) -> P;
    mk_fpa_mul: fn(P, P, P, P) -> P;
    mk_fpa_div: fn(P, P, P, P) -> P;
    mk_fpa_eq: fn(P, P, P) -> P;
    mk_fpa_lt: fn(P, P, P) -> P;
    mk_fpa_is_nan: fn(P, P) -> P;
    mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    mk_fpa_round_to_integral: fn(P, P, P) -> P;
    mk_fpa_round_toward_negative: fn(P) -> P;
    mk_fpa_round_toward_positive: fn(P) -> P;
    mk_fpa_round_nearest_ties_to_away: fn(P) -> P;
}

/// Float operation selectors (`Node::k` of an `Op::Fp` node).
pub mod fpk {
    pub const ADD: u128 = 1;
    pub const SUB: u128 = 2;
    pub const MUL: u128 = 3;
    pub const DIV: u128 = 4;
    pub const EQ: u128 = 5;
    pub const LT: u128 = 6;
    pub const ISNAN: u128 = 7;
    pub const FROM_S: u128 = 8;
    pub const FROM_U: u128 = 9;
    pub const TO_S: u128 = 10;
    pub const TO_U: u128 = 11;
    pub const CVT: u128 = 12;
    pub const FLOOR: u128 = 13;
    pub const CEIL: u128 = 14;
    pub const TRUNC: u128 = 15;
    pub const ROUND: u128 = 16;
    pub const SQRT: u128 = 17;
    pub const FMA: u128 = 18;
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub hard: u64,
    pub abstracted: u64,
    pub hard_kissat: u64,
    pub hard_z3: u64,
    pub time: f64,
}

pub struct Solver {
    api: Api,
    ctx: P,
    solver: P,
    fp: bool,
    bv: HashMap<E, P>,
    bo: HashMap<E, P>,
    lits: HashMap<E, P>,
    nassert: usize,
    unsat_cache: HashMap<Vec<E>, ()>,
    sat_cache: HashMap<Vec<E>, Rc<Model>>,
    pub stats: Stats,
    pub hard_timeout: f64,
    pub quick_ms: u32,
    pub deadline: Instant,
    tmp: String,
    reset_at: usize,
    fresh: bool,
    abs_memo: HashMap<E, E>,
}

impl Solver {
    pub fn new(deadline: Instant) -> Solver {
        unsafe {
            let mut h = std::ptr::null_mut();
            for p in [
                "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
                "libz3.so.4",
                "libz3.so",
            ] {
                let c = CString::new(p).unwrap();
                h = dlopen(c.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                panic!("cannot load libz3");
            }
            let api = Api::load(h);
            let cfg = (api.mk_config)();
            let ctx = (api.mk_context)(cfg);
            let tmp = format!(
                "{}/symex_{}",
                std::env::var("SYMEX_TMP").unwrap_or_else(|_| "/tmp".into()),
                std::process::id()
            );
            let mut s = Solver {
                api,
                ctx,
                solver: std::ptr::null_mut(),
                fp: false,
                bv: HashMap::new(),
                bo: HashMap::new(),
                lits: HashMap::new(),
                nassert: 0,
                unsat_cache: HashMap::new(),
                sat_cache: HashMap::new(),
                stats: Stats::default(),
                hard_timeout: 300.0,
                quick_ms: 1500,
                deadline,
                tmp,
                abs_memo: HashMap::new(),
                fresh: std::env::var("SYMEX_INCR").is_err(),
                reset_at: std::env::var("SYMEX_RESET").ok().map(|x| x.parse().unwrap()).unwrap_or(3000),
            };
            s.reset();
            s
        }
    }
    fn reset(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                (self.api.solver_dec_ref)(self.ctx, self.solver);
            }
            self.fp = FP_USED.load(std::sync::atomic::Ordering::Relaxed);
            let l = CString::new(if self.fp { "QF_BVFP" } else { "QF_BV" }).unwrap();
            let sy = (self.api.mk_string_symbol)(self.ctx, l.as_ptr());
            self.solver = (self.api.mk_solver_for_logic)(self.ctx, sy);
            (self.api.solver_inc_ref)(self.ctx, self.solver);
            let p = (self.api.mk_params)(self.ctx);
            (self.api.params_inc_ref)(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            let ts = (self.api.mk_string_symbol)(self.ctx, t.as_ptr());
            (self.api.params_set_uint)(self.ctx, p, ts, if self.fp { 60_000 } else { self.quick_ms });
            (self.api.solver_set_params)(self.ctx, self.solver, p);
        }
        self.lits.clear();
        self.nassert = 0;
    }
    fn to_bv(&mut self, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = node(e);
        let c = self.ctx;
        let r = unsafe {
            if n.w == 1 && !matches!(n.op, Op::Const | Op::Extract) {
                let b = self.to_bool(e);
                let s = (self.api.mk_bv_sort)(c, 1);
                let one = (self.api.mk_unsigned_int64)(c, 1, s);
                let zero = (self.api.mk_unsigned_int64)(c, 0, s);
                (self.api.mk_ite)(c, b, one, zero)
            } else {
                match n.op {
                    Op::Const => {
                        let s = (self.api.mk_bv_sort)(c, n.w as c_uint);
                        if n.k <= u64::MAX as u128 {
                            (self.api.mk_unsigned_int64)(c, n.k as u64, s)
                        } else {
                            let st = CString::new(n.k.to_string()).unwrap();
                            (self.api.mk_numeral)(c, st.as_ptr(), s)
                        }
                    }
                    Op::Sym => {
                        let s = (self.api.mk_bv_sort)(c, n.w as c_uint);
                        let y = (self.api.mk_int_symbol)(c, n.k as c_int);
                        (self.api.mk_const)(c, y, s)
                    }
                    Op::Ite => {
                        let x = self.to_bool(n.a);
                        let y = self.to_bv(n.b);
                        let z = self.to_bv(n.c);
                        (self.api.mk_ite)(c, x, y, z)
                    }
                    Op::Extract => {
                        let x = self.to_bv(n.a);
                        let lo = n.k as c_uint;
                        (self.api.mk_extract)(c, lo + n.w as c_uint - 1, lo, x)
                    }
                    Op::ZExt => {
                        let x = self.to_bv(n.a);
                        (self.api.mk_zero_ext)(c, (n.w - width(n.a)) as c_uint, x)
                    }
                    Op::SExt => {
                        let x = self.to_bv(n.a);
                        (self.api.mk_sign_ext)(c, (n.w - width(n.a)) as c_uint, x)
                    }
                    Op::Fp => self.fp_bv(n),
                    _ => {
                        let x = self.to_bv(n.a);
                        let y = self.to_bv(n.b);
                        let f = match n.op {
                            Op::Add => self.api.mk_bvadd,
                            Op::Sub => self.api.mk_bvsub,
                            Op::Mul => self.api.mk_bvmul,
                            Op::UDiv => self.api.mk_bvudiv,
                            Op::URem => self.api.mk_bvurem,
                            Op::SDiv => self.api.mk_bvsdiv,
                            Op::SRem => self.api.mk_bvsrem,
                            Op::And => self.api.mk_bvand,
                            Op::Or => self.api.mk_bvor,
                            Op::Xor => self.api.mk_bvxor,
                            Op::Shl => self.api.mk_bvshl,
                            Op::LShr => self.api.mk_bvlshr,
                            Op::AShr => self.api.mk_bvashr,
                            Op::Concat => self.api.mk_concat,
                            _ => unreachable!("{:?}", n),
                        };
                        f(c, x, y)
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    unsafe fn fsort(&mut self, w: u16) -> P {
        if w == 64 {
            (self.api.mk_fpa_sort_64)(self.ctx)
        } else {
            (self.api.mk_fpa_sort_32)(self.ctx)
        }
    }
    unsafe fn to_fp(&mut self, e: E) -> P {
        let w = width(e);
        let x = self.to_bv(e);
        let s = self.fsort(w);
        (self.api.mk_fpa_to_fp_bv)(self.ctx, x, s)
    }
    unsafe fn fp_bv(&mut self, n: Node) -> P {
        let c = self.ctx;
        let rne = (self.api.mk_fpa_round_nearest_ties_to_even)(c);
        let rtz = (self.api.mk_fpa_round_toward_zero)(c);
        let r = match n.k {
            fpk::ADD | fpk::SUB | fpk::MUL | fpk::DIV => {
                let x = self.to_fp(n.a);
                let y = self.to_fp(n.b);
                let f = match n.k {
                    fpk::ADD => self.api.mk_fpa_add,
                    fpk::SUB => self.api.mk_fpa_sub,
                    fpk::MUL => self.api.mk_fpa_mul,
                    _ => self.api.mk_fpa_div,
                };
                f(c, rne, x, y)
            }
            fpk::SQRT => {
                let x = self.to_fp(n.a);
                (self.api.mk_fpa_sqrt)(c, rne, x)
            }
            fpk::FMA => {
                let x = self.to_fp(n.a);
                let y = self.to_fp(n.b);
                let z = self.to_fp(n.c);
                (self.api.mk_fpa_fma)(c, rne, x, y, z)
            }
            fpk::FROM_S => {
                let x = self.to_bv(n.a);
                let s = self.fsort(n.w);
                (self.api.mk_fpa_to_fp_signed)(c, rne, x, s)
            }
            fpk::FROM_U => {
                let x = self.to_bv(n.a);
                let s = self.fsort(n.w);
                (self.api.mk_fpa_to_fp_unsigned)(c, rne, x, s)
            }
            fpk::TO_S => {
                let x = self.to_fp(n.a);
                return (self.api.mk_fpa_to_sbv)(c, rtz, x, n.w as c_uint);
            }
            fpk::TO_U => {
                let x = self.to_fp(n.a);
                return (self.api.mk_fpa_to_ubv)(c, rtz, x, n.w as c_uint);
            }
            fpk::CVT => {
                let x = self.to_fp(n.a);
                let s = self.fsort(n.w);
                (self.api.mk_fpa_to_fp_float)(c, rne, x, s)
            }
            fpk::FLOOR | fpk::CEIL | fpk::TRUNC | fpk::ROUND => {
                let x = self.to_fp(n.a);
                let m = match n.k {
                    fpk::FLOOR => (self.api.mk_fpa_round_toward_negative)(c),
                    fpk::CEIL => (self.api.mk_fpa_round_toward_positive)(c),
                    fpk::TRUNC => rtz,
                    _ => (self.api.mk_fpa_round_nearest_ties_to_away)(c),
                };
                (self.api.mk_fpa_round_to_integral)(c, m, x)
            }
            _ => unreachable!(),
        };
        (self.api.mk_fpa_to_ieee_bv)(c, r)
    }
    fn to_bool(&mut self, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = node(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (self.api.mk_true)(c)
                    } else {
                        (self.api.mk_false)(c)
                    }
                }
                Op::Sym => {
                    let s = (self.api.mk_bool_sort)(c);
                    let y = (self.api.mk_int_symbol)(c, n.k as c_int);
                    (self.api.mk_const)(c, y, s)
                }
                Op::Eq => {
                    if width(n.a) == 1 {
                        let x = self.to_bool(n.a);
                        let y = self.to_bool(n.b);
                        (self.api.mk_eq)(c, x, y)
                    } else {
                        let x = self.to_bv(n.a);
                        let y = self.to_bv(n.b);
                        (self.api.mk_eq)(c, x, y)
                    }
                }
                Op::Ult => {
                    let x = self.to_bv(n.a);
                    let y = self.to_bv(n.b);
                    (self.api.mk_bvult)(c, x, y)
                }
                Op::Slt => {
                    let x = self.to_bv(n.a);
                    let y = self.to_bv(n.b);
                    (self.api.mk_bvslt)(c, x, y)
                }
                Op::And | Op::Mul => {
                    let x = self.to_bool(n.a);
                    let y = self.to_bool(n.b);
                    (self.api.mk_and)(c, 2, [x, y].as_ptr())
                }
                Op::Or => {
                    let x = self.to_bool(n.a);
                    let y = self.to_bool(n.b);
                    (self.api.mk_or)(c, 2, [x, y].as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    if is_const(n.b) == Some(1) {
                        let x = self.to_bool(n.a);
                        (self.api.mk_not)(c, x)
                    } else {
                        let x = self.to_bool(n.a);
                        let y = self.to_bool(n.b);
                        (self.api.mk_xor)(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.to_bool(n.a);
                    let y = self.to_bool(n.b);
                    let z = self.to_bool(n.c);
                    (self.api.mk_ite)(c, x, y, z)
                }
                Op::Fp => match n.k {
                    fpk::EQ | fpk::LT => {
                        let x = self.to_fp(n.a);
                        let y = self.to_fp(n.b);
                        if n.k == fpk::EQ {
                            (self.api.mk_fpa_eq)(c, x, y)
                        } else {
                            (self.api.mk_fpa_lt)(c, x, y)
                        }
                    }
                    fpk::ISNAN => {
                        let x = self.to_fp(n.a);
                        (self.api.mk_fpa_is_nan)(c, x)
                    }
                    _ => unreachable!(),
                },
                Op::Extract => {
                    let x = self.to_bv(e);
                    let s = (self.api.mk_bv_sort)(c, 1);
                    let one = (self.api.mk_unsigned_int64)(c, 1, s);
                    (self.api.mk_eq)(c, x, one)
                }
                _ => {
                    // one-bit shifts, divisions, ...: go through a bit-vector rebuild
                    let x = self.to_bv(n.a);
                    let y = self.to_bv(n.b);
                    let f = match n.op {
                        Op::UDiv => self.api.mk_bvudiv,
                        Op::URem => self.api.mk_bvurem,
                        Op::SDiv => self.api.mk_bvsdiv,
                        Op::SRem => self.api.mk_bvsrem,
                        Op::Shl => self.api.mk_bvshl,
                        Op::LShr => self.api.mk_bvlshr,
                        Op::AShr => self.api.mk_bvashr,
                        _ => panic!("to_bool {:?}", n),
                    };
                    let v = f(c, x, y);
                    let s = (self.api.mk_bv_sort)(c, 1);
                    let one = (self.api.mk_unsigned_int64)(c, 1, s);
                    (self.api.mk_eq)(c, v, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    fn lit(&mut self, e: E) -> P {
        if let Some(&p) = self.lits.get(&e) {
            return p;
        }
        let b = self.to_bool(e);
        unsafe {
            let s = (self.api.mk_bool_sort)(self.ctx);
            let nm = CString::new(format!("L{}_{}", e, self.nassert)).unwrap();
            let y = (self.api.mk_string_symbol)(self.ctx, nm.as_ptr());
            let l = (self.api.mk_const)(self.ctx, y, s);
            let im = (self.api.mk_implies)(self.ctx, l, b);
            (self.api.solver_assert)(self.ctx, self.solver, im);
            self.nassert += 1;
            self.lits.insert(e, l);
            l
        }
    }
    fn get_model(&mut self, cs: &[E]) -> Rc<Model> {
        let mut vals = HashMap::new();
        unsafe {
            let m = (self.api.solver_get_model)(self.ctx, self.solver);
            (self.api.model_inc_ref)(self.ctx, m);
            let mut ss: Vec<u32> = vec![];
            for &c in cs {
                ss.extend(syms(c).iter());
            }
            ss.sort();
            ss.dedup();
            for k in ss {
                let (_, w) = sym_info(k);
                let p = if w == 1 {
                    let s = (self.api.mk_bool_sort)(self.ctx);
                    let y = (self.api.mk_int_symbol)(self.ctx, k as c_int);
                    let b = (self.api.mk_const)(self.ctx, y, s);
                    let bs = (self.api.mk_bv_sort)(self.ctx, 1);
                    let one = (self.api.mk_unsigned_int64)(self.ctx, 1, bs);
                    let zero = (self.api.mk_unsigned_int64)(self.ctx, 0, bs);
                    (self.api.mk_ite)(self.ctx, b, one, zero)
                } else {
                    let s = (self.api.mk_bv_sort)(self.ctx, w as c_uint);
                    let y = (self.api.mk_int_symbol)(self.ctx, k as c_int);
                    (self.api.mk_const)(self.ctx, y, s)
                };
                let mut out: P = std::ptr::null_mut();
                if (self.api.model_eval)(self.ctx, m, p, true, &mut out) {
                    let st = CStr::from_ptr((self.api.get_numeral_string)(self.ctx, out));
                    let v: u128 = st.to_str().unwrap().parse().unwrap_or(0);
                    vals.insert(k, v);
                }
            }
            (self.api.model_dec_ref)(self.ctx, m);
        }
        Model::new(vals)
    }

    fn raw(&mut self, v: &[E]) -> c_int {
        if v.iter().any(|&e| is_const(e) == Some(0)) {
            return -1;
        }
        self.reset();
        for &e in v {
            let b = self.to_bool(e);
            unsafe { (self.api.solver_assert)(self.ctx, self.solver, b) };
        }
        unsafe { (self.api.solver_check_assumptions)(self.ctx, self.solver, 0, std::ptr::null()) }
    }

    /// Look for a model near `base` by trying values; every hit is checked by evaluation.
    fn guess(&mut self, v: &[E], base: &Model) -> Option<Rc<Model>> {
        let mut ss: Vec<u32> = v.iter().flat_map(|&c| syms(c).to_vec()).collect();
        ss.sort();
        ss.dedup();
        let mut x = 0x9e3779b97f4a7c15u64;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for t in 0..400 {
            let mut vals = HashMap::new();
            for &k in &ss {
                let w = sym_info(k).1.min(128) as u32;
                let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
                let old = *base.vals.get(&k).unwrap_or(&0);
                let r = (rnd() as u128) << 64 | rnd() as u128;
                let val = match if t == 0 { 0 } else { rnd() % if w <= 8 { 3 } else { 8 } } {
                    0 | 1 => old,
                    2 | 3 => r,
                    4 | 5 => (r & m) >> (rnd() % w as u64),
                    6 => m - (rnd() % 3) as u128,
                    _ => 1u128 << (rnd() % w as u64),
                };
                vals.insert(k, val & m);
            }
            let m = Model::new(vals);
            if v.iter().all(|&c| m.eval(c) == Some(1)) {
                return Some(m);
            }
        }
        None
    }

    /// Is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, cs: &[E]) -> Res {
        let mut v: Vec<E> = Vec::with_capacity(cs.len());
        for &c in cs {
            match is_const(c) {
                Some(1) => {}
                Some(_) => return Res::Unsat,
                None => v.push(c),
            }
        }
        if v.is_empty() {
            return Res::Sat(Model::new(HashMap::new()));
        }
        v.sort();
        v.dedup();
        if self.unsat_cache.contains_key(&v) {
            self.stats.cached += 1;
            return Res::Unsat;
        }
        if let Some(m) = self.sat_cache.get(&v) {
            self.stats.cached += 1;
            return Res::Sat(m.clone());
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        if self.nassert > self.reset_at || self.fp != FP_USED.load(std::sync::atomic::Ordering::Relaxed) {
            self.reset();
        }
        // wide products: the abstraction first (it can refute), then guesses (they can satisfy)
        let mut early: Option<Res> = None;
        if let Some(a) = abstract_hard(&v, &mut self.abs_memo) {
            if a.iter().any(|&e| syms(e).iter().any(|&k| wide_term(k))) {
                match self.raw(&a) {
                    -1 => {
                        self.stats.abstracted += 1;
                        early = Some(Res::Unsat);
                    }
                    1 => {
                        let m = self.get_model(&a);
                        early = self.guess(&v, &m).map(Res::Sat);
                    }
                    _ => {}
                }
            }
        }
        if let Some(out) = early {
            self.stats.time += t0.elapsed().as_secs_f64();
            match &out {
                Res::Sat(m) => {
                    self.stats.sat += 1;
                    self.sat_cache.insert(v, m.clone());
                }
                _ => {
                    self.stats.unsat += 1;
                    self.unsat_cache.insert(v, ());
                }
            }
            return out;
        }
        let r = if self.fresh {
            self.raw(&v)
        } else {
            let lits: Vec<P> = v.iter().map(|&e| self.lit(e)).collect();
            unsafe { (self.api.solver_check_assumptions)(self.ctx, self.solver, lits.len() as c_uint, lits.as_ptr()) }
        };
        let mut out = match r {
            1 => Res::Sat(self.get_model(&v)),
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        // sanity: a model must satisfy the constraints under our own evaluator
        if let Res::Sat(m) = &out {
            for &c in &v {
                if m.eval(c) == Some(0) {
                    eprintln!("symex: z3 model disagrees with evaluator on constraint {c}");
                    out = Res::Unknown;
                    break;
                }
            }
        }
        if std::env::var("SYMEX_QLOG").is_ok() {
            eprintln!("q {:.4}s r={} n={} nassert={} nodes={}", t0.elapsed().as_secs_f64(), r, v.len(), self.nassert, n_nodes());
        }
        if let Res::Unknown = out {
            self.reset();
            if let Some(a) = abstract_hard(&v, &mut self.abs_memo) {
                if self.raw(&a) == -1 {
                    self.stats.abstracted += 1;
                    out = Res::Unsat;
                }
            }
            if let Res::Unknown = out {
                out = self.hard(&v);
            }
        }
        self.stats.time += t0.elapsed().as_secs_f64();
        match &out {
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.sat_cache.insert(v, m.clone());
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.unsat_cache.insert(v, ());
            }
            _ => {}
        }
        out
    }

    /// Hard query: race a fresh z3 process against bit-blasting + kissat.
    fn hard(&mut self, v: &[E]) -> Res {
        self.stats.hard += 1;
        let left = self.deadline.saturating_duration_since(Instant::now()).as_secs_f64();
        let limit = self.hard_timeout.min(left);
        if limit < 1.0 {
            return Res::Unknown;
        }
        let smt = format!("{}.smt2", self.tmp);
        let cnf = format!("{}.cnf", self.tmp);
        std::fs::write(&smt, blast::smtlib(v)).unwrap();
        let mut procs: Vec<(u8, std::process::Child, String)> = vec![];
        let bl = blast::cnf(v);
        let mut map = None;
        if let Some((text, symbits)) = bl {
            std::fs::write(&cnf, text).unwrap();
            let outp = format!("{}.kout", self.tmp);
            let f = std::fs::File::create(&outp).unwrap();
            if let Ok(ch) = std::process::Command::new("kissat")
                .args(["-q", &format!("--time={}", limit as u64 + 1), &cnf])
                .stdout(f)
                .stderr(std::process::Stdio::null())
                .spawn()
            {
                procs.push((0, ch, outp));
            }
            map = Some(symbits);
        }
        if let Some(a) = abstract_hard(v, &mut self.abs_memo) {
            if let Ok(d) = std::env::var("SYMEX_DUMP") {
                std::fs::write(format!("{d}/abs{}.smt2", self.stats.hard), blast::smtlib(&a)).unwrap();
                std::fs::write(format!("{d}/ex{}.smt2", self.stats.hard), blast::smtlib(v)).unwrap();
            }
            if let Some((text, _)) = blast::cnf(&a) {
                let cnf = format!("{}.acnf", self.tmp);
                std::fs::write(&cnf, text).unwrap();
                let outp = format!("{}.aout", self.tmp);
                let f = std::fs::File::create(&outp).unwrap();
                if let Ok(ch) = std::process::Command::new("kissat")
                    .args(["-q", "--unsat", &format!("--time={}", limit as u64 + 1), &cnf])
                    .stdout(f)
                    .stderr(std::process::Stdio::null())
                    .spawn()
                {
                    procs.push((2, ch, outp));
                }
            }
        }
        let outp = format!("{}.zout", self.tmp);
        let f = std::fs::File::create(&outp).unwrap();
        if let Ok(ch) = std::process::Command::new("z3-new")
            .args([&format!("-T:{}", limit as u64 + 1), &smt])
            .stdout(f)
            .stderr(std::process::Stdio::null())
            .spawn()
        {
            procs.push((1, ch, outp));
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown;
        'outer: while !procs.is_empty() && t0.elapsed().as_secs_f64() < limit {
            std::thread::sleep(Duration::from_millis(5));
            let mut i = 0;
            while i < procs.len() {
                if let Ok(Some(_)) = procs[i].1.try_wait() {
                    let (kind, _, outp) = &procs[i];
                    let text = std::fs::read_to_string(outp).unwrap_or_default();
                    let r = if *kind == 2 {
                        // the abstraction can only show unsatisfiability
                        if text.contains("s UNSATISFIABLE") {
                            self.stats.abstracted += 1;
                            res = Res::Unsat;
                            break 'outer;
                        }
                        None
                    } else if *kind == 0 {
                        blast::parse_kissat(&text, map.as_ref().unwrap())
                    } else if text.contains("(error") {
                        None
                    } else {
                        blast::parse_z3(&text, v)
                    };
                    match r {
                        Some(Some(vals)) => {
                            let m = Model::new(vals);
                            if v.iter().all(|&c| m.eval(c) != Some(0)) {
                                if *kind == 0 {
                                    self.stats.hard_kissat += 1
                                } else {
                                    self.stats.hard_z3 += 1
                                }
                                res = Res::Sat(m);
                                break 'outer;
                            }
                            eprintln!("symex: external model disagrees with evaluator (kind {kind})");
                        }
                        Some(None) => {
                            if *kind == 0 {
                                self.stats.hard_kissat += 1
                            } else {
                                self.stats.hard_z3 += 1
                            }
                            res = Res::Unsat;
                            break 'outer;
                        }
                        None => {}
                    }
                    procs.remove(i);
                } else {
                    i += 1;
                }
            }
        }
        for (_, mut ch, _) in procs {
            let _ = ch.kill();
            let _ = ch.wait();
        }
        for x in ["smt2", "cnf", "acnf", "aout", "kout", "zout"] {
            let _ = std::fs::remove_file(format!("{}.{}", self.tmp, x));
        }
        res
    }
}
