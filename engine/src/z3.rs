//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {m:?}");
    }
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    bv: FxMap<Ex, usize>,
    bo: FxMap<Ex, usize>,
    pub queries: u64,
    pub nanos: u64,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

impl Z3 {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = if std::env::var("SYMX_SIMPLE").is_ok() {
                Z3_mk_simple_solver(c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: FxMap::default(), bo: FxMap::default(), queries: 0, nanos: 0 }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn num(&self, k: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if k <= u64::MAX as u128 {
                self.keep(Z3_mk_unsigned_int64(self.c, k as u64, self.keep(s)))
            } else {
                let t = CString::new(k.to_string()).unwrap();
                self.keep(Z3_mk_numeral(self.c, t.as_ptr(), self.keep(s)))
            }
        }
    }
    pub fn boolean(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p as P;
        }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::InSet => {
                    let v = self.var(n.a);
                    let s = ar.sets[n.b as usize];
                    self.in_set(v, &s)
                }
                Op::Not => {
                    let a = self.boolean(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let x = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, x.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, x.as_ptr())
                    }
                }
                Op::Xor => {
                    let (x, y) = (self.boolean(ar, n.a), self.boolean(ar, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(ar, n.a), self.boolean(ar, n.b), self.boolean(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                _ => {
                    let x = self.bv_raw(ar, e);
                    let x = self.keep(x);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(r);
        self.bo.insert(e, r as usize);
        r
    }
    /// Membership of a byte in a set: by intervals if there are few, else by its bits (a decision diagram).
    fn in_set(&mut self, v: P, s: &[u64; 4]) -> P {
        let c = self.c;
        let has = |i: usize| i < 256 && (s[i >> 6] >> (i & 63)) & 1 == 1;
        let runs = (0..256).filter(|i| has(*i) && !has(*i + 1)).count();
        unsafe {
            if runs > 4 {
                let t: Vec<bool> = (0..256).map(has).collect();
                let bits: Vec<P> = (0..8)
                    .map(|i| {
                        let x = self.keep(Z3_mk_extract(c, i, i, v));
                        let one = self.num(1, 1);
                        self.keep(Z3_mk_eq(c, x, one))
                    })
                    .collect();
                let mut memo = std::collections::HashMap::new();
                return self.diagram(&t, &bits, &mut memo);
            }
            let mut ds = vec![];
            let mut i = 0;
            while i < 256 {
                if has(i) {
                    let mut j = i;
                    while has(j + 1) {
                        j += 1;
                    }
                    let lo = self.num(i as u128, 8);
                    let hi = self.num(j as u128, 8);
                    ds.push(if i == j {
                        self.keep(Z3_mk_eq(c, v, lo))
                    } else if i == 0 {
                        self.keep(Z3_mk_bvule(c, v, hi))
                    } else if j == 255 {
                        self.keep(Z3_mk_bvule(c, lo, v))
                    } else {
                        let x = [self.keep(Z3_mk_bvule(c, lo, v)), self.keep(Z3_mk_bvule(c, v, hi))];
                        self.keep(Z3_mk_and(c, 2, x.as_ptr()))
                    });
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            self.keep(Z3_mk_or(c, ds.len() as c_uint, ds.as_ptr()))
        }
    }
    fn diagram(&self, t: &[bool], bits: &[P], memo: &mut std::collections::HashMap<Vec<bool>, usize>) -> P {
        let c = self.c;
        unsafe {
            if t.iter().all(|x| *x) {
                return self.keep(Z3_mk_true(c));
            }
            if t.iter().all(|x| !*x) {
                return self.keep(Z3_mk_false(c));
            }
            let h = t.len() / 2;
            if t[..h] == t[h..] {
                return self.diagram(&t[..h], bits, memo);
            }
            if let Some(p) = memo.get(t) {
                return *p as P;
            }
            let bit = bits[h.trailing_zeros() as usize];
            let lo = self.diagram(&t[..h], bits, memo);
            let hi = self.diagram(&t[h..], bits, memo);
            let r = self.keep(Z3_mk_ite(c, bit, hi, lo));
            memo.insert(t.to_vec(), r as usize);
            r
        }
    }
    fn var(&mut self, i: u32) -> P {
        unsafe {
            let n = CString::new(format!("b{i}")).unwrap();
            self.keep(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8)))
        }
    }
    fn bv(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p as P;
        }
        let n = ar.n(e);
        let boolish = n.w == 1
            && matches!(
                n.op,
                Op::InSet | Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle
            );
        let r = if boolish {
            let b = self.boolean(ar, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.c, b, o, z) }
        } else {
            self.bv_raw(ar, e)
        };
        self.keep(r);
        self.bv.insert(e, r as usize);
        r
    }
    fn bv_raw(&mut self, ar: &Arena, e: Ex) -> P {
        let n = ar.n(e);
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => self.var(n.a),
                Op::Not => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.b + n.w as c_uint - 1, n.b, a)
                }
                Op::ZExt => {
                    let d = n.w - ar.w(n.a);
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, d as c_uint, a)
                }
                Op::SExt => {
                    let d = n.w - ar.w(n.a);
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, d as c_uint, a)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(ar, n.a), self.bv(ar, n.b), self.bv(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!("{:?}", n.op),
                    }
                }
            }
        }
    }
    /// Check the conjunction; on sat return values for `vars`.
    pub fn check(&mut self, ar: &Arena, conj: &[Ex], vars: u128) -> Res {
        let t = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in conj {
                let b = self.boolean(ar, e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..128u32 {
                        if (vars >> i) & 1 == 1 {
                            let v = self.var(i);
                            let mut o: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.c, m, v, true, &mut o));
                            let mut x = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, o, &mut x));
                            out.push((i, x as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.queries += 1;
        if std::env::var("SYMX_SLOW").is_ok() && t.elapsed().as_micros() > 3000 {
            let d: Vec<String> = conj.iter().map(|e| ar.show(*e, 14)).collect();
            eprintln!("slow {:?}\n   {}", t.elapsed(), d.join("\n   "));
        }
        self.nanos += t.elapsed().as_nanos() as u64;
        r
    }
}
