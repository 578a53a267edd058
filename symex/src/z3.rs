//! The SMT back end: terms are translated to z3 (QF_BV) and decided there.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Z3 {
    c: P,
    cache: HashMap<E, P, Fx>,
    icache: HashMap<E, Option<P>, Fx>,
    int: P,
    isolver: P,
    /// Decide with both encodings and compare (self-check).
    pub cross: bool,
    trace: bool,
    pub by_int: u64,
    sorts: HashMap<u16, P>,
    params: P,
    simple: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<(std::path::PathBuf, u32, u32)>,
    pub wid: usize,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_error));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let simple = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, simple);
            Z3_solver_set_params(c, simple, params);
            let int = Z3_mk_int_sort(c);
            Z3_inc_ref(c, int);
            let isolver = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, isolver);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, k.as_ptr()), 2000);
            Z3_solver_set_params(c, isolver, p2);
            Z3 {
                c,
                icache: HashMap::default(),
                int,
                isolver,
                cross: std::env::var("SYMEX_CROSS").is_ok(),
                by_int: 0,
                trace: std::env::var("SYMEX_SLOW").is_ok(),
                cache: HashMap::default(),
                sorts: HashMap::new(),
                params,
                simple,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                wid: 0,
            }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) };
            Z3_inc_ref(c, s);
            s
        })
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        unsafe {
            if w == 1 {
                return if v != 0 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            }
            let s = self.sort(w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn term(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.cache.contains_key(&x) {
                stack.pop();
                continue;
            }
            let mut ready = true;
            for ch in ar.children(x) {
                if !self.cache.contains_key(&ch) {
                    stack.push(ch);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let p = self.build(ar, x);
            unsafe { Z3_inc_ref(self.c, p) };
            self.cache.insert(x, p);
            stack.pop();
        }
        self.cache[&e]
    }
    /// A width-1 term is a z3 Bool; `bv` gives it as a one-bit vector.
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let p = self.cache[&e];
        if ar.w(e) == 1 {
            unsafe {
                let s = self.k(Z3_mk_bv_sort(self.c, 1));
                let one = self.k(Z3_mk_unsigned_int64(self.c, 1, s));
                let zero = self.k(Z3_mk_unsigned_int64(self.c, 0, s));
                self.k(Z3_mk_ite(self.c, p, one, zero))
            }
        } else {
            p
        }
    }
    fn build(&mut self, ar: &Arena, x: E) -> P {
        use Op::*;
        let c = self.c;
        let w = ar.w(x);
        macro_rules! t {
            ($e:expr) => {
                self.cache[&$e]
            };
        }
        unsafe {
            match ar.op(x) {
                Const(v) => self.num(v, w),
                Sym(i) => {
                    let s = CString::new(format!("v{i}_{w}")).unwrap();
                    let srt = self.sort(w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), srt)
                }
                Add(a, b) => Z3_mk_bvadd(c, t!(a), t!(b)),
                Sub(a, b) => Z3_mk_bvsub(c, t!(a), t!(b)),
                Mul(a, b) => Z3_mk_bvmul(c, t!(a), t!(b)),
                UDiv(a, b) => Z3_mk_bvudiv(c, t!(a), t!(b)),
                SDiv(a, b) => Z3_mk_bvsdiv(c, t!(a), t!(b)),
                URem(a, b) => Z3_mk_bvurem(c, t!(a), t!(b)),
                SRem(a, b) => Z3_mk_bvsrem(c, t!(a), t!(b)),
                And(a, b) if w == 1 => Z3_mk_and(c, 2, [t!(a), t!(b)].as_ptr()),
                Or(a, b) if w == 1 => Z3_mk_or(c, 2, [t!(a), t!(b)].as_ptr()),
                Xor(a, b) if w == 1 => Z3_mk_xor(c, t!(a), t!(b)),
                Not(a) if w == 1 => Z3_mk_not(c, t!(a)),
                And(a, b) => Z3_mk_bvand(c, t!(a), t!(b)),
                Or(a, b) => Z3_mk_bvor(c, t!(a), t!(b)),
                Xor(a, b) => Z3_mk_bvxor(c, t!(a), t!(b)),
                Not(a) => Z3_mk_bvnot(c, t!(a)),
                Shl(a, b) => Z3_mk_bvshl(c, t!(a), t!(b)),
                LShr(a, b) => Z3_mk_bvlshr(c, t!(a), t!(b)),
                AShr(a, b) => Z3_mk_bvashr(c, t!(a), t!(b)),
                ZExt(a) => {
                    let p = self.bv(ar, a);
                    Z3_mk_zero_ext(c, (w - ar.w(a)) as c_uint, p)
                }
                SExt(a) => {
                    let p = self.bv(ar, a);
                    Z3_mk_sign_ext(c, (w - ar.w(a)) as c_uint, p)
                }
                Extract(a, lo) => {
                    let p = self.k(Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, t!(a)));
                    if w == 1 {
                        let s = self.k(Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, p, self.k(Z3_mk_unsigned_int64(c, 1, s)))
                    } else {
                        p
                    }
                }
                Concat(a, b) => {
                    let p = self.bv(ar, a);
                    Z3_inc_ref(c, p);
                    let q = self.bv(ar, b);
                    Z3_mk_concat(c, p, q)
                }
                Eq(a, b) => Z3_mk_eq(c, t!(a), t!(b)),
                Ult(a, b) => Z3_mk_bvult(c, t!(a), t!(b)),
                Ule(a, b) => Z3_mk_bvule(c, t!(a), t!(b)),
                Slt(a, b) => Z3_mk_bvslt(c, t!(a), t!(b)),
                Sle(a, b) => Z3_mk_bvsle(c, t!(a), t!(b)),
                Ite(a, b, d) => Z3_mk_ite(c, t!(a), t!(b), t!(d)),
            }
        }
    }
    /// The same term over the integers (a term of width w is a number in 0..2^w), exactly; None
    /// when it uses an operation without an exact linear counterpart.
    fn iterm(&mut self, ar: &Arena, e: E) -> Option<P> {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.icache.contains_key(&x) {
                stack.pop();
                continue;
            }
            let mut ready = true;
            let mut bad = false;
            for ch in ar.children(x) {
                match self.icache.get(&ch) {
                    None => {
                        stack.push(ch);
                        ready = false;
                    }
                    Some(None) => bad = true,
                    _ => {}
                }
            }
            if bad {
                self.icache.insert(x, None);
                stack.pop();
                continue;
            }
            if !ready {
                continue;
            }
            let p = self.ibuild(ar, x);
            if p.is_none() && self.trace {
                eprintln!("no integer form: {:?} width {} of {:?}", ar.op(x), ar.w(x), ar.children(x).iter().map(|&c| (ar.op(c), ar.w(c))).collect::<Vec<_>>());
            }
            if let Some(p) = p {
                unsafe { Z3_inc_ref(self.c, p) };
            }
            self.icache.insert(x, p);
            stack.pop();
        }
        self.icache[&e]
    }
    /// Keep a term alive (temporaries are only kept until the next call into z3).
    fn k(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    fn idiv(&self, a: P, b: P) -> P {
        unsafe { self.k(Z3_mk_div(self.c, a, b)) }
    }
    fn imod(&self, a: P, b: P) -> P {
        unsafe { self.k(Z3_mk_mod(self.c, a, b)) }
    }
    fn ile(&self, a: P, b: P) -> P {
        unsafe { self.k(Z3_mk_le(self.c, a, b)) }
    }
    fn ilt(&self, a: P, b: P) -> P {
        unsafe { self.k(Z3_mk_lt(self.c, a, b)) }
    }
    fn inum(&self, v: i128) -> P {
        let t = CString::new(v.to_string()).unwrap();
        unsafe { self.k(Z3_mk_numeral(self.c, t.as_ptr(), self.int)) }
    }
    fn ibuild(&mut self, ar: &Arena, x: E) -> Option<P> {
        use Op::*;
        let c = self.c;
        let w = ar.w(x);
        if w > 64 {
            return None;
        }
        let m = mask(w) as i128;
        let t = |e: E| self.icache[&e].unwrap();
        let rg = |e: E| ar.range(e);
        unsafe {
            let ite = |a: P, b: P, d: P| self.k(Z3_mk_ite(c, a, b, d));
            let add = |a: P, b: P| self.k(Z3_mk_add(c, 2, [a, b].as_ptr()));
            let sub = |a: P, b: P| self.k(Z3_mk_sub(c, 2, [a, b].as_ptr()));
            let mul = |a: P, b: P| self.k(Z3_mk_mul(c, 2, [a, b].as_ptr()));
            // reduced modulo 2^w, for a value known to be below k * 2^w
            let signed = |e: E| {
                let we = ar.w(e);
                let half = 1i128 << (we - 1);
                if (rg(e).1 as i128) < half {
                    t(e)
                } else {
                    ite(
                        self.ile(self.inum(half), t(e)),
                        sub(t(e), self.inum(1i128 << we)),
                        t(e),
                    )
                }
            };
            Some(match ar.op(x) {
                Const(v) if w == 1 => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Const(v) => self.inum(v as i128),
                Sym(i) => {
                    let s = CString::new(format!("i{i}_{w}")).unwrap();
                    let srt = if w == 1 { Z3_mk_bool_sort(c) } else { self.int };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), srt)
                }
                And(a, b) if w == 1 => Z3_mk_and(c, 2, [t(a), t(b)].as_ptr()),
                Or(a, b) if w == 1 => Z3_mk_or(c, 2, [t(a), t(b)].as_ptr()),
                Xor(a, b) if w == 1 => Z3_mk_xor(c, t(a), t(b)),
                Not(a) if w == 1 => Z3_mk_not(c, t(a)),
                Ite(a, b, d) => ite(t(a), t(b), t(d)),
                Eq(a, b) => Z3_mk_eq(c, t(a), t(b)),
                Ult(a, b) if ar.w(a) > 1 => self.ilt(t(a), t(b)),
                Ule(a, b) if ar.w(a) > 1 => self.ile(t(a), t(b)),
                Slt(a, b) if ar.w(a) > 1 => self.ilt(signed(a), signed(b)),
                Sle(a, b) if ar.w(a) > 1 => self.ile(signed(a), signed(b)),
                _ if w == 1 && !matches!(ar.op(x), Extract(..)) => return None,
                Add(a, b) => {
                    let s = add(t(a), t(b));
                    if rg(a).1 + rg(b).1 <= m as u128 {
                        s
                    } else {
                        ite(self.ile(s, self.inum(m)), s, sub(s, self.inum(m + 1)))
                    }
                }
                Sub(a, b) => {
                    let s = sub(t(a), t(b));
                    if rg(a).0 >= rg(b).1 {
                        s
                    } else {
                        ite(self.ile(t(b), t(a)), s, add(s, self.inum(m + 1)))
                    }
                }
                Mul(a, b) => {
                    let (a, b) = if ar.cv(a).is_some() { (b, a) } else { (a, b) };
                    ar.cv(b)?;
                    let p = mul(t(a), t(b));
                    match rg(a).1.checked_mul(rg(b).1) {
                        Some(h) if h <= m as u128 => p,
                        _ => self.imod(p, self.inum(m + 1)),
                    }
                }
                UDiv(a, b) if ar.cv(b).is_some_and(|v| v != 0) => self.idiv(t(a), t(b)),
                URem(a, b) if ar.cv(b).is_some_and(|v| v != 0) => self.imod(t(a), t(b)),
                And(a, b) | Or(a, b) | Xor(a, b) => {
                    let (a, b) = if ar.cv(a).is_some() { (b, a) } else { (a, b) };
                    let k = ar.cv(b)?;
                    // the bits of `a` under the mask, run by run
                    let mut parts: Vec<P> = vec![];
                    let mut lo = 0u32;
                    while lo < w as u32 {
                        let rest = k >> lo;
                        if rest == 0 {
                            break;
                        }
                        lo += rest.trailing_zeros();
                        let len = (k >> lo).trailing_ones();
                        if parts.len() == 3 {
                            return None;
                        }
                        let mut p = t(a);
                        if lo > 0 {
                            p = self.idiv(p, self.inum(1i128 << lo));
                        }
                        if rg(a).1 >> lo >> len != 0 {
                            p = self.imod(p, self.inum(1i128 << len));
                        }
                        if lo > 0 {
                            p = mul(p, self.inum(1i128 << lo));
                        }
                        parts.push(p);
                        lo += len;
                    }
                    let mut m = self.inum(0);
                    for p in parts {
                        m = add(m, p);
                    }
                    match ar.op(x) {
                        And(..) => m,
                        Or(..) => add(t(a), sub(self.inum(k as i128), m)),
                        _ => add(t(a), sub(self.inum(k as i128), mul(self.inum(2), m))),
                    }
                }
                Shl(a, b) => {
                    let k = ar.cv(b)?;
                    if k >= w as u128 {
                        return None;
                    }
                    let p = mul(t(a), self.inum(1i128 << k));
                    if rg(a).1 << k <= m as u128 {
                        p
                    } else {
                        self.imod(p, self.inum(m + 1))
                    }
                }
                LShr(a, b) => {
                    let k = ar.cv(b)?;
                    if k >= w as u128 {
                        return None;
                    }
                    self.idiv(t(a), self.inum(1i128 << k))
                }
                Not(a) => sub(self.inum(m), t(a)),
                ZExt(a) => {
                    if ar.w(a) == 1 {
                        ite(t(a), self.inum(1), self.inum(0))
                    } else {
                        t(a)
                    }
                }
                SExt(a) => {
                    let wa = ar.w(a);
                    if wa == 1 {
                        ite(t(a), self.inum(m), self.inum(0))
                    } else {
                        let half = 1i128 << (wa - 1);
                        ite(
                            self.ile(self.inum(half), t(a)),
                            add(t(a), self.inum(m + 1 - (1i128 << wa))),
                            t(a),
                        )
                    }
                }
                Extract(a, lo) => {
                    let mut p = t(a);
                    if lo > 0 {
                        p = self.idiv(p, self.inum(1i128 << lo));
                    }
                    if rg(a).1 >> lo > m as u128 {
                        p = self.imod(p, self.inum(m + 1));
                    }
                    if w == 1 {
                        p = Z3_mk_eq(c, p, self.inum(1));
                    }
                    p
                }
                Concat(a, b) => {
                    let n = |e: E| if ar.w(e) == 1 { ite(t(e), self.inum(1), self.inum(0)) } else { t(e) };
                    add(mul(n(a), self.inum(1i128 << ar.w(b))), n(b))
                }
                _ => return None,
            })
        }
    }
    /// The integer encoding's verdict, if it has one.
    fn check_int(&mut self, ar: &mut Arena, cs: &[E], vars: &[(u32, u16)]) -> Option<Res> {
        let mut ps = vec![];
        for &e in cs {
            ps.push(self.iterm(ar, e)?);
        }
        unsafe {
            let (c, s) = (self.c, self.isolver);
            let mut vs = vec![];
            Z3_solver_push(c, s);
            for &(i, w) in vars {
                let e = ar.sym(i, w);
                let v = self.iterm(ar, e)?;
                vs.push(v);
                if w > 1 {
                    Z3_solver_assert(c, s, self.ile(self.inum(0), v));
                    Z3_solver_assert(c, s, self.ile(v, self.inum(mask(w) as i128)));
                }
            }
            for p in ps {
                Z3_solver_assert(c, s, p);
            }
            let t1 = Instant::now();
            let r = Z3_solver_check(c, s);
            if t1.elapsed().as_secs_f64() > 1.0 {
                if let Ok(d) = std::env::var("SYMEX_SLOW") {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{d}/slow{}_{}.smt2", self.wid, self.queries), format!("{txt}\n(check-sat)\n; {r}\n"));
                }
            }
            let res = match r {
                -1 => Some(Res::Unsat),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (&(i, w), &t) in vars.iter().zip(&vs) {
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, t, true, &mut o);
                        let v = if w == 1 {
                            (Z3_get_bool_value(c, o) == 1) as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap()
                        };
                        out.push((i, v));
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Res::Sat(out))
                }
                _ => None,
            };
            Z3_solver_pop(c, s, 1);
            res
        }
    }
    /// Decide the conjunction.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Res {
        let t0 = Instant::now();
        let mut vars: Vec<(u32, u16)> = vec![];
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut st: Vec<E> = cs.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let Op::Sym(i) = ar.op(x) {
                vars.push((i, ar.w(x)));
            }
            st.extend(ar.children(x));
        }
        let mut ires = None;
        if self.dump.is_none() {
            ires = self.check_int(ar, cs, &vars);
            if !self.cross {
                if let Some(r) = ires {
                    match r {
                        Res::Unsat => self.unsat += 1,
                        _ => self.sat += 1,
                    }
                    self.by_int += 1;
                    self.queries += 1;
                    let dt = t0.elapsed().as_secs_f64();
                    self.time += dt;
                    self.max_time = self.max_time.max(dt);
                    return r;
                }
            }
        }
        let ps: Vec<P> = cs.iter().map(|&e| self.term(ar, e)).collect();
        unsafe {
            let c = self.c;
            let mut fresh = false;
            let mut dumped = None;
            let mut s = self.simple;
            Z3_solver_push(c, s);
            for &p in &ps {
                Z3_solver_assert(c, s, p);
            }
            if let Some((dir, n, every)) = &mut self.dump {
                if *n % *every == 0 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    dumped = Some((dir.clone(), txt));
                }
                *n += 1;
            }
            let t1 = Instant::now();
            let mut r = Z3_solver_check(c, s);
            if t1.elapsed().as_secs_f64() > 1.0 {
                if let Ok(d) = std::env::var("SYMEX_SLOW") {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{d}/bv{}_{}.smt2", self.wid, self.queries), format!("{txt}\n(check-sat)\n; {r} {}\n", ires.is_some()));
                }
            }
            if r == 0 {
                // second attempt with the full bit-vector pipeline
                Z3_solver_pop(c, s, 1);
                let k = CString::new("QF_BV").unwrap();
                s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr()));
                Z3_solver_inc_ref(c, s);
                Z3_solver_set_params(c, s, self.params);
                for &p in &ps {
                    Z3_solver_assert(c, s, p);
                }
                fresh = true;
                r = Z3_solver_check(c, s);
            }
            if let Some((dir, txt)) = dumped {
                let n = ["unsat", "unknown", "sat"][(r + 1) as usize];
                let f = dir.join(format!("q{}_{}.{n}.smt2", self.wid, self.queries));
                let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{txt}\n(check-sat)\n"));
            }
            if let Some(i) = &ires {
                let k = if matches!(i, Res::Unsat) { -1 } else { 1 };
                if r != 0 && k != r {
                    eprintln!("the integer and bit-vector encodings disagree: {k} {r}");
                    std::process::exit(3);
                }
            }
            let decided = if r == 0 { ires } else { None };
            let res = if let Some(i) = decided {
                match i {
                    Res::Unsat => self.unsat += 1,
                    _ => self.sat += 1,
                }
                i
            } else if r == -1 {
                self.unsat += 1;
                Res::Unsat
            } else if r == 1 {
                self.sat += 1;
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for (i, w) in vars {
                    let e = ar.sym(i, w);
                    let t = self.term(ar, e);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(c, m, t, true, &mut o);
                    let v = if w == 1 {
                        (Z3_get_bool_value(c, o) == 1) as u128
                    } else if w <= 64 {
                        let mut v = 0u64;
                        Z3_get_numeral_uint64(c, o, &mut v);
                        v as u128
                    } else {
                        CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse().unwrap()
                    };
                    out.push((i, v));
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(out)
            } else {
                self.unknown += 1;
                Res::Unknown
            };
            if fresh {
                Z3_solver_dec_ref(c, s);
            } else {
                Z3_solver_pop(c, s, 1);
            }
            self.queries += 1;
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            res
        }
    }
}
