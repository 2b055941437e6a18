//! The SMT back end: z3 through its C API, one incremental solver per process.

use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("wsym: z3 API error {e}");
    std::process::abort();
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}")
}

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    /// bit-vector form of each node (1-bit nodes are booleans in `boolz`)
    ast: Vec<P>,
    bv: Vec<P>,
    cache: FxMap<Vec<N>, Answer>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub ns: u64,
    pub dump: Option<std::fs::File>,
    /// report queries that take longer (ms; 0: none)
    pub slow: u64,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let ctx = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(ctx, Some(on_error));
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, c"QF_BV".as_ptr()));
            Z3_solver_inc_ref(ctx, s);
            if rlimit > 0 {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, c"rlimit".as_ptr()), rlimit);
                Z3_solver_set_params(ctx, s, p);
            }
            Solver { ctx, s, ast: vec![], bv: vec![], cache: Default::default(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, ns: 0, dump: None, slow: 0 }
        }
    }

    unsafe fn keep(&mut self, slot: bool, n: N, a: P) -> P {
        Z3_inc_ref(self.ctx, a);
        if slot {
            self.bv[n as usize] = a;
        } else {
            self.ast[n as usize] = a;
        }
        a
    }

    /// Translate to z3; 1-bit nodes become booleans.
    fn tr(&mut self, p: &Pool, n: N) -> P {
        if self.ast.len() < p.nodes.len() {
            self.ast.resize(p.nodes.len(), std::ptr::null_mut());
            self.bv.resize(p.nodes.len(), std::ptr::null_mut());
        }
        if !self.ast[n as usize].is_null() {
            return self.ast[n as usize];
        }
        let mut todo = vec![n];
        while let Some(&t) = todo.last() {
            if !self.ast[t as usize].is_null() {
                todo.pop();
                continue;
            }
            let x = p.nodes[t as usize];
            let mut ready = true;
            for c in [x.a, x.b, x.c] {
                if c != 0 && self.ast[c as usize].is_null() {
                    todo.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = unsafe { self.tr1(p, t, &x) };
            unsafe { self.keep(false, t, r) };
            todo.pop();
        }
        self.ast[n as usize]
    }

    /// The node as a bit-vector even if it is 1 bit wide.
    unsafe fn as_bv(&mut self, p: &Pool, n: N) -> P {
        let a = self.ast[n as usize];
        if p.w(n) != 1 {
            return a;
        }
        if !self.bv[n as usize].is_null() {
            return self.bv[n as usize];
        }
        let s = Z3_mk_bv_sort(self.ctx, 1);
        let r = Z3_mk_ite(self.ctx, a, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s));
        self.keep(true, n, r)
    }

    unsafe fn tr1(&mut self, p: &Pool, _t: N, x: &Node) -> P {
        let c = self.ctx;
        let sort = Z3_mk_bv_sort(c, x.w as c_uint);
        let num = |v: u64, w: u8| Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w as c_uint));
        let boolean = x.w == 1;
        let to_bool = |a: P| Z3_mk_eq(c, a, num(1, 1));
        match x.op {
            Op::Nil | Op::Var | Op::Const if x.op != Op::Const => {
                if x.op == Op::Nil {
                    unreachable!();
                }
                let name = format!("v{}\0", x.k);
                let sy = Z3_mk_string_symbol(c, name.as_ptr() as *const c_char);
                Z3_mk_const(c, sy, sort)
            }
            Op::Const => {
                let v = num(x.k, x.w);
                if boolean {
                    to_bool(v)
                } else {
                    v
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (self.as_bv(p, x.a), self.as_bv(p, x.b));
                match x.op {
                    Op::Eq => Z3_mk_eq(c, a, b),
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::Ite => {
                let (q, a, b) = (self.ast[x.a as usize], self.ast[x.b as usize], self.ast[x.c as usize]);
                Z3_mk_ite(c, q, a, b)
            }
            Op::Not if boolean => Z3_mk_not(c, self.ast[x.a as usize]),
            Op::And | Op::Or if boolean => {
                let v = [self.ast[x.a as usize], self.ast[x.b as usize]];
                if x.op == Op::And {
                    Z3_mk_and(c, 2, v.as_ptr())
                } else {
                    Z3_mk_or(c, 2, v.as_ptr())
                }
            }
            Op::Tbl => {
                // union of ranges per distinct value
                let t = p.tables[x.k as usize].clone();
                let v = self.ast[x.a as usize];
                let mut runs: Vec<(u64, u64, u64)> = vec![];
                for i in 0..256u64 {
                    match runs.last_mut() {
                        Some(r) if r.2 == t[i as usize] => r.1 = i,
                        _ => runs.push((i, i, t[i as usize])),
                    }
                }
                let mut by_val: Vec<(u64, Vec<P>, usize)> = vec![];
                for (lo, hi, val) in &runs {
                    let cond = if lo == hi {
                        Z3_mk_eq(c, v, num(*lo, 8))
                    } else {
                        let (l, h) = (Z3_mk_bvule(c, num(*lo, 8), v), Z3_mk_bvule(c, v, num(*hi, 8)));
                        let k = [l, h];
                        match (*lo, *hi) {
                            (0, _) => h,
                            (_, 255) => l,
                            _ => Z3_mk_and(c, 2, k.as_ptr()),
                        }
                    };
                    match by_val.iter_mut().find(|e| e.0 == *val) {
                        Some(e) => e.1.push(cond),
                        None => by_val.push((*val, vec![cond], 0)),
                    }
                }
                // most frequent value is the default
                by_val.sort_by_key(|e| e.1.len());
                let last = by_val.pop().unwrap();
                if boolean && by_val.len() == 1 {
                    let conds = &by_val[0].1;
                    let o = if conds.len() == 1 { conds[0] } else { Z3_mk_or(c, conds.len() as c_uint, conds.as_ptr()) };
                    return if by_val[0].0 == 1 { o } else { Z3_mk_not(c, o) };
                }
                let mut r = num(last.0, x.w);
                for (val, conds, _) in by_val {
                    let o = if conds.len() == 1 { conds[0] } else { Z3_mk_or(c, conds.len() as c_uint, conds.as_ptr()) };
                    r = Z3_mk_ite(c, o, num(val, x.w), r);
                }
                if boolean {
                    to_bool(r)
                } else {
                    r
                }
            }
            Op::Clz | Op::Ctz | Op::Popcnt => {
                let a = self.as_bv(p, x.a);
                let w = x.w;
                let bit = |i: u8| Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, a), num(1, 1));
                let mut r;
                if x.op == Op::Popcnt {
                    r = num(0, w);
                    for i in 0..w {
                        let e = Z3_mk_zero_ext(c, (w - 1) as c_uint, Z3_mk_extract(c, i as c_uint, i as c_uint, a));
                        r = Z3_mk_bvadd(c, r, e);
                    }
                } else {
                    r = num(w as u64, w);
                    for j in 0..w {
                        // innermost test last: build from least to most significant priority
                        let i = if x.op == Op::Ctz { w - 1 - j } else { j };
                        let v = if x.op == Op::Ctz { i } else { w - 1 - i };
                        r = Z3_mk_ite(c, bit(i), num(v as u64, w), r);
                    }
                }
                r
            }
            _ => {
                let a = self.as_bv(p, x.a);
                let b = if x.b != 0 { self.as_bv(p, x.b) } else { std::ptr::null_mut() };
                let r = match x.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Not => Z3_mk_bvnot(c, a),
                    Op::Extract => Z3_mk_extract(c, (x.k + x.w as u64 - 1) as c_uint, x.k as c_uint, a),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    Op::ZExt => Z3_mk_zero_ext(c, (x.w - p.w(x.a)) as c_uint, a),
                    Op::SExt => Z3_mk_sign_ext(c, (x.w - p.w(x.a)) as c_uint, a),
                    _ => unreachable!("{:?}", x.op),
                };
                if boolean {
                    to_bool(r)
                } else {
                    r
                }
            }
        }
    }

    /// Is the conjunction satisfiable? `cons` is sorted and de-duplicated here.
    pub fn check(&mut self, p: &mut Pool, mut cons: Vec<N>) -> Answer {
        cons.sort_unstable();
        cons.dedup();
        if let Some(a) = self.cache.get(&cons) {
            self.cache_hits += 1;
            return a.clone();
        }
        let t0 = std::time::Instant::now();
        let asts: Vec<P> = cons.iter().map(|n| self.tr(p, *n)).collect();
        let mut supp = [0; 4];
        for n in &cons {
            supp = set_or(&supp, p.support(*n));
        }
        let vars: Vec<(usize, N)> = set_iter(&supp).map(|v| (v, p.var(v))).collect();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for a in &asts {
                Z3_solver_assert(self.ctx, self.s, *a);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for (v, n) in vars {
                        let a = self.tr(p, n);
                        let mut val: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        assert!(Z3_model_eval(self.ctx, m, a, true, &mut val));
                        Z3_inc_ref(self.ctx, val);
                        assert!(Z3_get_numeral_uint64(self.ctx, val, &mut u));
                        out.push((v, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Answer::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => Answer::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            ans
        };
        self.queries += 1;
        self.ns += t0.elapsed().as_nanos() as u64;
        if self.slow > 0 && t0.elapsed().as_millis() as u64 > self.slow {
            let c: Vec<String> = cons.iter().map(|n| format!("cost {} vars {} {}", p.cost[*n as usize], set_count(p.support(*n)), p.show(*n, 3))).collect();
            eprintln!("[slow query] {:?} sat={} {:#?}", t0.elapsed(), matches!(r, Answer::Sat(_)), c);
        }
        if self.dump.is_some() && !matches!(r, Answer::Unknown) {
            self.dump_query(p, &asts, &supp, matches!(r, Answer::Sat(_)));
        }
        self.cache.insert(cons, r.clone());
        r
    }

    /// Write the query in SMT-LIB form, for re-deciding it with a second solver.
    fn dump_query(&mut self, _p: &Pool, asts: &[P], supp: &Set, sat: bool) {
        use std::io::Write;
        let mut s = String::new();
        s += "(reset)\n(set-logic QF_BV)\n";
        s += &format!("(set-info :status {})\n", if sat { "sat" } else { "unsat" });
        for v in set_iter(supp) {
            s += &format!("(declare-const v{v} (_ BitVec 8))\n");
        }
        for a in asts {
            let t = unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, *a)) };
            s += &format!("(assert {})\n", t.to_string_lossy());
        }
        s += "(check-sat)\n";
        let _ = self.dump.as_mut().unwrap().write_all(s.as_bytes());
    }
}
