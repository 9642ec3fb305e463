//! Satisfiability of conjunctions of width-1 expressions, decided by z3 through its C interface.
use crate::expr::{self, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(cfg: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, k: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(3);
}

pub enum Answer {
    Sat(Vec<u128>),
    Unsat,
}

pub struct Solver {
    c: P,
    s: P,
    ast: HashMap<E, P>,
    bools: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Vec<(usize, u128)>>>,
    pub queries: u64,
    pub cached: u64,
    pub enumerated: u64,
    pub simplified: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub dump: Option<String>,
    pub dumped: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Solver {
                c,
                s,
                ast: HashMap::new(),
                bools: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cached: 0,
                enumerated: 0,
                simplified: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                dump: std::env::var("SYMEXEC_DUMP").ok(),
                dumped: 0,
            }
        }
    }
    fn bv1(&self, b: P) -> P {
        // comparison results are width-1 bit-vectors
        unsafe {
            Z3_inc_ref(self.c, b);
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_inc_ref(self.c, s);
            let one = Z3_mk_numeral(self.c, c"1".as_ptr(), s);
            Z3_inc_ref(self.c, one);
            let zero = Z3_mk_numeral(self.c, c"0".as_ptr(), s);
            Z3_inc_ref(self.c, zero);
            Z3_mk_ite(self.c, b, one, zero)
        }
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let p = self.boolean_of(e);
        unsafe { Z3_inc_ref(self.c, p) };
        self.bools.insert(e, p);
        p
    }
    fn boolean_of(&mut self, e: E) -> P {
        let x = expr::n(e);
        unsafe {
            match x.op {
                Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (self.boolean(x.a), self.boolean(x.b));
                    match x.op {
                        Op::And => Z3_mk_and(self.c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(self.c, 2, [a, b].as_ptr()),
                        _ if expr::as_const(x.b) == Some(1) => Z3_mk_not(self.c, a),
                        _ if expr::as_const(x.a) == Some(1) => Z3_mk_not(self.c, b),
                        _ => Z3_mk_xor(self.c, a, b),
                    }
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(x.a), self.boolean(x.b), self.boolean(x.c));
                    Z3_mk_ite(self.c, i, a, b)
                }
                Op::Const => {
                    if x.k == 1 {
                        Z3_mk_true(self.c)
                    } else {
                        Z3_mk_false(self.c)
                    }
                }
                Op::Eq => {
                    let (a, b) = (self.term(x.a), self.term(x.b));
                    Z3_mk_eq(self.c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.term(x.a), self.term(x.b));
                    Z3_mk_bvult(self.c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.term(x.a), self.term(x.b));
                    Z3_mk_bvslt(self.c, a, b)
                }
                _ => {
                    let t = self.term(e);
                    let s = Z3_mk_bv_sort(self.c, 1);
                    Z3_inc_ref(self.c, s);
                    let one = Z3_mk_numeral(self.c, c"1".as_ptr(), s);
                    Z3_inc_ref(self.c, one);
                    Z3_mk_eq(self.c, t, one)
                }
            }
        }
    }
    fn term(&mut self, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) {
            return p;
        }
        let x = expr::n(e);
        let c = self.c;
        unsafe {
            let r = match x.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, x.w as c_uint);
                    Z3_inc_ref(c, s);
                    Z3_mk_numeral(c, CString::new(x.k.to_string()).unwrap().as_ptr(), s)
                }
                Op::Sym => {
                    let s = Z3_mk_bv_sort(c, x.w as c_uint);
                    Z3_inc_ref(c, s);
                    let name = Z3_mk_string_symbol(c, CString::new(format!("s{}_{}", x.k, x.w)).unwrap().as_ptr());
                    Z3_mk_const(c, name, s)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.boolean(e);
                    self.bv1(b)
                }
                Op::And | Op::Or | Op::Xor if x.w == 1 => {
                    let b = self.boolean(e);
                    self.bv1(b)
                }
                Op::Ite => {
                    let i = self.boolean(x.a);
                    Z3_inc_ref(c, i);
                    let (a, b) = (self.term(x.b), self.term(x.c));
                    Z3_mk_ite(c, i, a, b)
                }
                Op::Extract => {
                    let a = self.term(x.a);
                    Z3_mk_extract(c, (x.k as u32 + x.w as u32 - 1) as c_uint, x.k as c_uint, a)
                }
                Op::SExt => {
                    let a = self.term(x.a);
                    Z3_mk_sign_ext(c, (x.w - expr::width(x.a)) as c_uint, a)
                }
                op => {
                    let (a, b) = (self.term(x.a), self.term(x.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            Z3_inc_ref(c, r);
            self.ast.insert(e, r);
            r
        }
    }

    /// Is `pc /\ extra` satisfiable? `pc` itself is (with `model`), so only the constraints connected to
    /// `extra` through shared symbols matter. Returns a model of all of it.
    /// As `check`, for a branch: a slice over a handful of bits is decided by evaluating all of its assignments.
    pub fn feasible(&mut self, pc: &[E], extra: &[E], bound: u128, model: &[u128]) -> Answer {
        self.decide(pc, extra, bound, model, 10)
    }
    pub fn check(&mut self, pc: &[E], extra: &[E], bound: u128, model: &[u128]) -> Answer {
        self.decide(pc, extra, bound, model, 0)
    }
    fn decide(&mut self, pc: &[E], extra: &[E], bound: u128, model: &[u128], small: u32) -> Answer {
        // symbols whose value `pc` determines are replaced by it
        let mut vars = 0u128;
        let mut set: Vec<E> = vec![];
        let mut facts = None;
        for &orig in extra {
            let mut e = expr::subst(orig, bound, model);
            if expr::as_const(e).is_none() {
                let v = expr::vars(e);
                let f = facts.get_or_insert_with(|| {
                    expr::facts(pc.iter().map(|&p| expr::subst(p, bound, model)).filter(|&p| expr::vars(p) & v != 0))
                });
                e = expr::given(e, f, &mut HashMap::new());
            }
            match expr::as_const(e) {
                Some(0) => {
                    self.simplified += 1;
                    if expr::eval(orig, model) == 1 {
                        eprintln!("simplification contradicts the model: {}", expr::show(orig));
                        std::process::exit(3);
                    }
                    return Answer::Unsat;
                }
                Some(_) => {}
                None => {
                    vars |= expr::vars(e);
                    set.push(e);
                }
            }
        }
        loop {
            let mut grown = false;
            for &p in pc {
                if expr::vars(p) & vars == 0 {
                    continue;
                }
                let p = expr::subst(p, bound, model);
                let v = expr::vars(p);
                if v & vars != 0 && !set.contains(&p) {
                    set.push(p);
                    if v & !vars != 0 {
                        vars |= v;
                    }
                    grown = true;
                }
            }
            if !grown {
                break;
            }
        }
        set.sort();
        set.dedup();
        let merge = |vals: &Vec<(usize, u128)>| {
            let mut m = model.to_vec();
            for &(i, v) in vals {
                if m.len() <= i {
                    m.resize(i + 1, 0);
                }
                m[i] = v;
            }
            m
        };
        if let Some(r) = self.cache.get(&set) {
            self.cached += 1;
            return match r {
                Some(v) => Answer::Sat(merge(v)),
                None => Answer::Unsat,
            };
        }
        if small > 0 {
            let mut w: Vec<(usize, u16)> = vec![];
            let mut total = 0u32;
            for i in 0..128 {
                if vars >> i & 1 == 1 {
                    let k = sym_width(&set, i);
                    total += k as u32;
                    w.push((i, k));
                    if total > small {
                        break;
                    }
                }
            }
            if total <= small {
                self.enumerated += 1;
                let mut m = model.to_vec();
                let mut found = None;
                for a in 0..1u128 << total {
                    let mut x = a;
                    for &(i, k) in &w {
                        if m.len() <= i {
                            m.resize(i + 1, 0);
                        }
                        m[i] = x & expr::mask(k);
                        x >>= k;
                    }
                    if set.iter().all(|&e| expr::eval(e, &m) == 1) {
                        found = Some(w.iter().map(|&(i, _)| (i, m[i])).collect::<Vec<_>>());
                        break;
                    }
                }
                let ans = match &found {
                    Some(v) => Answer::Sat(merge(v)),
                    None => Answer::Unsat,
                };
                self.cache.insert(set, found);
                return ans;
            }
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.c, self.s);
            for &e in &set {
                let b = self.boolean(e);
                Z3_inc_ref(self.c, b);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            if let Some(d) = &self.dump {
                if self.dumped < 2000 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                    let f = format!("{d}/q{}_{}.smt2", std::process::id(), self.dumped);
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n; {}\n{s}\n(check-sat)\n", if r == 1 { "sat" } else { "unsat" }));
                    self.dumped += 1;
                }
            }
            r
        };
        let out = match r {
            1 => unsafe {
                self.sat += 1;
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                for i in 0..128 {
                    if vars >> i & 1 == 0 {
                        continue;
                    }
                    let w = sym_width(&set, i);
                    let t = self.term(expr::sym(i, w));
                    let mut v: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, t, true, &mut v);
                    Z3_inc_ref(self.c, v);
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.c, v)).to_str().unwrap();
                    vals.push((i, s.parse().unwrap()));
                }
                Z3_model_dec_ref(self.c, m);
                Some(vals)
            },
            -1 => {
                self.unsat += 1;
                None
            }
            _ => {
                eprintln!("z3 answered unknown");
                std::process::exit(3);
            }
        };
        self.time += t0.elapsed().as_secs_f64();
        let ans = match &out {
            Some(v) => {
                let m = merge(v);
                for &e in &set {
                    if expr::eval(e, &m) != 1 {
                        eprintln!("z3's model does not satisfy {}", expr::show(e));
                        std::process::exit(3);
                    }
                }
                Answer::Sat(m)
            }
            None => Answer::Unsat,
        };
        self.cache.insert(set, out);
        ans
    }
}

fn sym_width(set: &[E], i: usize) -> u16 {
    fn go(e: E, i: usize, seen: &mut std::collections::HashSet<E>) -> Option<u16> {
        if expr::vars(e) >> i & 1 == 0 || !seen.insert(e) {
            return None;
        }
        let x = expr::n(e);
        match x.op {
            Op::Sym => Some(x.w),
            Op::Const => None,
            Op::Extract | Op::SExt => go(x.a, i, seen),
            Op::Ite => go(x.a, i, seen).or_else(|| go(x.b, i, seen)).or_else(|| go(x.c, i, seen)),
            _ => go(x.a, i, seen).or_else(|| go(x.b, i, seen)),
        }
    }
    let mut seen = Default::default();
    set.iter().find_map(|&e| go(e, i, &mut seen)).unwrap()
}
#[allow(dead_code)]
fn unused(c: P) {
    unsafe {
        Z3_mk_bool_sort(c);
    }
}
