//! Hash-consed bit-vector expressions with local simplification.
//! Symbols are named by their position on the path (0, 1, 2, ...), so that equal paths share expressions.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, // k
    Sym,   // k = index
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,     // a ? b : c
    Concat,  // a high, b low
    Extract, // a, low bit k
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    map: HashMap<Node, E>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx { nodes: vec![], vars: vec![], map: HashMap::new(), memo: vec![], epoch: 0 });
        }
        CTX.as_mut().unwrap()
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn mk(n: Node) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&n) {
        return e;
    }
    let vars = match n.op {
        Op::Const => 0,
        Op::Sym => 1u128 << n.k,
        Op::Ite => c.vars[n.a as usize] | c.vars[n.b as usize] | c.vars[n.c as usize],
        Op::Extract | Op::SExt => c.vars[n.a as usize],
        _ => c.vars[n.a as usize] | c.vars[n.b as usize],
    };
    let e = c.nodes.len() as E;
    c.nodes.push(n);
    c.vars.push(vars);
    c.map.insert(n, e);
    e
}
fn node(op: Op, w: u16, a: E, b: E) -> E {
    mk(Node { op, w, a, b, c: 0, k: 0 })
}
pub fn n(e: E) -> Node {
    cx().nodes[e as usize]
}
pub fn width(e: E) -> u16 {
    n(e).w
}
pub fn vars(e: E) -> u128 {
    cx().vars[e as usize]
}
pub fn konst(v: u128, w: u16) -> E {
    mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}
pub fn sym(index: usize, w: u16) -> E {
    assert!(index < 128, "more than 128 symbols on a path");
    mk(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: index as u128 })
}
pub fn as_const(e: E) -> Option<u128> {
    let x = n(e);
    if x.op == Op::Const {
        Some(x.k)
    } else {
        None
    }
}

/// The operation on constants; None where the result is undefined (division by zero).
pub fn fold(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        m & match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => a.checked_div(b)?,
            Op::URem => a.checked_rem(b)?,
            Op::SDiv => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
            Op::SRem => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = sext(a, w);
                (s >> b.min(w as u128 - 1).min(127)) as u128
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => unreachable!(),
            _ => unreachable!(),
        },
    )
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (x, y) = (n(a), n(b));
    let w = x.w;
    debug_assert_eq!(x.w, y.w);
    if let (Some(p), Some(q)) = (as_const(a), as_const(b)) {
        if let Some(r) = fold(op, w, p, q) {
            return konst(r, w);
        }
    }
    // constants to the right
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && x.op == Op::Const {
        return bin(op, b, a);
    }
    let cb = as_const(b);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Some(q), Op::Add) = (cb, x.op) {
                if let Some(p) = as_const(x.b) {
                    return bin(Op::Add, x.a, konst(p.wrapping_add(q), w));
                }
            }
        }
        Op::Sub => {
            if a == b {
                return konst(0, w);
            }
            if let Some(q) = cb {
                return bin(Op::Add, a, konst(q.wrapping_neg(), w));
            }
            if x.op == Op::Add && x.a == b {
                return x.b;
            }
            if x.op == Op::Add && x.b == b {
                return x.a;
            }
        }
        Op::Mul => match cb {
            Some(0) => return b,
            Some(1) => return a,
            Some(q) if q.is_power_of_two() => return bin(Op::Shl, a, konst(q.trailing_zeros() as u128, w)),
            _ => {}
        },
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(q) = cb {
                if q.is_power_of_two() {
                    return bin(Op::LShr, a, konst(q.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(q) = cb {
                if q.is_power_of_two() {
                    return bin(Op::And, a, konst(q - 1, w));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if cb == Some(0) {
                return b;
            }
            if cb == Some(mask(w)) {
                return a;
            }
            if let Some(q) = cb {
                // low mask
                if w > 1 && (q + 1).is_power_of_two() {
                    let k = (q + 1).trailing_zeros() as u16;
                    return zext(extract(a, 0, k), w);
                }
            }
            if w == 1 && is_not(a, b) {
                return konst(0, 1);
            }
        }
        Op::Or => {
            if a == b || cb == Some(0) {
                return a;
            }
            if cb == Some(mask(w)) {
                return b;
            }
            if w == 1 && is_not(a, b) {
                return konst(1, 1);
            }
        }
        Op::Xor => {
            if a == b {
                return konst(0, w);
            }
            if cb == Some(0) {
                return a;
            }
            if let (Some(q), Op::Xor) = (cb, x.op) {
                if let Some(p) = as_const(x.b) {
                    return bin(Op::Xor, x.a, konst(p ^ q, w));
                }
            }
        }
        Op::Shl => {
            if let Some(q) = cb {
                if q == 0 {
                    return a;
                }
                if q >= w as u128 {
                    return konst(0, w);
                }
                let q = q as u16;
                return concat(extract(a, 0, w - q), konst(0, q));
            }
        }
        Op::LShr => {
            if let Some(q) = cb {
                if q == 0 {
                    return a;
                }
                if q >= w as u128 {
                    return konst(0, w);
                }
                let q = q as u16;
                return zext(extract(a, q, w - q), w);
            }
        }
        Op::AShr => {
            if let Some(q) = cb {
                let q = q.min(w as u128 - 1) as u16;
                if q == 0 {
                    return a;
                }
                return sextend(extract(a, q, w - q), w);
            }
        }
        _ => {}
    }
    // bitwise operations distribute over concatenations
    if matches!(op, Op::And | Op::Or | Op::Xor) {
        let split = if x.op == Op::Concat {
            Some(width(x.b))
        } else if y.op == Op::Concat {
            Some(width(y.b))
        } else {
            None
        };
        if let Some(lo) = split {
            let ok = |z: Node| matches!(z.op, Op::Const) || (z.op == Op::Concat);
            if ok(x) && ok(y) {
                let h = bin(op, extract(a, lo, w - lo), extract(b, lo, w - lo));
                let l = bin(op, extract(a, 0, lo), extract(b, 0, lo));
                return concat(h, l);
            }
        }
    }
    node(op, w, a, b)
}
fn is_not(a: E, b: E) -> bool {
    not(a) == b
}
pub fn not(a: E) -> E {
    let w = width(a);
    bin(Op::Xor, a, konst(mask(w), w))
}
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return konst(1, 1);
    }
    let (x, y) = (n(a), n(b));
    debug_assert_eq!(x.w, y.w);
    if x.op == Op::Const && y.op == Op::Const {
        return konst((x.k == y.k) as u128, 1);
    }
    if x.op == Op::Const {
        return eq(b, a);
    }
    if y.op == Op::Const {
        if x.w == 1 {
            return if y.k == 1 { a } else { not(a) };
        }
        match x.op {
            Op::Add => {
                if let Some(p) = as_const(x.b) {
                    return eq(x.a, konst(y.k.wrapping_sub(p), x.w));
                }
            }
            Op::Xor => {
                if let Some(p) = as_const(x.b) {
                    return eq(x.a, konst(y.k ^ p, x.w));
                }
            }
            Op::Concat => {
                let lo = width(x.b);
                return and(eq(x.a, konst(y.k >> lo, x.w - lo)), eq(x.b, konst(y.k, lo)));
            }
            Op::Ite => {
                if as_const(x.b).is_some() || as_const(x.c).is_some() {
                    return ite(x.a, eq(x.b, b), eq(x.c, b));
                }
            }
            _ => {}
        }
    }
    if x.op == Op::Concat && y.op == Op::Concat && width(x.b) == width(y.b) {
        return and(eq(x.a, y.a), eq(x.b, y.b));
    }
    if a < b {
        node(Op::Eq, 1, a, b)
    } else {
        node(Op::Eq, 1, b, a)
    }
}
pub fn ult(a: E, b: E) -> E {
    if a == b {
        return konst(0, 1);
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst((x.k < y.k) as u128, 1);
    }
    if y.op == Op::Const && y.k == 0 {
        return konst(0, 1);
    }
    if y.op == Op::Const && y.k == 1 {
        return eq(a, konst(0, x.w));
    }
    if x.op == Op::Const && x.k == 0 {
        return not(eq(b, a));
    }
    if x.op == Op::Const && x.k == mask(x.w) {
        return konst(0, 1);
    }
    // zero-extended values
    let hi0 = |z: Node| z.op == Op::Concat && as_const(z.a) == Some(0);
    if hi0(x) && hi0(y) && width(x.b) == width(y.b) {
        return ult(x.b, y.b);
    }
    if hi0(x) && y.op == Op::Const {
        let lo = width(x.b);
        return if y.k > mask(lo) { konst(1, 1) } else { ult(x.b, konst(y.k, lo)) };
    }
    if hi0(y) && x.op == Op::Const {
        let lo = width(y.b);
        return if x.k >= mask(lo) { konst(0, 1) } else { ult(konst(x.k, lo), y.b) };
    }
    node(Op::Ult, 1, a, b)
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return konst(0, 1);
    }
    let (x, y) = (n(a), n(b));
    if x.op == Op::Const && y.op == Op::Const {
        return konst((sext(x.k, x.w) < sext(y.k, y.w)) as u128, 1);
    }
    if y.op == Op::Const && y.k == 0 {
        return extract(a, x.w - 1, 1);
    }
    // both known non-negative: unsigned comparison
    let nonneg = |z: Node| match z.op {
        Op::Concat => as_const(z.a).map_or(false, |k| sext(k, width(z.a)) >= 0),
        Op::Const => sext(z.k, z.w) >= 0,
        _ => false,
    };
    if nonneg(x) && nonneg(y) {
        return ult(a, b);
    }
    node(Op::Slt, 1, a, b)
}
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    match as_const(c) {
        Some(0) => return b,
        Some(_) => return a,
        None => {}
    }
    if width(a) == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(0), None) => return and(not(c), b),
            (Some(1), None) => return or(c, b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    mk(Node { op: Op::Ite, w: width(a), a: c, b: a, c: b, k: 0 })
}
pub fn concat(a: E, b: E) -> E {
    let (x, y) = (n(a), n(b));
    let w = x.w + y.w;
    assert!(w <= 128, "expression wider than 128 bits");
    if x.op == Op::Const && y.op == Op::Const {
        return konst((x.k << y.w) | y.k, w);
    }
    if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.k == y.k + y.w as u128 {
        return extract(x.a, y.k as u16, w);
    }
    // right-nested canonical form: concat(concat(p, q), r) -> concat(p, concat(q, r))
    if x.op == Op::Concat {
        return concat(x.a, concat(x.b, b));
    }
    // merge neighbours: extract(x) . (extract(x) . rest), const . (const . rest)
    if y.op == Op::Concat {
        let z = n(y.a);
        if (x.op == Op::Extract && z.op == Op::Extract && x.a == z.a && x.k == z.k + z.w as u128)
            || (x.op == Op::Const && z.op == Op::Const)
        {
            return concat(concat(a, y.a), y.b);
        }
    }
    node(Op::Concat, w, a, b)
}
pub fn zext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    concat(konst(0, w - aw), a)
}
pub fn sextend(a: E, w: u16) -> E {
    let x = n(a);
    if x.w == w {
        return a;
    }
    if x.op == Op::Const {
        return konst(sext(x.k, x.w) as u128, w);
    }
    if x.op == Op::Concat {
        if let Some(k) = as_const(x.a) {
            if sext(k, width(x.a)) >= 0 {
                return zext(a, w);
            }
        }
    }
    mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let x = n(a);
    debug_assert!(lo + w <= x.w && w > 0);
    if lo == 0 && w == x.w {
        return a;
    }
    match x.op {
        Op::Const => return konst(x.k >> lo, w),
        Op::Extract => return extract(x.a, lo + x.k as u16, w),
        Op::Concat => {
            let bw = width(x.b);
            if lo >= bw {
                return extract(x.a, lo - bw, w);
            }
            if lo + w <= bw {
                return extract(x.b, lo, w);
            }
            return concat(extract(x.a, 0, lo + w - bw), extract(x.b, lo, bw - lo));
        }
        Op::And | Op::Or | Op::Xor => return bin(x.op, extract(x.a, lo, w), extract(x.b, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => return bin(x.op, extract(x.a, 0, w), extract(x.b, 0, w)),
        Op::Ite => return ite(x.a, extract(x.b, lo, w), extract(x.c, lo, w)),
        Op::SExt => {
            let aw = width(x.a);
            if lo + w <= aw {
                return extract(x.a, lo, w);
            }
            if lo == 0 {
                return sextend(x.a, w);
            }
        }
        _ => {}
    }
    mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
}

/// Value of `e` when symbol i has the value `model[i]` (0 when absent).
/// `e` with the symbols in `bound` replaced by their values in `model`.
pub fn subst(e: E, bound: u128, model: &[u128]) -> E {
    fn go(e: E, bound: u128, model: &[u128], memo: &mut HashMap<E, E>) -> E {
        let v = vars(e);
        if v & bound == 0 {
            return e;
        }
        if v & !bound == 0 {
            return konst(eval(e, model), width(e));
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let x = n(e);
        let mut f = |k: E| go(k, bound, model, memo);
        let r = match x.op {
            Op::Const | Op::Sym => e,
            Op::Eq => eq(f(x.a), f(x.b)),
            Op::Ult => ult(f(x.a), f(x.b)),
            Op::Slt => slt(f(x.a), f(x.b)),
            Op::Ite => ite(f(x.a), f(x.b), f(x.c)),
            Op::Concat => concat(f(x.a), f(x.b)),
            Op::Extract => extract(f(x.a), x.k as u16, x.w),
            Op::SExt => sextend(f(x.a), x.w),
            op => bin(op, f(x.a), f(x.b)),
        };
        memo.insert(e, r);
        r
    }
    if vars(e) & bound == 0 {
        return e;
    }
    go(e, bound, model, &mut HashMap::new())
}
/// What the conditions in `pc` say about other conditions, one by one.
pub fn facts(pc: impl Iterator<Item = E>) -> HashMap<E, u128> {
    let mut f = HashMap::new();
    for p in pc {
        let x = n(p);
        // p is q or not(q)
        let (q, v) = if x.op == Op::Xor && as_const(x.b) == Some(1) {
            (x.a, false)
        } else if x.op == Op::Xor && as_const(x.a) == Some(1) {
            (x.b, false)
        } else {
            (p, true)
        };
        f.insert(q, v as u128);
        let y = n(q);
        let mut put = |e: E, v: bool| {
            if as_const(e).is_none() {
                f.insert(e, v as u128);
            }
        };
        match (y.op, v) {
            (Op::Ult, true) => {
                put(ult(y.b, y.a), false);
                put(eq(y.a, y.b), false);
            }
            (Op::Slt, true) => {
                put(slt(y.b, y.a), false);
                put(eq(y.a, y.b), false);
            }
            (Op::Eq, true) => {
                put(ult(y.b, y.a), false);
                put(ult(y.a, y.b), false);
                if let Some(k) = as_const(y.a) {
                    f.insert(y.b, k);
                } else if let Some(k) = as_const(y.b) {
                    f.insert(y.a, k);
                }
            }
            (Op::Or, false) => {
                put(y.a, false);
                put(y.b, false);
            }
            (Op::And, true) => {
                put(y.a, true);
                put(y.b, true);
            }
            _ => {}
        }
    }
    f
}
/// `e` simplified by the facts.
pub fn given(e: E, facts: &HashMap<E, u128>, memo: &mut HashMap<E, E>) -> E {
    if let Some(&v) = facts.get(&e) {
        return konst(v, width(e));
    }
    if vars(e) == 0 {
        return e;
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let x = n(e);
    let mut f = |k: E| given(k, facts, memo);
    let r = match x.op {
        Op::Const | Op::Sym => e,
        Op::Eq => eq(f(x.a), f(x.b)),
        Op::Ult => ult(f(x.a), f(x.b)),
        Op::Slt => slt(f(x.a), f(x.b)),
        Op::Ite => ite(f(x.a), f(x.b), f(x.c)),
        Op::Concat => concat(f(x.a), f(x.b)),
        Op::Extract => extract(f(x.a), x.k as u16, x.w),
        Op::SExt => sextend(f(x.a), x.w),
        op => bin(op, f(x.a), f(x.b)),
    };
    memo.insert(e, r);
    r
}
/// The symbol whose value the equation `e = constant` determines.
pub fn determines(mut e: E) -> Option<usize> {
    loop {
        let x = n(e);
        match x.op {
            Op::Sym => return Some(x.k as usize),
            Op::Concat if as_const(x.a).is_some() => e = x.b,
            Op::Concat if as_const(x.b).is_some() => e = x.a,
            Op::Add | Op::Sub | Op::Xor => {
                if as_const(x.b).is_some() {
                    e = x.a
                } else if as_const(x.a).is_some() {
                    e = x.b
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
}
pub fn eval(e: E, model: &[u128]) -> u128 {
    let c = cx();
    c.epoch += 1;
    let len = c.nodes.len();
    c.memo.resize(len, (0, 0));
    ev(e, model)
}
fn ev(e: E, model: &[u128]) -> u128 {
    let c = cx();
    let x = c.nodes[e as usize];
    match x.op {
        Op::Const => return x.k,
        Op::Sym => return model.get(x.k as usize).copied().unwrap_or(0) & mask(x.w),
        _ => {}
    }
    let (ep, v) = c.memo[e as usize];
    if ep == c.epoch {
        return v;
    }
    let r = match x.op {
        Op::Ite => {
            if ev(x.a, model) == 1 {
                ev(x.b, model)
            } else {
                ev(x.c, model)
            }
        }
        Op::Extract => (ev(x.a, model) >> x.k as u32) & mask(x.w),
        Op::Concat => (ev(x.a, model) << width(x.b)) | ev(x.b, model),
        Op::SExt => (sext(ev(x.a, model), width(x.a)) as u128) & mask(x.w),
        Op::Slt => {
            let w = width(x.a);
            (sext(ev(x.a, model), w) < sext(ev(x.b, model), w)) as u128
        }
        Op::Eq | Op::Ult => fold(x.op, width(x.a), ev(x.a, model), ev(x.b, model)).unwrap() & 1,
        // SMT-LIB semantics of division by zero; the executor rules it out before it builds one
        Op::UDiv => fold(x.op, x.w, ev(x.a, model), ev(x.b, model)).unwrap_or(mask(x.w)),
        _ => {
            let p = ev(x.a, model);
            fold(x.op, x.w, p, ev(x.b, model)).unwrap_or(p)
        }
    };
    cx().memo[e as usize] = (cx().epoch, r);
    r
}

pub fn show(e: E) -> String {
    let x = n(e);
    match x.op {
        Op::Const => format!("{}", x.k),
        Op::Sym => format!("s{}", x.k),
        Op::Ite => format!("(ite {} {} {})", show(x.a), show(x.b), show(x.c)),
        Op::Extract => format!("{}[{}..{}]", show(x.a), x.k, x.k + x.w as u128),
        Op::SExt => format!("sext{}({})", x.w, show(x.a)),
        _ => format!("({:?} {} {})", x.op, show(x.a), show(x.b)),
    }
}
