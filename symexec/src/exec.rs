//! Symbolic execution of the module.
use crate::expr::{self, Op as X, E};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Answer, Solver};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Runnable,
    Futex(u64),
    Join(usize),
    Done,
}
#[derive(Clone)]
pub enum Input {
    Sym(usize),
    Const(u32),
}
#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: u32,
    pub normal: Option<u32>,
    pub stack_mark: usize,
    pub sp_mark: u64,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stack: Vec<Ent>,
    pub sp: u64,
    pub tls: Vec<Ent>,
    pub status: Status,
    /// the next synchronisation operation runs without asking the scheduler again
    pub granted: bool,
    /// synchronisation operations executed so far
    pub points: u64,
    /// preempted before this operation: address, size, whether it writes
    pub paused: Option<(u64, u64, bool)>,
    /// another thread has touched that place since
    pub hit: bool,
}
#[derive(Clone)]
pub struct State {
    pub gl: Rc<Vec<Ent>>,
    pub heap: Vec<Ent>,
    pub heap_next: u64,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub syms: Vec<u16>,
    /// symbols whose value the path condition determines
    pub bound: u128,
    /// what the harness asked for, in order
    pub inputs: Vec<Input>,
    pub trace: Vec<Val>,
    pub steps: u64,
    pub hook: Option<(u64, u64)>,
    pub preempt: u32,
    pub sched: Vec<(u32, u64, u32)>,
    pub depth: u32,
}
pub enum Stop {
    End,
    Killed,
    Violation(String, String),
    Inconclusive(String),
}
type R<T> = Result<T, Stop>;

pub struct Limits {
    pub steps: u64,
    pub preempt: u32,
    pub findings: usize,
    pub samples: usize,
    pub values: usize,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub insts: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub panics_hooked: u64,
    pub switches: u64,
    pub pruned: u64,
    pub covers: HashSet<String>,
    pub findings: Vec<String>,
    pub finding_kinds: HashMap<String, usize>,
    pub samples: Vec<String>,
    pub inconclusive: HashMap<String, u64>,
    pub dbg: Vec<bool>,
    pub funcs: Vec<bool>,
}

#[derive(Clone, Copy, PartialEq)]
enum Hooked {
    No,
    Panic,
    Abort,
    NoUnwind,
}

pub struct Exec {
    pub m: &'static Module,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub lim: Limits,
    hooks: Vec<Hooked>,
    debug: bool,
    no_prune: bool,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl Iterator<Item = u128>) -> String {
    format!("[{}]", v.map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

impl Exec {
    pub fn new(m: &'static Module, lim: Limits) -> Self {
        let hooks = m
            .funcs
            .iter()
            .map(|f| {
                let n = &f.name;
                if n.contains("17rust_begin_unwind") {
                    Hooked::Panic
                } else if n.contains("18handle_alloc_error") || n.contains("7process5abort") || n.contains("14abort_internal") {
                    Hooked::Abort
                } else if n.contains("___rust_no_alloc_shim_is_unstable") {
                    Hooked::NoUnwind
                } else {
                    Hooked::No
                }
            })
            .collect();
        let maxdbg = m.md.keys().max().copied().unwrap_or(0) as usize + 1;
        let nf = m.funcs.len();
        Exec {
            m,
            solver: Solver::new(),
            work: VecDeque::new(),
            st: Stats { dbg: vec![false; maxdbg], funcs: vec![false; nf], ..Default::default() },
            lim,
            hooks,
            debug: std::env::var_os("SYMEXEC_TRACE").is_some(),
            no_prune: std::env::var_os("SYMEXEC_NO_PRUNE").is_some(),
        }
    }

    pub fn initial(&self, entry: &str) -> State {
        let gl = self
            .m
            .globals
            .iter()
            .filter(|g| !g.tls)
            .map(|g| Ent::new(g.addr, g.init.clone(), !g.constant))
            .collect::<Vec<_>>();
        let mut s = State {
            gl: Rc::new(gl),
            heap: vec![],
            heap_next: HEAP_BASE,
            threads: vec![],
            cur: 0,
            pc: vec![],
            model: vec![],
            syms: vec![],
            bound: 0,
            inputs: vec![],
            trace: vec![],
            steps: 0,
            hook: None,
            preempt: 0,
            sched: vec![],
            depth: 0,
        };
        let Some(&f) = self.m.fmap.get(entry) else {
            eprintln!("no function {entry}");
            std::process::exit(3);
        };
        self.spawn(&mut s, f, vec![]);
        s
    }
    fn spawn(&self, s: &mut State, f: u32, args: Vec<Val>) -> usize {
        let tid = s.threads.len();
        let mut tls = self
            .m
            .globals
            .iter()
            .filter(|g| g.tls)
            .map(|g| Ent::new(g.addr + ((tid as u64) << 32), g.init.clone(), true))
            .collect::<Vec<_>>();
        // errno
        tls.push(Ent::new(TLS_BASE + ((tid as u64) << 32) + 0x1000_0000, vec![0; 8], true));
        s.threads.push(Thread {
            frames: vec![],
            stack: vec![],
            sp: STACK_BASE + ((tid as u64) << 32),
            tls,
            status: Status::Runnable,
            granted: false,
            points: 0,
            paused: None,
            hit: false,
        });
        self.push(s, tid, f, args, NONE, None);
        tid
    }
    fn push(&self, s: &mut State, tid: usize, f: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) {
        let func = &self.m.funcs[f as usize];
        let mut regs = vec![Val::C(0); func.nslots as usize];
        for (p, a) in func.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        let t = &mut s.threads[tid];
        t.frames.push(Frame { f, blk: 0, ip: 0, regs, dst, normal, stack_mark: t.stack.len(), sp_mark: t.sp });
    }

    // ------------------------------------------------------------------ memory

    fn table<'a>(&self, s: &'a State, addr: u64) -> &'a [Ent] {
        if addr >= STACK_BASE {
            let t = ((addr - STACK_BASE) >> 32) as usize;
            s.threads.get(t).map_or(&[], |t| &t.stack)
        } else if addr >= TLS_BASE {
            let t = ((addr - TLS_BASE) >> 32) as usize;
            s.threads.get(t).map_or(&[], |t| &t.tls)
        } else if addr >= HEAP_BASE {
            &s.heap
        } else {
            &s.gl
        }
    }
    fn table_mut<'a>(&self, s: &'a mut State, addr: u64) -> &'a mut [Ent] {
        if addr >= STACK_BASE {
            let t = ((addr - STACK_BASE) >> 32) as usize;
            s.threads.get_mut(t).map_or(&mut [], |t| &mut t.stack)
        } else if addr >= TLS_BASE {
            let t = ((addr - TLS_BASE) >> 32) as usize;
            s.threads.get_mut(t).map_or(&mut [], |t| &mut t.tls)
        } else if addr >= HEAP_BASE {
            &mut s.heap
        } else {
            let v: &mut Vec<Ent> = Rc::make_mut(&mut s.gl);
            v
        }
    }
    fn bad(&self, s: &State, what: &str, addr: u64, n: usize) -> Stop {
        Stop::Violation("memory".into(), format!("{what} of {n} bytes at {addr:#x} in {}", self.place(s)))
    }
    fn obj<'a>(&self, s: &'a State, addr: u64, n: usize) -> R<(&'a Obj, usize)> {
        let t = self.table(s, addr);
        if let Some(k) = find(t, addr) {
            let e = &t[k];
            if addr + n as u64 <= e.base + e.size {
                match &e.obj {
                    Some(o) => return Ok((o, (addr - e.base) as usize)),
                    None => return Err(self.bad(s, "read after free", addr, n)),
                }
            }
        }
        Err(self.bad(s, "read out of bounds", addr, n))
    }
    fn obj_mut<'a>(&self, s: &'a mut State, addr: u64, n: usize) -> R<(&'a mut Obj, usize)> {
        let t = self.table(s, addr);
        let ok = match find(t, addr) {
            Some(k) if addr + n as u64 <= t[k].base + t[k].size => {
                if t[k].obj.is_none() {
                    Err("write after free")
                } else if !t[k].writable {
                    Err("write to a constant")
                } else {
                    Ok(k)
                }
            }
            _ => Err("write out of bounds"),
        };
        match ok {
            Ok(k) => {
                let e = &mut self.table_mut(s, addr)[k];
                let base = e.base;
                Ok((Rc::make_mut(e.obj.as_mut().unwrap()), (addr - base) as usize))
            }
            Err(w) => Err(self.bad(s, w, addr, n)),
        }
    }
    fn load(&self, s: &State, t: &Ty, addr: u64) -> R<Val> {
        if let Some(w) = t.width() {
            let n = (w as usize + 7) / 8;
            let (o, off) = self.obj(s, addr, n)?;
            let v = o.load(off, n);
            return Ok(if w % 8 != 0 {
                match v {
                    Val::C(c) => Val::C(c & expr::mask(w)),
                    Val::S(e) => val(expr::extract(e, 0, w)),
                    v => v,
                }
            } else {
                v
            });
        }
        if let Some(b) = bitvec(t) {
            let v = self.load(s, &b, addr)?;
            return Ok(self.unflatten(t, &v));
        }
        let mut v = vec![];
        for i in 0..t.count() {
            v.push(self.load(s, &t.elem(i), addr + t.field_offset(i))?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn store(&self, s: &mut State, t: &Ty, addr: u64, v: &Val) -> R<()> {
        if let Some(w) = t.width() {
            let n = (w as usize + 7) / 8;
            let v = match v {
                Val::C(c) => Val::C(c & expr::mask(w)),
                Val::S(e) if w % 8 != 0 => val(expr::zext(*e, 8 * n as u16)),
                Val::S(e) => Val::S(*e),
                v => v.clone(),
            };
            let (o, off) = self.obj_mut(s, addr, n)?;
            o.store(off, n, &v);
            return Ok(());
        }
        if let Some(b) = bitvec(t) {
            let v = self.flatten(t, v);
            return self.store(s, &b, addr, &v);
        }
        let Val::A(vs) = v else {
            // zeroinitializer of an aggregate
            let (o, off) = self.obj_mut(s, addr, t.size() as usize)?;
            for k in 0..t.size() as usize {
                o.store(off + k, 1, &Val::C(0));
            }
            return Ok(());
        };
        for i in 0..t.count() {
            self.store(s, &t.elem(i), addr + t.field_offset(i), &vs[i])?;
        }
        Ok(())
    }
    fn copy(&self, s: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(s, src, n)?;
        let bytes = o.bytes[off..off + n].to_vec();
        let sym = match &o.sym {
            Some(v) if v[off..off + n].iter().any(|x| x.0 != NOSYM) => Some(v[off..off + n].to_vec()),
            _ => None,
        };
        let (o, off) = self.obj_mut(s, dst, n)?;
        o.bytes[off..off + n].copy_from_slice(&bytes);
        match sym {
            Some(v) => {
                let len = o.bytes.len();
                let t = o.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                t[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(t) = &mut o.sym {
                    t[off..off + n].fill((NOSYM, 0));
                }
            }
        }
        Ok(())
    }
    fn alloc(&self, s: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        let a = align_up(s.heap_next, align.max(16));
        s.heap.push(Ent::new(a, vec![if zero { 0 } else { 0xAA }; size as usize], true));
        s.heap_next = a + size + 32;
        a
    }
    fn free(&self, s: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if let Some(k) = find(&s.heap, p) {
            if s.heap[k].base == p {
                if s.heap[k].obj.is_none() {
                    return Err(self.bad(s, "double free", p, 0));
                }
                s.heap[k].obj = None;
                let end = p + s.heap[k].size;
                for t in s.threads.iter_mut() {
                    if matches!(t.paused, Some((a, _, _)) if a >= p && a < end) {
                        t.hit = true;
                    }
                }
                return Ok(());
            }
        }
        Err(self.bad(s, "free of a pointer that was not allocated", p, 0))
    }
    fn cstr(&self, s: &State, p: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        loop {
            match self.load(s, &Ty::Int(8), p + v.len() as u64)? {
                Val::C(0) => return Ok(v),
                Val::C(c) => v.push(c as u8),
                _ => return Err(Stop::Inconclusive("symbolic C string".into())),
            }
        }
    }
    fn string(&self, s: &State, p: u64, n: u64) -> R<String> {
        let mut v = vec![];
        for k in 0..n {
            match self.load(s, &Ty::Int(8), p + k)? {
                Val::C(c) => v.push(c as u8),
                _ => return Err(Stop::Inconclusive("symbolic string".into())),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ------------------------------------------------------------------ decisions

    /// Commits this path to one value of `e`; the other values go on the work list.
    fn force(&mut self, s: &mut State, e: E) -> R<u128> {
        if let Some(c) = expr::as_const(e) {
            return Ok(c);
        }
        let v = expr::eval(e, &s.model);
        if expr::vars(e) & !s.bound == 0 {
            return Ok(v);
        }
        let is = expr::eq(e, expr::konst(v, expr::width(e)));
        let isnt = expr::not(is);
        match self.solver.feasible(&s.pc, &[isnt], s.bound, &s.model) {
            Answer::Unsat => {}
            Answer::Sat(m) => {
                let mut alt = s.clone();
                alt.model = m;
                self.assume(&mut alt, isnt);
                alt.depth += 1;
                self.st.forks += 1;
                self.work.push_back(alt);
                s.depth += 1;
                self.assume(s, is);
            }
        }
        Ok(v)
    }
    fn assume(&self, s: &mut State, e: E) {
        let x = expr::n(e);
        if x.op == X::And && x.w == 1 {
            self.assume(s, x.a);
            self.assume(s, x.b);
        } else if x.op != X::Const && !s.pc.contains(&e) {
            s.pc.push(e);
            let d = match x.op {
                X::Eq if expr::as_const(x.a).is_some() => expr::determines(x.b),
                X::Eq if expr::as_const(x.b).is_some() => expr::determines(x.a),
                _ if x.w == 1 => expr::determines(e),
                _ => None,
            };
            if let Some(k) = d {
                // the model satisfies the path condition, so it holds the value
                s.bound |= 1 << k;
            }
        }
    }
    fn force_val(&mut self, s: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.force(s, *e),
            Val::A(_) => panic!("aggregate as a scalar"),
        }
    }

    // ------------------------------------------------------------------ reporting

    pub fn place(&self, s: &State) -> String {
        s.threads[s.cur]
            .frames
            .iter()
            .rev()
            .take(8)
            .map(|f| self.m.funcs[f.f as usize].name.chars().take(90).collect::<String>())
            .collect::<Vec<_>>()
            .join(" < ")
    }
    fn inputs(&self, s: &State) -> String {
        jlist(s.inputs.iter().map(|i| match i {
            Input::Sym(k) => s.model.get(*k).copied().unwrap_or(0) & expr::mask(s.syms[*k]),
            Input::Const(c) => *c as u128,
        }))
    }
    fn record(&self, s: &State) -> String {
        let tr = jlist(s.trace.iter().map(|v| match v {
            Val::C(c) => *c & expr::mask(32),
            Val::S(e) => expr::eval(*e, &s.model),
            _ => 0,
        }));
        let sched = s.sched.iter().map(|(a, n, b)| format!("[{a},{n},{b}]")).collect::<Vec<_>>().join(",");
        format!("\"inputs\":{},\"trace\":{},\"sched\":[{}]", self.inputs(s), tr, sched)
    }
    fn finding(&mut self, s: &State, kind: &str, msg: &str) {
        // a few counterexamples per kind and message are enough
        let key = format!("{kind}: {msg}");
        let n = self.st.finding_kinds.entry(key).or_default();
        *n += 1;
        if *n > 3 || self.st.findings.len() >= self.lim.findings {
            return;
        }
        let loc = self.place(s);
        self.st.findings.push(format!(
            "{{\"kind\":{},\"message\":{},\"place\":{},{}}}",
            jstr(kind),
            jstr(msg),
            jstr(&loc),
            self.record(s)
        ));
    }
    fn panic_text(&self, s: &State, info: u64) -> String {
        // PanicInfo holds two references, one of which is the Location {ptr, len, line, col}
        for k in 0..4u64 {
            let Ok(Val::C(p)) = self.load(s, &Ty::Ptr, info + 8 * k) else { continue };
            let p = p as u64;
            let (Ok(Val::C(f)), Ok(Val::C(l)), Ok(Val::C(line))) =
                (self.load(s, &Ty::Ptr, p), self.load(s, &Ty::Int(64), p + 8), self.load(s, &Ty::Int(32), p + 16))
            else {
                continue;
            };
            if l > 5 && l < 300 {
                if let Ok(t) = self.string(s, f as u64, l as u64) {
                    let t = t.trim_end_matches('\0').to_string();
                    if t.ends_with(".rs") {
                        return format!("panic at {t}:{line}");
                    }
                }
            }
        }
        "panic".into()
    }

    // ------------------------------------------------------------------ running

    /// Runs one state to the end of its path.
    pub fn run(&mut self, mut s: State) {
        let before = s.steps;
        let r = self.path(&mut s);
        self.st.insts += s.steps - before;
        match r {
            Ok(()) => unreachable!(),
            Err(Stop::End) => {
                self.st.paths += 1;
                if self.st.samples.len() < self.lim.samples || (self.st.paths % 997 == 0 && self.st.samples.len() < 3 * self.lim.samples) {
                    let r = self.record(&s);
                    self.st.samples.push(format!("{{{r}}}"));
                }
            }
            Err(Stop::Killed) => self.st.killed += 1,
            Err(Stop::Violation(k, m)) => {
                self.st.paths += 1;
                self.finding(&s, &k, &m);
            }
            Err(Stop::Inconclusive(w)) => {
                *self.st.inconclusive.entry(w).or_default() += 1;
            }
        }
    }

    fn path(&mut self, s: &mut State) -> R<()> {
        let m = self.m;
        loop {
            let cur = s.cur;
            let (fi, blk, ip) = {
                let t = &s.threads[cur];
                if t.frames.is_empty() {
                    self.thread_done(s)?;
                    continue;
                }
                let fr = t.frames.last().unwrap();
                (fr.f, fr.blk, fr.ip)
            };
            let inst: &'static Inst = &m.funcs[fi as usize].blocks[blk as usize].insts[ip as usize];
            s.steps += 1;
            if s.steps > self.lim.steps {
                return Err(Stop::Inconclusive("instruction limit of a path".into()));
            }
            if inst.dbg != NONE && (inst.dbg as usize) < self.st.dbg.len() {
                self.st.dbg[inst.dbg as usize] = true;
            }
            if self.debug {
                eprintln!("{} b{blk} i{ip} {:?} <- {:?}", m.funcs[fi as usize].name, inst.dst, inst.op);
            }
            self.step(s, inst)?;
        }
    }

    fn thread_done(&mut self, s: &mut State) -> R<()> {
        let cur = s.cur;
        if cur == 0 {
            return Err(Stop::End);
        }
        s.threads[cur].status = Status::Done;
        for t in s.threads.iter_mut() {
            if t.status == Status::Join(cur) {
                t.status = Status::Runnable;
            }
        }
        self.switch_away(s)
    }

    /// The current thread cannot go on: every runnable thread may be next.
    fn switch_away(&mut self, s: &mut State) -> R<()> {
        let cur = s.cur;
        let others: Vec<usize> =
            (0..s.threads.len()).filter(|&t| t != cur && s.threads[t].status == Status::Runnable).collect();
        if others.is_empty() {
            if s.threads[cur].status == Status::Runnable {
                return Ok(());
            }
            let b = s.threads.iter().map(|t| format!("{:?}", t.status)).collect::<Vec<_>>().join(", ");
            return Err(Stop::Violation("deadlock".into(), format!("deadlock: {b}")));
        }
        for &t in &others[1..] {
            let mut alt = s.clone();
            self.switch_to(&mut alt, t);
            self.st.forks += 1;
            self.work.push_back(alt);
        }
        self.switch_to(s, others[0]);
        Ok(())
    }
    fn switch_to(&mut self, s: &mut State, t: usize) {
        self.st.switches += 1;
        let from = s.cur;
        s.sched.push((from as u32, s.threads[from].points, t as u32));
        s.cur = t;
        s.threads[t].granted = true;
    }
    /// Called before a synchronisation operation; may fork into schedules that switch here.
    ///
    /// A thread that was preempted before an operation and finds that nobody touched that place in the meantime
    /// might as well have been preempted after it: that schedule is explored on its own, so this one ends.
    fn sync_point(&mut self, s: &mut State, addr: u64, size: u64, write: bool) -> R<()> {
        if s.threads.len() < 2 {
            return Ok(());
        }
        let cur = s.cur;
        if let Some(_) = s.threads[cur].paused.take() {
            if !s.threads[cur].hit && !self.no_prune {
                self.st.pruned += 1;
                return Err(Stop::Killed);
            }
        }
        if s.threads[cur].granted {
            s.threads[cur].granted = false;
        } else if s.preempt < self.lim.preempt {
            for t in 0..s.threads.len() {
                if t != cur && s.threads[t].status == Status::Runnable {
                    let mut alt = s.clone();
                    alt.preempt += 1;
                    alt.threads[cur].paused = Some((addr, size, write));
                    alt.threads[cur].hit = false;
                    self.switch_to(&mut alt, t);
                    self.st.forks += 1;
                    self.work.push_back(alt);
                }
            }
        }
        s.threads[cur].points += 1;
        for t in 0..s.threads.len() {
            if let Some((a, n, w)) = s.threads[t].paused {
                if (w || write) && a < addr + size && addr < a + n {
                    s.threads[t].hit = true;
                }
            }
        }
        Ok(())
    }

    fn opd(&self, s: &State, o: &Opd) -> Val {
        match o {
            Opd::C(c) => Val::C(*c),
            Opd::Slot(k) => s.threads[s.cur].frames.last().unwrap().regs[*k as usize].clone(),
            Opd::K(k) => kval(k),
        }
    }
    fn agg(&self, s: &State, o: &Opd, n: usize) -> Rc<Vec<Val>> {
        match self.opd(s, o) {
            Val::A(v) => v,
            _ => Rc::new(vec![Val::C(0); n]),
        }
    }
    fn addr(&mut self, s: &mut State, o: &Opd) -> R<u64> {
        let v = self.opd(s, o);
        Ok(self.force_val(s, &v)? as u64)
    }
    fn set(&self, s: &mut State, dst: u32, v: Val) {
        let cur = s.cur;
        let fr = s.threads[cur].frames.last_mut().unwrap();
        if dst != NONE {
            fr.regs[dst as usize] = v;
        }
        fr.ip += 1;
    }
    fn goto(&self, s: &mut State, to: u32) {
        let cur = s.cur;
        let fr = s.threads[cur].frames.last_mut().unwrap();
        let b = &self.m.funcs[fr.f as usize].blocks[to as usize];
        let from = fr.blk;
        if b.phis.len() == 1 {
            let (d, v) = &b.phis[0];
            let o = &v.iter().find(|x| x.0 == from).unwrap().1;
            let x = match o {
                Opd::C(c) => Val::C(*c),
                Opd::Slot(k) => fr.regs[*k as usize].clone(),
                Opd::K(k) => kval(k),
            };
            fr.regs[*d as usize] = x;
        } else if !b.phis.is_empty() {
            let xs: Vec<Val> = b
                .phis
                .iter()
                .map(|(_, v)| match &v.iter().find(|x| x.0 == from).unwrap().1 {
                    Opd::C(c) => Val::C(*c),
                    Opd::Slot(k) => fr.regs[*k as usize].clone(),
                    Opd::K(k) => kval(k),
                })
                .collect();
            for ((d, _), x) in b.phis.iter().zip(xs) {
                fr.regs[*d as usize] = x;
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn bin(&mut self, s: &mut State, op: X, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match expr::fold(op, w, *x & expr::mask(w), *y & expr::mask(w)) {
                Some(r) => Ok(Val::C(r)),
                None => Err(Stop::Violation("division".into(), "division by zero".into())),
            };
        }
        if matches!(op, X::UDiv | X::URem | X::SDiv | X::SRem) {
            let z = expr::eq(b.e(w), expr::konst(0, w));
            if self.force(s, z)? == 1 {
                return Err(Stop::Violation("division".into(), "division by zero".into()));
            }
        }
        Ok(val(expr::bin(op, a.e(w), b.e(w))))
    }
    fn icmp(&self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = expr::mask(w);
            let (x, y) = (*x & m, *y & m);
            let (sx, sy) = (expr::sext(x, w), expr::sext(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u128);
        }
        let (a, b) = (a.e(w), b.e(w));
        val(match p {
            Pred::Eq => expr::eq(a, b),
            Pred::Ne => expr::not(expr::eq(a, b)),
            Pred::Ugt => expr::ult(b, a),
            Pred::Uge => expr::not(expr::ult(a, b)),
            Pred::Ult => expr::ult(a, b),
            Pred::Ule => expr::not(expr::ult(b, a)),
            Pred::Sgt => expr::slt(b, a),
            Pred::Sge => expr::not(expr::slt(a, b)),
            Pred::Slt => expr::slt(a, b),
            Pred::Sle => expr::not(expr::slt(b, a)),
        })
    }
    fn cast1(&self, c: Cast, from: u16, to: u16, v: &Val) -> Val {
        match v {
            Val::C(x) => Val::C(match c {
                Cast::Trunc => x & expr::mask(to),
                Cast::SExt => (expr::sext(*x, from) as u128) & expr::mask(to),
                _ => *x,
            }),
            Val::S(e) => val(match c {
                Cast::Trunc => expr::extract(*e, 0, to),
                Cast::ZExt => expr::zext(*e, to),
                Cast::SExt => expr::sextend(*e, to),
                Cast::Bit => *e,
            }),
            v => v.clone(),
        }
    }
    /// vector (or scalar) to one integer of all its bits, least significant lane first
    fn flatten(&self, t: &Ty, v: &Val) -> Val {
        match t {
            Ty::Vector(n, et) => {
                let w = et.width().unwrap();
                let vs = match v {
                    Val::A(a) => a.clone(),
                    _ => Rc::new(vec![Val::C(0); *n as usize]),
                };
                if vs.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() {
                        if let Val::C(c) = x {
                            r |= (c & expr::mask(w)) << (i as u32 * w as u32);
                        }
                    }
                    return Val::C(r);
                }
                let mut r = vs[0].e(w);
                for x in &vs[1..] {
                    r = expr::concat(x.e(w), r);
                }
                val(r)
            }
            _ => v.clone(),
        }
    }
    fn unflatten(&self, t: &Ty, v: &Val) -> Val {
        match t {
            Ty::Vector(n, et) => {
                let w = et.width().unwrap();
                Val::A(Rc::new(
                    (0..*n)
                        .map(|i| match v {
                            Val::C(c) => Val::C((c >> (i as u32 * w as u32)) & expr::mask(w)),
                            Val::S(e) => val(expr::extract(*e, i as u16 * w, w)),
                            _ => Val::C(0),
                        })
                        .collect(),
                ))
            }
            _ => v.clone(),
        }
    }

    fn step(&mut self, s: &mut State, inst: &'static Inst) -> R<()> {
        match &inst.op {
            I::Bin(op, t, a, b) => {
                let (x, y) = (self.opd(s, a), self.opd(s, b));
                let r = match t.width() {
                    Some(w) => self.bin(s, *op, w, &x, &y)?,
                    None => {
                        let n = t.count();
                        let w = t.elem(0).width().unwrap();
                        let (x, y) = (self.agg(s, a, n), self.agg(s, b, n));
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(self.bin(s, *op, w, &x[i], &y[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                };
                self.set(s, inst.dst, r);
            }
            I::Icmp(p, t, a, b) => {
                let r = match t.width() {
                    Some(w) => {
                        let (x, y) = (self.opd(s, a), self.opd(s, b));
                        self.icmp(*p, w, &x, &y)
                    }
                    None => {
                        let n = t.count();
                        let w = t.elem(0).width().unwrap();
                        let (x, y) = (self.agg(s, a, n), self.agg(s, b, n));
                        Val::A(Rc::new((0..n).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect()))
                    }
                };
                self.set(s, inst.dst, r);
            }
            I::Fcmp(k, t, a, b) => {
                let r = match t.width() {
                    Some(w) => {
                        let (x, y) = (self.opd(s, a), self.opd(s, b));
                        fcmp(*k, w, &x, &y)?
                    }
                    None => {
                        let n = t.count();
                        let w = t.elem(0).width().unwrap();
                        let (x, y) = (self.agg(s, a, n), self.agg(s, b, n));
                        let mut v = vec![];
                        for i in 0..n {
                            v.push(fcmp(*k, w, &x[i], &y[i])?);
                        }
                        Val::A(Rc::new(v))
                    }
                };
                self.set(s, inst.dst, r);
            }
            I::Fneg(t, a) => {
                let r = match t.width() {
                    Some(w) => {
                        let x = self.opd(s, a);
                        self.bin(s, X::Xor, w, &x, &Val::C(1 << (w - 1)))?
                    }
                    None => return Err(Stop::Inconclusive("vector fneg".into())),
                };
                self.set(s, inst.dst, r);
            }
            I::Load(t, p, atomic) => {
                let a = self.addr(s, p)?;
                if *atomic {
                    self.sync_point(s, a, t.size(), false)?;
                }
                let v = self.load(s, t, a)?;
                self.set(s, inst.dst, v);
            }
            I::Store(t, v, p, atomic) => {
                let a = self.addr(s, p)?;
                if *atomic {
                    self.sync_point(s, a, t.size(), true)?;
                }
                let v = self.opd(s, v);
                self.store(s, t, a, &v)?;
                self.set(s, NONE, Val::C(0));
            }
            I::Gep(b, off, idx) => {
                let base = self.opd(s, b);
                let mut r = match base {
                    Val::C(c) => Val::C((c as u64).wrapping_add(*off as u64) as u128),
                    Val::S(e) => val(expr::bin(X::Add, e, expr::konst(*off as u64 as u128, 64))),
                    v => v,
                };
                for (o, w, scale) in idx {
                    let i = self.opd(s, o);
                    r = match (&r, &i) {
                        (Val::C(x), Val::C(k)) => {
                            let k = expr::sext(*k, *w) as i64;
                            Val::C((*x as u64).wrapping_add(k.wrapping_mul(*scale) as u64) as u128)
                        }
                        _ => {
                            let k = expr::sextend(i.e(*w), 64);
                            let k = expr::bin(X::Mul, k, expr::konst(*scale as u64 as u128, 64));
                            val(expr::bin(X::Add, r.e(64), k))
                        }
                    };
                }
                self.set(s, inst.dst, r);
            }
            I::Alloca(size, align) => {
                let t = &mut s.threads[s.cur];
                let a = align_up(t.sp, (*align).max(16));
                t.sp = a + size + 16;
                t.stack.push(Ent::new(a, vec![0xAA; *size as usize], true));
                if t.sp & 0xffff_ffff > 0x8000_0000 {
                    return Err(Stop::Violation("stack".into(), "stack overflow".into()));
                }
                self.set(s, inst.dst, Val::C(a as u128));
            }
            I::Br(l) => self.goto(s, *l),
            I::CondBr(c, a, b) => {
                let v = self.opd(s, c);
                let v = self.force_val(s, &v)?;
                self.goto(s, if v & 1 == 1 { *a } else { *b });
            }
            I::Switch(w, v, d, cases) => {
                let v = self.opd(s, v);
                let mut to = *d;
                match v {
                    Val::C(c) => {
                        let c = c & expr::mask(*w);
                        if let Some(k) = cases.iter().find(|k| k.0 == c) {
                            to = k.1;
                        }
                    }
                    Val::S(e) => {
                        for (k, l) in cases {
                            if self.force(s, expr::eq(e, expr::konst(*k, *w)))? == 1 {
                                to = *l;
                                break;
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                self.goto(s, to);
            }
            I::Ret(v) => {
                let r = match v {
                    Some((_, o)) => self.opd(s, o),
                    None => Val::C(0),
                };
                let t = &mut s.threads[s.cur];
                let fr = t.frames.pop().unwrap();
                t.stack.truncate(fr.stack_mark);
                t.sp = fr.sp_mark;
                if !t.frames.is_empty() {
                    if let Some(l) = fr.normal {
                        if fr.dst != NONE {
                            t.frames.last_mut().unwrap().regs[fr.dst as usize] = r;
                        }
                        self.goto(s, l);
                    } else {
                        self.set(s, fr.dst, r);
                    }
                }
            }
            I::Unreachable => {
                return Err(Stop::Violation("unreachable".into(), format!("unreachable code reached in {}", self.place(s))))
            }
            I::Select(t, c, a, b, vec) => {
                let r = if *vec {
                    let n = t.count();
                    let w = t.elem(0).width().unwrap();
                    let (c, x, y) = (self.agg(s, c, n), self.agg(s, a, n), self.agg(s, b, n));
                    Val::A(Rc::new(
                        (0..n)
                            .map(|i| match &c[i] {
                                Val::C(k) => (if k & 1 == 1 { &x[i] } else { &y[i] }).clone(),
                                Val::S(e) => val(expr::ite(*e, x[i].e(w), y[i].e(w))),
                                _ => unreachable!(),
                            })
                            .collect(),
                    ))
                } else {
                    match self.opd(s, c) {
                        Val::C(k) => self.opd(s, if k & 1 == 1 { a } else { b }),
                        Val::S(e) => {
                            let (x, y) = (self.opd(s, a), self.opd(s, b));
                            match t.width() {
                                // keep addresses concrete
                                Some(w) if *t != Ty::Ptr => val(expr::ite(e, x.e(w), y.e(w))),
                                _ => {
                                    if self.force(s, e)? == 1 {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                        _ => unreachable!(),
                    }
                };
                self.set(s, inst.dst, r);
            }
            I::Cast(c, from, o, to) => {
                let v = self.opd(s, o);
                let r = match (from, to) {
                    _ if from.width().is_some() && to.width().is_some() => {
                        self.cast1(*c, from.width().unwrap(), to.width().unwrap(), &v)
                    }
                    _ if *c == Cast::Bit => {
                        let f = self.flatten(from, &v);
                        self.unflatten(to, &f)
                    }
                    _ => {
                        let n = from.count();
                        let (fw, tw) = (from.elem(0).width().unwrap(), to.elem(0).width().unwrap());
                        let x = self.agg(s, o, n);
                        Val::A(Rc::new(x.iter().map(|v| self.cast1(*c, fw, tw, v)).collect()))
                    }
                };
                self.set(s, inst.dst, r);
            }
            I::Extract(o, idx) => {
                let mut v = self.opd(s, o);
                for i in idx {
                    v = match v {
                        Val::A(a) => a[*i as usize].clone(),
                        _ => Val::C(0),
                    };
                }
                self.set(s, inst.dst, v);
            }
            I::Insert(t, a, e, idx) => {
                let v = self.opd(s, a);
                let e = self.opd(s, e);
                fn ins(t: &Ty, v: Val, idx: &[u32], e: Val) -> Val {
                    if idx.is_empty() {
                        return e;
                    }
                    let mut a = match v {
                        Val::A(a) => (*a).clone(),
                        _ => vec![Val::C(0); t.count()],
                    };
                    let i = idx[0] as usize;
                    a[i] = ins(&t.elem(i), a[i].clone(), &idx[1..], e);
                    Val::A(Rc::new(a))
                }
                let r = ins(t, v, idx, e);
                self.set(s, inst.dst, r);
            }
            I::ExtractEl(v, i) => {
                let iv = self.opd(s, i);
                let i = self.force_val(s, &iv)? as usize;
                let r = match self.opd(s, v) {
                    Val::A(a) => a[i].clone(),
                    _ => Val::C(0),
                };
                self.set(s, inst.dst, r);
            }
            I::InsertEl(v, e, i) => {
                let iv = self.opd(s, i);
                let i = self.force_val(s, &iv)? as usize;
                let mut a = match self.opd(s, v) {
                    Val::A(a) => (*a).clone(),
                    _ => vec![Val::C(0); 64],
                };
                a[i] = self.opd(s, e);
                self.set(s, inst.dst, Val::A(Rc::new(a)));
            }
            I::Shuffle(t, a, b, mask) => {
                let n = t.count();
                let get = |o: &Opd, s: &State| -> Vec<Val> {
                    match self.opd(s, o) {
                        Val::A(v) => (*v).clone(),
                        _ => vec![Val::C(0); n],
                    }
                };
                let (x, y) = (get(a, s), get(b, s));
                let v = mask
                    .iter()
                    .map(|k| match k {
                        Some(k) if (*k as usize) < n => x[*k as usize].clone(),
                        Some(k) => y[*k as usize - n].clone(),
                        None => Val::C(0),
                    })
                    .collect();
                self.set(s, inst.dst, Val::A(Rc::new(v)));
            }
            I::Rmw(k, t, p, v) => {
                let a = self.addr(s, p)?;
                self.sync_point(s, a, t.size(), true)?;
                let w = t.width().unwrap();
                let old = self.load(s, t, a)?;
                let v = self.opd(s, v);
                let pick = |c: Val, x: &Val, y: &Val| -> Val {
                    match c {
                        Val::C(1) => x.clone(),
                        Val::C(_) => y.clone(),
                        Val::S(e) => val(expr::ite(e, x.e(w), y.e(w))),
                        _ => unreachable!(),
                    }
                };
                let new = match k {
                    Rmw::Xchg => v.clone(),
                    Rmw::Add => self.bin(s, X::Add, w, &old, &v)?,
                    Rmw::Sub => self.bin(s, X::Sub, w, &old, &v)?,
                    Rmw::And => self.bin(s, X::And, w, &old, &v)?,
                    Rmw::Or => self.bin(s, X::Or, w, &old, &v)?,
                    Rmw::Xor => self.bin(s, X::Xor, w, &old, &v)?,
                    Rmw::Nand => {
                        let x = self.bin(s, X::And, w, &old, &v)?;
                        self.bin(s, X::Xor, w, &x, &Val::C(expr::mask(w)))?
                    }
                    Rmw::UMax => pick(self.icmp(Pred::Ugt, w, &old, &v), &old, &v),
                    Rmw::UMin => pick(self.icmp(Pred::Ult, w, &old, &v), &old, &v),
                    Rmw::Max => pick(self.icmp(Pred::Sgt, w, &old, &v), &old, &v),
                    Rmw::Min => pick(self.icmp(Pred::Slt, w, &old, &v), &old, &v),
                };
                self.store(s, t, a, &new)?;
                self.set(s, inst.dst, old);
            }
            I::CmpXchg(t, p, e, n) => {
                let a = self.addr(s, p)?;
                self.sync_point(s, a, t.size(), true)?;
                let w = t.width().unwrap();
                let old = self.load(s, t, a)?;
                let (e, n) = (self.opd(s, e), self.opd(s, n));
                let c = self.icmp(Pred::Eq, w, &old, &e);
                let c = self.force_val(s, &c)?;
                if c == 1 {
                    self.store(s, t, a, &n)?;
                }
                self.set(s, inst.dst, Val::A(Rc::new(vec![old, Val::C(c)])));
            }
            I::Fence => self.set(s, NONE, Val::C(0)),
            I::Copy(o) => {
                let v = self.opd(s, o);
                self.set(s, inst.dst, v);
            }
            I::Unsupported(t) => return Err(Stop::Inconclusive(format!("unsupported instruction: {t}"))),
            I::Call { callee, ret, args, normal } => return self.call(s, inst, callee, ret, args, *normal),
        }
        Ok(())
    }

    fn done(&mut self, s: &mut State, inst: &Inst, normal: Option<u32>, v: Val) -> R<()> {
        match normal {
            Some(l) => {
                let cur = s.cur;
                if inst.dst != NONE {
                    s.threads[cur].frames.last_mut().unwrap().regs[inst.dst as usize] = v;
                }
                self.goto(s, l);
            }
            None => self.set(s, inst.dst, v),
        }
        Ok(())
    }

    fn call(
        &mut self,
        s: &mut State,
        inst: &'static Inst,
        callee: &Callee,
        ret: &Ty,
        args: &[(Ty, Opd)],
        normal: Option<u32>,
    ) -> R<()> {
        let f = match callee {
            Callee::Intrinsic(Intr::Pause) => {
                // a spinning thread lets another one run
                self.done(s, inst, normal, Val::C(0))?;
                return if s.threads.len() > 1 { self.switch_away(s) } else { Ok(()) };
            }
            Callee::Nop => return self.done(s, inst, normal, Val::C(0)),
            Callee::Intrinsic(k) => {
                let v = self.intrinsic(s, *k, args)?;
                return self.done(s, inst, normal, v);
            }
            Callee::Extern(n) => return self.external(s, inst, n, ret, args, normal),
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let a = self.addr(s, o)?;
                match self.m.faddr.get(&a) {
                    Some(f) => *f,
                    None => match self.m.extern_addr.get(&a) {
                        Some(n) => {
                            let n: &'static str = n;
                            return self.external(s, inst, n, ret, args, normal);
                        }
                        None => {
                            return Err(Stop::Violation("memory".into(), format!("call through {a:#x} in {}", self.place(s))))
                        }
                    },
                }
            }
        };
        self.st.funcs[f as usize] = true;
        match self.hooks[f as usize] {
            Hooked::No => {}
            Hooked::NoUnwind => return self.done(s, inst, normal, Val::C(0)),
            Hooked::Abort => return Err(Stop::Violation("abort".into(), format!("abort in {}", self.place(s)))),
            Hooked::Panic => {
                let info = self.addr(s, &args[0].1)?;
                let text = self.panic_text(s, info);
                return self.panicked(s, text);
            }
        }
        let vals: Vec<Val> = args.iter().map(|(_, o)| self.opd(s, o)).collect();
        if s.threads[s.cur].frames.len() > 400 {
            return Err(Stop::Violation("stack".into(), "stack overflow".into()));
        }
        // the caller resumes after the call: `set` or `goto` move its ip on return
        self.push(s, s.cur, f, vals, inst.dst, normal);
        Ok(())
    }

    fn panicked(&mut self, s: &mut State, text: String) -> R<()> {
        match s.hook.take() {
            Some((f, a)) if s.cur == 0 => {
                self.st.panics_hooked += 1;
                let Some(&f) = self.m.faddr.get(&f) else {
                    return Err(Stop::Inconclusive("panic hook is not a function".into()));
                };
                // unwinding without destructors: the frames go, their stack objects stay readable
                s.threads[0].frames.clear();
                self.push(s, 0, f, vec![Val::C(a as u128)], NONE, None);
                Ok(())
            }
            _ => Err(Stop::Violation("panic".into(), text)),
        }
    }

    fn intrinsic(&mut self, s: &mut State, k: Intr, args: &[(Ty, Opd)]) -> R<Val> {
        if let Some((Ty::Vector(n, et), _)) = args.first() {
            use Intr::*;
            if matches!(k, UAddO | USubO | UMulO | SAddO | SSubO | SMulO | IsConstant) {
                return Err(Stop::Inconclusive(format!("vector intrinsic {k:?}")));
            }
            // lane by lane
            let n = *n as usize;
            let lanes: Vec<Vec<Val>> = args
                .iter()
                .map(|(t, o)| match t {
                    Ty::Vector(..) => self.agg(s, o, n).to_vec(),
                    _ => vec![self.opd(s, o); n],
                })
                .collect();
            let mut r = vec![];
            for i in 0..n {
                let v = lanes.iter().map(|l| l[i].clone()).collect();
                r.push(self.scalar_intrinsic(s, k, et.width().unwrap_or(0), v)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let v: Vec<Val> = args.iter().map(|(_, o)| self.opd(s, o)).collect();
        let w = args.first().and_then(|a| a.0.width()).unwrap_or(0);
        self.scalar_intrinsic(s, k, w, v)
    }
    fn scalar_intrinsic(&mut self, s: &mut State, k: Intr, w: u16, v: Vec<Val>) -> R<Val> {
        let pick = |c: Val, x: Val, y: Val| -> Val {
            match c {
                Val::C(1) => x,
                Val::C(_) => y,
                Val::S(e) => val(expr::ite(e, x.e(w), y.e(w))),
                _ => unreachable!(),
            }
        };
        Ok(match k {
            Intr::Memcpy => {
                let d = self.force_val(s, &v[0])? as u64;
                let p = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as usize;
                self.copy(s, d, p, n)?;
                Val::C(0)
            }
            Intr::Memset => {
                let d = self.force_val(s, &v[0])? as u64;
                let n = self.force_val(s, &v[2])? as usize;
                if n > 0 {
                    let (o, off) = self.obj_mut(s, d, n)?;
                    match &v[1] {
                        Val::C(c) => {
                            o.bytes[off..off + n].fill(*c as u8);
                            if let Some(y) = &mut o.sym {
                                y[off..off + n].fill((NOSYM, 0));
                            }
                        }
                        x => {
                            for i in 0..n {
                                o.store(off + i, 1, x);
                            }
                        }
                    }
                }
                Val::C(0)
            }
            Intr::UMax => pick(self.icmp(Pred::Ugt, w, &v[0], &v[1]), v[0].clone(), v[1].clone()),
            Intr::UMin => pick(self.icmp(Pred::Ult, w, &v[0], &v[1]), v[0].clone(), v[1].clone()),
            Intr::SMax => pick(self.icmp(Pred::Sgt, w, &v[0], &v[1]), v[0].clone(), v[1].clone()),
            Intr::SMin => pick(self.icmp(Pred::Slt, w, &v[0], &v[1]), v[0].clone(), v[1].clone()),
            Intr::USubSat => {
                let d = self.bin(s, X::Sub, w, &v[0], &v[1])?;
                pick(self.icmp(Pred::Ult, w, &v[0], &v[1]), Val::C(0), d)
            }
            Intr::UAddSat => {
                let d = self.bin(s, X::Add, w, &v[0], &v[1])?;
                pick(self.icmp(Pred::Ult, w, &d, &v[0]), Val::C(expr::mask(w)), d.clone())
            }
            Intr::UAddO => {
                let d = self.bin(s, X::Add, w, &v[0], &v[1])?;
                let o = self.icmp(Pred::Ult, w, &d, &v[0]);
                Val::A(Rc::new(vec![d, o]))
            }
            Intr::USubO => {
                let d = self.bin(s, X::Sub, w, &v[0], &v[1])?;
                let o = self.icmp(Pred::Ult, w, &v[0], &v[1]);
                Val::A(Rc::new(vec![d, o]))
            }
            Intr::UMulO => {
                if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
                    let (r, o) = a.overflowing_mul(*b);
                    return Ok(Val::A(Rc::new(vec![Val::C(r & expr::mask(w)), Val::C((o || r > expr::mask(w)) as u128)])));
                }
                if w > 64 {
                    return Err(Stop::Inconclusive("wide multiplication".into()));
                }
                let (a, b) = (expr::zext(v[0].e(w), 2 * w), expr::zext(v[1].e(w), 2 * w));
                let p = expr::bin(X::Mul, a, b);
                let o = expr::not(expr::eq(expr::extract(p, w, w), expr::konst(0, w)));
                Val::A(Rc::new(vec![val(expr::extract(p, 0, w)), val(o)]))
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return Err(Stop::Inconclusive("wide signed arithmetic".into()));
                }
                let op = match k {
                    Intr::SAddO => X::Add,
                    Intr::SSubO => X::Sub,
                    _ => X::Mul,
                };
                let (a, b) = (expr::sextend(v[0].e(w), 2 * w), expr::sextend(v[1].e(w), 2 * w));
                let p = expr::bin(op, a, b);
                let r = expr::extract(p, 0, w);
                let o = expr::not(expr::eq(expr::sextend(r, 2 * w), p));
                Val::A(Rc::new(vec![val(r), val(o)]))
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::BitReverse if matches!(v[0], Val::S(_)) => {
                let e = v[0].e(w);
                let bits: Vec<expr::E> = (0..w).map(|i| expr::extract(e, i, 1)).collect();
                val(match k {
                    Intr::Ctlz => (0..w).fold(expr::konst(w as u128, w), |r, i| {
                        expr::ite(bits[i as usize], expr::konst((w - 1 - i) as u128, w), r)
                    }),
                    Intr::Cttz => (0..w).rev().fold(expr::konst(w as u128, w), |r, i| {
                        expr::ite(bits[i as usize], expr::konst(i as u128, w), r)
                    }),
                    Intr::Ctpop => bits
                        .iter()
                        .fold(expr::konst(0, w), |r, b| expr::bin(X::Add, r, expr::zext(*b, w))),
                    _ => bits[1..].iter().fold(bits[0], |r, b| expr::concat(r, *b)),
                })
            }
            Intr::FAbs => self.bin(s, X::And, w, &v[0], &Val::C(expr::mask(w) >> 1))?,
            Intr::CopySign => {
                let a = self.bin(s, X::And, w, &v[0], &Val::C(expr::mask(w) >> 1))?;
                let b = self.bin(s, X::And, w, &v[1], &Val::C(1 << (w - 1)))?;
                self.bin(s, X::Or, w, &a, &b)?
            }
            Intr::IsFpClass => {
                let test = self.force_val(s, &v[1])?;
                let (m, inf) = float_parts(w)?;
                let e = v[0].e(w);
                let neg = expr::extract(e, w - 1, 1);
                let mag = expr::zext(expr::extract(e, 0, w - 1), w);
                let k = |x: u128| expr::konst(x, w);
                let quiet = expr::extract(e, m - 1, 1);
                let nan = expr::ult(k(inf), mag);
                let is_inf = expr::eq(mag, k(inf));
                let zero = expr::eq(mag, k(0));
                let sub = expr::and(expr::not(zero), expr::ult(mag, k(1 << m)));
                let normal = expr::and(expr::not(expr::ult(mag, k(1 << m))), expr::ult(mag, k(inf)));
                let pos = expr::not(neg);
                let classes = [
                    expr::and(nan, expr::not(quiet)),
                    expr::and(nan, quiet),
                    expr::and(is_inf, neg),
                    expr::and(normal, neg),
                    expr::and(sub, neg),
                    expr::and(zero, neg),
                    expr::and(zero, pos),
                    expr::and(sub, pos),
                    expr::and(normal, pos),
                    expr::and(is_inf, pos),
                ];
                let mut r = expr::konst(0, 1);
                for (i, c) in classes.iter().enumerate() {
                    if test >> i & 1 == 1 {
                        r = expr::or(r, *c);
                    }
                }
                val(r)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::BitReverse => {
                let x = self.force_val(s, &v[0])? & expr::mask(w);
                let w32 = w as u32;
                Val::C(match k {
                    Intr::Ctlz => {
                        if x == 0 {
                            w as u128
                        } else {
                            (x.leading_zeros() - (128 - w32)) as u128
                        }
                    }
                    Intr::Cttz => {
                        if x == 0 {
                            w as u128
                        } else {
                            x.trailing_zeros() as u128
                        }
                    }
                    Intr::Ctpop => x.count_ones() as u128,
                    _ => x.reverse_bits() >> (128 - w32),
                })
            }
            Intr::Bswap => {
                let n = w / 8;
                let e = v[0].e(w);
                let mut r = expr::extract(e, 0, 8);
                for i in 1..n {
                    r = expr::concat(r, expr::extract(e, 8 * i, 8));
                }
                val(r)
            }
            Intr::Fshl | Intr::Fshr => {
                let sh = (self.force_val(s, &v[2])? % w as u128) as u16;
                let (a, b) = (v[0].e(w), v[1].e(w));
                if sh == 0 {
                    return Ok(if k == Intr::Fshl { v[0].clone() } else { v[1].clone() });
                }
                let l = if k == Intr::Fshl { sh } else { w - sh };
                val(expr::concat(expr::extract(a, 0, w - l), expr::extract(b, w - l, l)))
            }
            Intr::UCmp | Intr::SCmp => {
                let (lt, gt) = if k == Intr::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &v[0], &v[1]);
                let g = self.icmp(gt, w, &v[0], &v[1]);
                let (l, g) = (self.force_val(s, &l)?, self.force_val(s, &g)?);
                // all result widths are cut to size by their uses
                Val::C(if l == 1 {
                    0xff
                } else {
                    g
                })
            }
            Intr::Abs => {
                let n = self.bin(s, X::Sub, w, &Val::C(0), &v[0])?;
                pick(self.icmp(Pred::Slt, w, &v[0], &Val::C(0)), n, v[0].clone())
            }
            Intr::IsConstant => Val::C(0),
            Intr::Expect => v[0].clone(),
            Intr::ThreadLocal => {
                let a = self.force_val(s, &v[0])? as u64;
                Val::C((a + ((s.cur as u64) << 32)) as u128)
            }
            Intr::Trap => return Err(Stop::Violation("abort".into(), format!("trap in {}", self.place(s)))),
            Intr::Pause => unreachable!(),
        })
    }

    fn external(
        &mut self,
        s: &mut State,
        inst: &'static Inst,
        name: &str,
        _ret: &Ty,
        args: &[(Ty, Opd)],
        normal: Option<u32>,
    ) -> R<()> {
        let v: Vec<Val> = args.iter().map(|(_, o)| self.opd(s, o)).collect();
        let r = match name {
            // ---- the harness interface
            "sym_u32" => Val::S(self.symbol(s, 32)),
            // any value below a constant, in as few bits as that takes
            "sym_below" => {
                let n = self.force_val(s, &v[0])? as u32;
                if n <= 1 {
                    s.inputs.push(Input::Const(0));
                    Val::C(0)
                } else {
                    let w = 32 - (n - 1).leading_zeros() as u16;
                    let e = self.symbol(s, w);
                    if n & (n - 1) != 0 {
                        self.assume(s, expr::ult(e, expr::konst(n as u128, w)));
                    }
                    val(expr::zext(e, 32))
                }
            }
            // the same, with a path of its own for every value
            "sym_pick" => {
                let n = (self.force_val(s, &v[0])? as u32).max(1);
                for k in (1..n).rev() {
                    let mut alt = s.clone();
                    alt.inputs.push(Input::Const(k));
                    alt.depth += 1;
                    self.done(&mut alt, inst, normal, Val::C(k as u128))?;
                    self.st.forks += 1;
                    self.work.push_back(alt);
                }
                if n > 1 {
                    s.depth += 1;
                }
                s.inputs.push(Input::Const(0));
                Val::C(0)
            }
            "sym_assume" => {
                let w = args[0].0.width().unwrap();
                let c = match &v[0] {
                    Val::C(c) => {
                        if *c == 0 {
                            return Err(Stop::Killed);
                        }
                        return self.done(s, inst, normal, Val::C(0));
                    }
                    x => expr::not(expr::eq(x.e(w), expr::konst(0, w))),
                };
                if expr::eval(c, &s.model) != 1 {
                    match self.solver.check(&s.pc, &[c], s.bound, &s.model) {
                        Answer::Sat(m) => s.model = m,
                        Answer::Unsat => return Err(Stop::Killed),
                    }
                }
                self.assume(s, c);
                Val::C(0)
            }
            "sym_assert" => {
                let w = args[0].0.width().unwrap();
                let p = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as u64;
                self.st.asserts += 1;
                match &v[0] {
                    Val::C(0) => {
                        let msg = self.string(s, p, n)?;
                        return Err(Stop::Violation("assert".into(), msg));
                    }
                    Val::C(_) => {}
                    x => {
                        self.st.asserts_symbolic += 1;
                        let c = expr::not(expr::eq(x.e(w), expr::konst(0, w)));
                        let nc = expr::not(c);
                        if let Answer::Sat(m) = self.solver.check(&s.pc, &[nc], s.bound, &s.model) {
                            let msg = self.string(s, p, n)?;
                            let mut bad = s.clone();
                            bad.model = m;
                            self.finding(&bad, "assert", &msg);
                            if expr::eval(c, &s.model) != 1 {
                                match self.solver.check(&s.pc, &[c], s.bound, &s.model) {
                                    Answer::Sat(m) => s.model = m,
                                    Answer::Unsat => return Err(Stop::Killed),
                                }
                            }
                            self.assume(s, c);
                        }
                    }
                }
                Val::C(0)
            }
            "sym_cover" => {
                let w = args[0].0.width().unwrap();
                let p = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as u64;
                let msg = self.string(s, p, n)?;
                if !self.st.covers.contains(&msg) {
                    let hit = match &v[0] {
                        Val::C(c) => *c != 0,
                        x => {
                            let c = expr::not(expr::eq(x.e(w), expr::konst(0, w)));
                            matches!(self.solver.check(&s.pc, &[c], s.bound, &s.model), Answer::Sat(_))
                        }
                    };
                    if hit {
                        self.st.covers.insert(msg);
                    }
                }
                Val::C(0)
            }
            "sym_trace" => {
                s.trace.push(v[0].clone());
                Val::C(0)
            }
            "sym_on_panic" => {
                let f = self.force_val(s, &v[0])? as u64;
                let a = self.force_val(s, &v[1])? as u64;
                s.hook = if f == 0 { None } else { Some((f, a)) };
                Val::C(0)
            }
            "sym_spawn" => {
                let f = self.force_val(s, &v[0])? as u64;
                let Some(&f) = self.m.faddr.get(&f) else {
                    return Err(Stop::Inconclusive("spawn of a non-function".into()));
                };
                let t = self.spawn(s, f, vec![v[1].clone()]);
                Val::C(t as u128)
            }
            "sym_join" => {
                let t = self.force_val(s, &v[0])? as usize;
                if s.threads[t].status != Status::Done {
                    let cur = s.cur;
                    s.threads[cur].status = Status::Join(t);
                    self.done(s, inst, normal, Val::C(0))?;
                    return self.switch_away(s);
                }
                Val::C(0)
            }
            // ---- libc
            "malloc" => {
                let n = self.force_val(s, &v[0])? as u64;
                self.check_size(n)?;
                Val::C(self.alloc(s, n, 16, false) as u128)
            }
            "calloc" => {
                let n = self.force_val(s, &v[0])? as u64;
                let k = self.force_val(s, &v[1])? as u64;
                let n = n.saturating_mul(k);
                self.check_size(n)?;
                Val::C(self.alloc(s, n, 16, true) as u128)
            }
            "realloc" => {
                let p = self.force_val(s, &v[0])? as u64;
                let n = self.force_val(s, &v[1])? as u64;
                self.check_size(n)?;
                let a = self.alloc(s, n, 16, false);
                if p != 0 {
                    let old = match find(&s.heap, p) {
                        Some(k) if s.heap[k].base == p => s.heap[k].size,
                        _ => return Err(self.bad(s, "realloc of a pointer that was not allocated", p, 0)),
                    };
                    self.copy(s, a, p, old.min(n) as usize)?;
                    self.free(s, p)?;
                }
                Val::C(a as u128)
            }
            "posix_memalign" => {
                let out = self.force_val(s, &v[0])? as u64;
                let al = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as u64;
                self.check_size(n)?;
                let a = self.alloc(s, n, al, false);
                self.store(s, &Ty::Ptr, out, &Val::C(a as u128))?;
                Val::C(0)
            }
            "aligned_alloc" => {
                let al = self.force_val(s, &v[0])? as u64;
                let n = self.force_val(s, &v[1])? as u64;
                self.check_size(n)?;
                Val::C(self.alloc(s, n, al, false) as u128)
            }
            "free" => {
                let p = self.force_val(s, &v[0])? as u64;
                self.free(s, p)?;
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let a = self.force_val(s, &v[0])? as u64;
                let b = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as usize;
                let mut r = expr::konst(1, 1);
                let mut order = 0i32;
                let mut k = 0;
                while k < n {
                    let step = if n - k >= 4 && name == "bcmp" { 4 } else { 1 };
                    let t = Ty::Int(8 * step as u16);
                    let x = self.load(s, &t, a + k as u64)?;
                    let y = self.load(s, &t, b + k as u64)?;
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        if p != q {
                            order = if p < q { -1 } else { 1 };
                            r = expr::konst(0, 1);
                            break;
                        }
                    } else {
                        if name == "memcmp" {
                            return Err(Stop::Inconclusive("memcmp of symbolic bytes".into()));
                        }
                        r = expr::and(r, expr::eq(x.e(t.width().unwrap()), y.e(t.width().unwrap())));
                    }
                    k += step;
                }
                if name == "memcmp" {
                    Val::C(order as u32 as u128)
                } else {
                    val(expr::zext(expr::not(r), 32))
                }
            }
            "memcpy" | "memmove" => {
                let d = self.force_val(s, &v[0])? as u64;
                let p = self.force_val(s, &v[1])? as u64;
                let n = self.force_val(s, &v[2])? as usize;
                self.copy(s, d, p, n)?;
                v[0].clone()
            }
            "strlen" => {
                let p = self.force_val(s, &v[0])? as u64;
                Val::C(self.cstr(s, p)?.len() as u128)
            }
            "getenv" => Val::C(0),
            "__errno_location" => Val::C((TLS_BASE + ((s.cur as u64) << 32) + 0x1000_0000) as u128),
            "pthread_key_create" => {
                let p = self.force_val(s, &v[0])? as u64;
                self.store(s, &Ty::Int(32), p, &Val::C(7))?;
                Val::C(0)
            }
            "pthread_setspecific" | "pthread_key_delete" => Val::C(0),
            "sched_yield" => {
                self.done(s, inst, normal, Val::C(0))?;
                return self.switch_away(s);
            }
            "gettid" => Val::C(1000 + s.cur as u128),
            "abort" => return Err(Stop::Violation("abort".into(), format!("abort in {}", self.place(s)))),
            "syscall" => {
                let nr = self.force_val(s, &v[0])?;
                if nr != 202 {
                    return Err(Stop::Inconclusive(format!("system call {nr}")));
                }
                let addr = self.force_val(s, &v[1])? as u64;
                let op = self.force_val(s, &v[2])? & 0x7f;
                match op {
                    // FUTEX_WAIT, FUTEX_WAIT_BITSET
                    0 | 9 => {
                        self.sync_point(s, addr, 4, false)?;
                        let cur = s.cur;
                        let w = self.load(s, &Ty::Int(32), addr)?;
                        let w = self.force_val(s, &w)?;
                        let expect = self.force_val(s, &v[3])? & 0xffff_ffff;
                        if w != expect {
                            let e = TLS_BASE + ((cur as u64) << 32) + 0x1000_0000;
                            self.store(s, &Ty::Int(32), e, &Val::C(11))?;
                            Val::C(u64::MAX as u128)
                        } else {
                            s.threads[cur].status = Status::Futex(addr);
                            self.done(s, inst, normal, Val::C(0))?;
                            return self.switch_away(s);
                        }
                    }
                    // FUTEX_WAKE
                    1 | 10 => {
                        self.sync_point(s, addr, 4, true)?;
                        let n = self.force_val(s, &v[3])? as u32 as u64;
                        let mut k = 0;
                        for t in s.threads.iter_mut() {
                            if k < n && t.status == Status::Futex(addr) {
                                t.status = Status::Runnable;
                                k += 1;
                            }
                        }
                        Val::C(k as u128)
                    }
                    _ => return Err(Stop::Inconclusive(format!("futex operation {op}"))),
                }
            }
            _ => return Err(Stop::Inconclusive(format!("external function {name}"))),
        };
        self.done(s, inst, normal, r)
    }
    fn symbol(&self, s: &mut State, w: u16) -> E {
        let i = s.syms.len();
        s.syms.push(w);
        s.inputs.push(Input::Sym(i));
        s.model.resize(i + 1, 0);
        expr::sym(i, w)
    }
    fn check_size(&self, n: u64) -> R<()> {
        if n > 1 << 24 {
            return Err(Stop::Violation("allocation".into(), format!("allocation of {n} bytes")));
        }
        Ok(())
    }
}

fn kval(k: &K) -> Val {
    match k {
        K::I(v) => Val::C(*v),
        K::Zero => Val::C(0),
        K::A(v) => Val::A(Rc::new(v.iter().map(kval).collect())),
        K::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
    }
}
/// The integer a vector of elements narrower than a byte is packed into in memory.
fn bitvec(t: &Ty) -> Option<Ty> {
    match t {
        Ty::Vector(n, et) if et.width()? % 8 != 0 => Some(Ty::Int(*n as u16 * et.width()?)),
        _ => None,
    }
}
/// The number of mantissa bits, and the bits of infinity.
fn float_parts(w: u16) -> R<(u16, u128)> {
    match w {
        32 => Ok((23, 0x7f80_0000)),
        64 => Ok((52, 0x7ff0_0000_0000_0000)),
        _ => Err(Stop::Inconclusive(format!("a float of {w} bits"))),
    }
}
/// A comparison of floats by their bits; `k` is the set of the outcomes less, equal, greater, unordered.
fn fcmp(k: u8, w: u16, x: &Val, y: &Val) -> R<Val> {
    let (_, inf) = float_parts(w)?;
    let (a, b) = (x.e(w), y.e(w));
    let mag = |e| expr::zext(expr::extract(e, 0, w - 1), w);
    let neg = |e| expr::extract(e, w - 1, 1);
    let nan = expr::or(expr::ult(expr::konst(inf, w), mag(a)), expr::ult(expr::konst(inf, w), mag(b)));
    let zeros = expr::eq(expr::bin(X::Or, mag(a), mag(b)), expr::konst(0, w));
    let eq = expr::or(zeros, expr::eq(a, b));
    // not equal, not NaN
    let same_sign = expr::ite(neg(a), expr::ult(mag(b), mag(a)), expr::ult(mag(a), mag(b)));
    let lt = expr::ite(expr::eq(neg(a), neg(b)), same_sign, neg(a));
    let ord = expr::not(nan);
    let sets = [
        expr::and(ord, expr::and(expr::not(eq), lt)),
        expr::and(ord, eq),
        expr::and(ord, expr::and(expr::not(eq), expr::not(lt))),
        nan,
    ];
    Ok(val((0..4).filter(|i| k >> i & 1 == 1).fold(expr::konst(0, 1), |r, i| expr::or(r, sets[i]))))
}
#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn floats() {
        let xs = [0.0f32, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, 1e-42, -1e-42, 2.5, -2.5];
        for a in xs {
            for b in xs {
                let o = match a.partial_cmp(&b) {
                    Some(std::cmp::Ordering::Less) => 1,
                    Some(std::cmp::Ordering::Equal) => 2,
                    Some(std::cmp::Ordering::Greater) => 4,
                    None => 8,
                };
                for k in 0..16u8 {
                    let Ok(Val::C(r)) = fcmp(k, 32, &Val::C(a.to_bits() as u128), &Val::C(b.to_bits() as u128)) else {
                        panic!()
                    };
                    assert_eq!(r == 1, k & o != 0, "{a} {b} {k}");
                }
            }
        }
    }
}
