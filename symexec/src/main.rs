//! symexec MODULE.ll ENTRY [options]: executes ENTRY symbolically, decides every branch and assertion with z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn location(m: &ir::Module, dbg: u32) -> Option<(String, u32, String)> {
    let field = |l: &str, k: &str| -> Option<String> {
        let i = l.find(&format!("{k}: "))? + k.len() + 2;
        let r = &l[i..];
        Some(if let Some(q) = r.strip_prefix('"') {
            q[..q.find('"')?].to_string()
        } else {
            r[..r.find(|c| c == ',' || c == ')')?].to_string()
        })
    };
    let l = m.md.get(&dbg)?;
    let line: u32 = field(l, "line")?.parse().ok()?;
    let mut sc: u32 = field(l, "scope")?.strip_prefix('!')?.parse().ok()?;
    for _ in 0..30 {
        let l = m.md.get(&sc)?;
        if l.contains("DISubprogram") {
            let f: u32 = field(l, "file")?.strip_prefix('!')?.parse().ok()?;
            let fl = m.md.get(&f)?;
            let (name, dir) = (field(fl, "filename")?, field(fl, "directory").unwrap_or_default());
            let path = if name.starts_with('/') { name } else { format!("{dir}/{name}") };
            return Some((path, line, field(l, "name")?));
        }
        sc = field(l, "scope")?.strip_prefix('!')?.parse().ok()?;
    }
    None
}

fn emit(ex: &Exec, out: &mut dyn Write) {
    let s = &ex.st;
    for (k, v) in [
        ("paths", s.paths),
        ("killed", s.killed),
        ("instructions", s.insts),
        ("forks", s.forks),
        ("asserts", s.asserts),
        ("asserts_symbolic", s.asserts_symbolic),
        ("panics_hooked", s.panics_hooked),
        ("switches", s.switches),
        ("schedules_pruned", s.pruned),
        ("queries", ex.solver.queries),
        ("queries_cached", ex.solver.cached),
        ("queries_enumerated", ex.solver.enumerated),
        ("queries_simplified", ex.solver.simplified),
        ("sat", ex.solver.sat),
        ("unsat", ex.solver.unsat),
        ("solver_us", (ex.solver.time * 1e6) as u64),
        ("expressions", expr::cx().nodes.len() as u64),
    ] {
        writeln!(out, "N {k} {v}").unwrap();
    }
    for c in &s.covers {
        writeln!(out, "C {c}").unwrap();
    }
    for f in &s.findings {
        writeln!(out, "V {f}").unwrap();
    }
    for f in &s.samples {
        writeln!(out, "S {f}").unwrap();
    }
    for (k, n) in &s.inconclusive {
        writeln!(out, "I {n} {k}").unwrap();
    }
    let mut seen = std::collections::BTreeSet::new();
    for (i, hit) in s.dbg.iter().enumerate() {
        if *hit {
            if let Some((f, l, n)) = location(ex.m, i as u32) {
                if f.contains("/repo/") {
                    seen.insert((f, n, l));
                }
            }
        }
    }
    for (f, n, l) in seen {
        writeln!(out, "L {f}:{l} {n}").unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: u64| -> u64 {
        args.iter().position(|a| a == k).map_or(d, |i| args[i + 1].parse().expect("number"))
    };
    let text = std::fs::read_to_string(&args[1]).expect("module");
    let entry = args[2].clone();
    let jobs = opt("--jobs", 8) as usize;
    let limit = Duration::from_secs(opt("--time", 600));
    let start = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse(&text)));
    drop(text);
    let lim = Limits {
        steps: opt("--steps", 20_000_000),
        preempt: opt("--preempt", 2) as u32,
        findings: 20,
        samples: opt("--samples", 3) as usize,
        values: 64,
    };
    let mut ex = Exec::new(m, lim);
    let init = ex.initial(&entry);
    ex.work.push_back(init);
    // breadth first until there is enough to share
    let share = 20 * jobs;
    let mut stop_early = false;
    while let Some(s) = ex.work.pop_front() {
        ex.run(s);
        if jobs > 1 && (ex.work.len() >= share || (ex.work.len() >= 2 * jobs && start.elapsed() > Duration::from_millis(1000))) {
            break;
        }
        if ex.st.findings.len() >= 6 {
            stop_early = true;
            break;
        }
        if start.elapsed() > limit {
            break;
        }
    }
    let mut pending: Vec<Option<State>> = std::mem::take(&mut ex.work).into_iter().map(Some).collect();
    if pending.is_empty() || stop_early || start.elapsed() > limit {
        if !pending.is_empty() {
            *ex.st.inconclusive.entry("paths not explored".into()).or_default() += pending.len() as u64;
        }
        emit(&ex, &mut std::io::stdout());
        println!("E done");
        return;
    }
    // shared: next index, findings so far
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
    let next = unsafe { &*shared };
    let found = unsafe { &*shared.add(1) };
    found.store(ex.st.findings.len(), std::sync::atomic::Ordering::SeqCst);
    let mut files = vec![];
    let mut pids = vec![];
    std::io::stdout().flush().unwrap();
    for w in 0..jobs {
        let file = format!("{}.{}.{}", args[1], std::process::id(), w);
        files.push(file.clone());
        let pid = unsafe { fork() };
        if pid == 0 {
            // what the parent did is reported by the parent
            ex.st = Stats { dbg: vec![false; ex.st.dbg.len()], funcs: vec![false; ex.st.funcs.len()], ..Default::default() };
            ex.solver = solver::Solver::new();
            let mut out_of_time = 0;
            'outer: loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= pending.len() {
                    break;
                }
                // the shallow states first are the big ones
                let s = pending[i].take().unwrap();
                ex.work.push_back(s);
                while let Some(s) = ex.work.pop_back() {
                    let before = ex.st.findings.len();
                    ex.run(s);
                    let new = ex.st.findings.len() - before;
                    if new > 0 {
                        found.fetch_add(new, std::sync::atomic::Ordering::SeqCst);
                    }
                    if start.elapsed() > limit {
                        out_of_time += ex.work.len() + 1;
                        ex.work.clear();
                        break 'outer;
                    }
                    if found.load(std::sync::atomic::Ordering::SeqCst) >= 12 {
                        *ex.st.inconclusive.entry("stopped after 12 findings".into()).or_default() += 1;
                        break 'outer;
                    }
                }
            }
            if out_of_time > 0 {
                *ex.st.inconclusive.entry("time limit".into()).or_default() += out_of_time as u64;
            }
            let mut f = std::io::BufWriter::new(std::fs::File::create(&file).unwrap());
            emit(&ex, &mut f);
            writeln!(f, "E done").unwrap();
            f.flush().unwrap();
            std::process::exit(0);
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in &pids {
        let mut st = 0;
        unsafe { waitpid(*p, &mut st, 0) };
        if st != 0 {
            ok = false;
            for q in &pids {
                unsafe { kill(*q, 15) };
            }
        }
    }
    emit(&ex, &mut std::io::stdout());
    for f in files {
        match std::fs::read_to_string(&f) {
            Ok(t) => {
                let _ = std::fs::remove_file(&f);
                let mut done = false;
                for l in t.lines() {
                    if l == "E done" {
                        done = true;
                    } else {
                        println!("{l}");
                    }
                }
                ok &= done;
            }
            Err(_) => ok = false,
        }
    }
    println!("{}", if ok { "E done" } else { "E a worker failed" });
}
