//! What a harness is written in. Under `sym` these are the symbolic executor's primitives; natively the values
//! come from a file and the checks are real checks, so that every path the executor reports can be run.

/// Exit codes of the native run.
pub const FAILED: i32 = 101;
pub const ASSUMPTION: i32 = 77;

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_u32(tag: u32) -> u32;
        fn sym_below(n: u32) -> u32;
        fn sym_pick(n: u32) -> u32;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, p: *const u8, n: usize);
        fn sym_cover(c: bool, p: *const u8, n: usize);
        fn sym_trace(v: u32);
        fn sym_on_panic(f: Option<extern "C" fn(usize)>, arg: usize);
        fn sym_spawn(f: extern "C" fn(usize), arg: usize) -> u32;
        fn sym_join(t: u32);
    }
    pub fn any() -> u32 {
        unsafe { sym_u32(0) }
    }
    pub fn below(n: u32) -> u32 {
        unsafe { sym_below(n) }
    }
    pub fn pick(n: u32) -> u32 {
        unsafe { sym_pick(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn cover(c: bool, m: &'static str) {
        unsafe { sym_cover(c, m.as_ptr(), m.len()) }
    }
    pub fn trace(v: u32) {
        unsafe { sym_trace(v) }
    }
    /// Runs `f`; if it panics, the run continues at `after` and never comes back here.
    /// The state that `after` looks at is behind `arg`.
    pub fn may_panic(f: impl FnOnce(), after: extern "C" fn(usize), arg: usize) {
        unsafe {
            sym_on_panic(Some(after), arg);
            f();
            sym_on_panic(None, 0);
        }
        after(arg)
    }
    pub struct Thread(u32);
    extern "C" fn run(p: usize) {
        let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
        f()
    }
    pub fn spawn(f: impl FnOnce() + Send + 'static) -> Thread {
        let b: Box<Box<dyn FnOnce()>> = Box::new(Box::new(f));
        Thread(unsafe { sym_spawn(run, Box::into_raw(b) as usize) })
    }
    impl Thread {
        pub fn join(self) {
            unsafe { sym_join(self.0) }
        }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::sync::Mutex;
    static VALUES: Mutex<(Vec<u32>, usize)> = Mutex::new((vec![], 0));
    static TRACE: Mutex<Vec<u32>> = Mutex::new(vec![]);
    pub fn load(v: Vec<u32>) {
        *VALUES.lock().unwrap() = (v, 0);
    }
    pub fn finish() {
        println!("TRACE {:?}", TRACE.lock().unwrap());
    }
    pub fn any() -> u32 {
        let mut g = VALUES.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        g.0.get(i).copied().unwrap_or(0)
    }
    /// Any value below `n`.
    pub fn below(n: u32) -> u32 {
        let v = any();
        assume(v < n);
        v
    }
    /// The same, where the executor takes every value in turn.
    pub fn pick(n: u32) -> u32 {
        below(n)
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION");
            std::process::exit(super::ASSUMPTION);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            println!("FAILED {m}");
            std::process::exit(super::FAILED);
        }
    }
    pub fn cover(_: bool, _: &'static str) {}
    pub fn trace(v: u32) {
        TRACE.lock().unwrap().push(v);
    }
    pub fn may_panic(f: impl FnOnce(), after: extern "C" fn(usize), arg: usize) {
        std::panic::set_hook(Box::new(|_| {}));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::panic::take_hook();
        after(arg)
    }
    pub struct Thread(std::thread::JoinHandle<()>);
    pub fn spawn(f: impl FnOnce() + Send + 'static) -> Thread {
        Thread(std::thread::spawn(f))
    }
    impl Thread {
        pub fn join(self) {
            if self.0.join().is_err() {
                println!("FAILED a thread panicked");
                std::process::exit(super::FAILED);
            }
        }
    }
}
pub use imp::*;

pub fn any64() -> u64 {
    let lo = any() as u64;
    let hi = any() as u64;
    lo | hi << 32
}

/// Declares harnesses: an exported entry for the executor and a row in the native table.
/// `witness` lists the labels that a run must be able to reach, so that no harness holds vacuously.
#[macro_export]
macro_rules! harness {
    ($list:ident: $($(#[$m:meta])* $name:ident [$($w:literal),*] $body:block)*) => {
        $(
            #[cfg_attr(feature = "sym", no_mangle)]
            pub extern "C" fn $name() $body
        )*
        pub const $list: &[(&str, extern "C" fn(), &[&str])] = &[$((stringify!($name), $name, &[$($w),*]),)*];
    };
}
/// `c ? a : b` without a branch.
pub fn sel(c: bool, a: u32, b: u32) -> u32 {
    let m = (c as u32).wrapping_neg();
    (a & m) | (b & !m)
}
