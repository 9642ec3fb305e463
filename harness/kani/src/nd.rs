//! Nondeterminism: `kani::any()` under Kani, recorded values in a native replay.
//! One `nd` call is exactly one `kani::any()` of a primitive, so that the byte vectors Kani prints for a
//! counterexample can be fed back in order.
#[cfg(kani)]
mod imp {
    macro_rules! any { ($($t:ident),*) => { $( #[inline(always)] pub fn $t() -> $t { kani::any() } )* } }
    any!(u8, u16, u32, u64, u128, usize);
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}
/// The symbolic executor's primitives: one value is one word, or two or four, low word first.
#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_u32(tag: u32) -> u32;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, p: *const u8, n: usize);
        fn sym_cover(c: bool, p: *const u8, n: usize);
        fn sym_trace(v: u32);
        fn sym_pick(n: u32) -> u32;
    }
    /// Any value below n, with a path of its own for each.
    pub fn pick(n: usize) -> usize {
        unsafe { sym_pick(n as u32) as usize }
    }
    macro_rules! any { ($($t:ident),*) => { $( pub fn $t() -> $t {
        let mut v = 0u128;
        let mut i = 0;
        while i < core::mem::size_of::<$t>() {
            v |= (unsafe { sym_u32(0) } as u128) << (8 * i as u32);
            i += 4;
        }
        v as $t
    } )* } }
    any!(u8, u16, u32, u64, u128, usize);
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn cover(c: bool, m: &'static str) {
        unsafe {
            sym_cover(c, m.as_ptr(), m.len());
            sym_trace(c as u32)
        }
    }
}
#[cfg(not(any(kani, feature = "sym")))]
mod imp {
    use std::cell::RefCell;
    thread_local!(pub static VALUES: RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default());
    thread_local!(static WORDS: std::cell::Cell<bool> = Default::default());
    thread_local!(static TRACE: RefCell<Vec<u32>> = Default::default());
    /// The values of a counterexample: `#words` marks the symbolic executor's (one word a line), without it
    /// they are Kani's (the bytes of one value a line).
    pub fn load(text: &str) {
        WORDS.with(|w| w.set(text.lines().any(|l| l.trim() == "#words")));
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            for l in text.lines() {
                let l = l.trim();
                if l.is_empty() || l.starts_with('#') {
                    continue;
                }
                v.push_back(
                    l.split(|c: char| c == ',' || c.is_whitespace())
                        .filter(|s| !s.is_empty())
                        .flat_map(|s| {
                            let v = s.parse::<u32>().unwrap().to_le_bytes();
                            v[..if WORDS.with(|w| w.get()) { 4 } else { 1 }].to_vec()
                        })
                        .collect(),
                );
            }
        })
    }
    macro_rules! any { ($($t:ident),*) => { $( pub fn $t() -> $t {
        let mut bytes = VALUES.with(|v| v.borrow_mut().pop_front()).unwrap_or_default();
        while WORDS.with(|w| w.get()) && bytes.len() < core::mem::size_of::<$t>() {
            bytes.extend(VALUES.with(|v| v.borrow_mut().pop_front()).unwrap_or(vec![0; 4]));
        }
        let mut b = [0u8; core::mem::size_of::<$t>()];
        for (d, s) in b.iter_mut().zip(bytes) { *d = s; }
        <$t>::from_le_bytes(b)
    } )* } }
    any!(u8, u16, u32, u64, u128, usize);
    pub fn pick(_: usize) -> usize {
        u32() as usize
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME: an assumption does not hold for these values");
            std::process::exit(77);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            println!("REPLAY-FAIL: {m}");
            std::process::exit(101);
        }
    }
    pub fn cover(c: bool, _: &'static str) {
        TRACE.with(|t| t.borrow_mut().push(c as u32));
    }
    pub fn finish() {
        TRACE.with(|t| println!("TRACE {:?}", t.borrow()));
    }
}
pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}

/// A property assertion. Anything else that fails (a panic in the library, an overflow, a bad access) is
/// also a violation unless the harness allows it.
#[macro_export]
macro_rules! prop {
    ($c:expr, $m:literal) => {{
        let c: bool = $c;
        #[cfg(kani)]
        kani::assert(c, concat!("PROP: ", $m));
        #[cfg(not(kani))]
        $crate::nd::check(c, $m);
    }};
}
/// Reachability witness: the check fails as inconclusive unless every witness is satisfied.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        $crate::nd::cover($c, $m);
    }};
}
/// Declares harnesses: Kani proofs under Kani, exported entries for the symbolic executor,
/// entries of the `HARNESSES` table natively.
#[macro_export]
macro_rules! harnesses {
    ($( $name:ident [$unwind:literal] $body:block )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            pub fn $name() $body
            #[cfg(not(kani))]
            #[cfg_attr(feature = "sym", no_mangle)]
            pub extern "C" fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const HARNESSES: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}
