//! Memory: concrete addresses, bytes that are concrete or a byte of an expression.
use crate::expr::{self, E};
use std::rc::Rc;

pub const NOSYM: E = u32::MAX;
pub const HEAP_BASE: u64 = 0x1_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

#[derive(Clone, Debug)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<(E, u8)>>,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub base: u64,
    pub size: u64,
    /// None: freed
    pub obj: Option<Rc<Obj>>,
    pub writable: bool,
}

impl Ent {
    pub fn new(base: u64, bytes: Vec<u8>, writable: bool) -> Ent {
        Ent { base, size: bytes.len() as u64, obj: Some(Rc::new(Obj { bytes, sym: None })), writable }
    }
}

/// Index of the entry holding `addr` in a table sorted by base.
pub fn find(t: &[Ent], addr: u64) -> Option<usize> {
    let k = t.partition_point(|e| e.base <= addr);
    if k == 0 {
        return None;
    }
    Some(k - 1)
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn e(&self, w: u16) -> E {
        match self {
            Val::C(c) => expr::konst(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate used as a scalar"),
        }
    }
}
pub fn val(e: E) -> Val {
    match expr::as_const(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}

impl Obj {
    /// n bytes at off as a little-endian integer of 8n bits
    pub fn load(&self, off: usize, n: usize) -> Val {
        let conc = match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| x.0 == NOSYM),
        };
        if conc {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.bytes[off..off + n]);
            return Val::C(u128::from_le_bytes(b));
        }
        let s = self.sym.as_ref().unwrap();
        // the whole of one expression?
        let (e, i) = s[off];
        if e != NOSYM && i == 0 && expr::width(e) as usize == 8 * n && (0..n).all(|k| s[off + k] == (e, k as u8)) {
            return val(e);
        }
        let byte = |k: usize| -> E {
            let (e, i) = s[off + k];
            if e == NOSYM {
                expr::konst(self.bytes[off + k] as u128, 8)
            } else {
                expr::extract(e, 8 * i as u16, 8)
            }
        };
        let mut r = byte(0);
        for k in 1..n {
            r = expr::concat(byte(k), r);
        }
        val(r)
    }
    /// stores a value of 8n bits
    pub fn store(&mut self, off: usize, n: usize, v: &Val) {
        match v {
            Val::C(c) => {
                self.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut self.sym {
                    s[off..off + n].fill((NOSYM, 0));
                }
            }
            Val::S(e) => {
                debug_assert_eq!(expr::width(*e) as usize, 8 * n);
                let len = self.bytes.len();
                let s = self.sym.get_or_insert_with(|| vec![(NOSYM, 0); len]);
                for k in 0..n {
                    s[off + k] = (*e, k as u8);
                }
            }
            Val::A(_) => panic!("aggregate store"),
        }
    }
}
