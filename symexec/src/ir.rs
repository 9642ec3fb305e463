//! Parser for the textual LLVM IR that rustc's LLVM prints.
use crate::expr::Op as XOp;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            t => t.size() * 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
        }
    }
    /// Width when the value is a scalar.
    pub fn width(&self) -> Option<u16> {
        Some(match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => return None,
        })
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field of {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("element of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}
pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// A constant: scalars are concrete, aggregates nested.
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    A(Rc<Vec<K>>),
    Bytes(Rc<Vec<u8>>),
    Zero,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Slot(u32),
    C(u128),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Intrinsic(Intr),
    Extern(Rc<str>),
    Indirect(Opd),
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    Abs,
    FAbs,
    CopySign,
    IsFpClass,
    IsConstant,
    Expect,
    ThreadLocal,
    Trap,
    Pause,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(XOp, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    /// ordered-and-less, ordered-and-equal, ordered-and-greater, unordered
    Fcmp(u8, Ty, Opd, Opd),
    Fneg(Ty, Opd),
    Load(Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    /// base + offset + sum(index * scale); indices are sign extended from their width
    Gep(Opd, i64, Vec<(Opd, u16, i64)>),
    Alloca(u64, u64),
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Opd)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Select(Ty, Opd, Opd, Opd, bool),
    Cast(Cast, Ty, Opd, Ty),
    Extract(Opd, Vec<u32>),
    Insert(Ty, Opd, Opd, Vec<u32>),
    ExtractEl(Opd, Opd),
    InsertEl(Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Rmw(Rmw, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Copy(Opd),
    Unsupported(Rc<str>),
}
#[derive(Debug)]
pub struct Inst {
    pub dst: u32,
    pub op: I,
    pub dbg: u32,
}
pub const NONE: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub addr: u64,
    pub params: Vec<u32>,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub sp: u32,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    pub init: Vec<u8>,
}
#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub faddr: HashMap<u64, u32>,
    pub externs: HashMap<String, u64>,
    pub extern_addr: HashMap<u64, String>,
    /// numbered metadata lines that locations are made of
    pub md: HashMap<u32, String>,
}

pub const FUNC_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const TLS_BASE: u64 = 0x6000_0000_0000;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a mut Module,
    slots: HashMap<String, u32>,
    /// where the text of the current instruction ends
    line_end: usize,
    labels: HashMap<String, u32>,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn c(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn at(&self, k: usize) -> u8 {
        self.s.get(self.i + k).copied().unwrap_or(0)
    }
    fn ws(&mut self) {
        loop {
            match self.c() {
                b'/' if self.s[self.i + 1..].starts_with(b"*") => {
                    self.i += 2;
                    while !self.s[self.i..].starts_with(b"*/") {
                        self.i += 1
                    }
                    self.i += 2
                }
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => self.line(),
                _ => return,
            }
        }
    }
    /// spaces on this line only
    fn sp(&mut self) {
        while self.c() == b' ' || self.c() == b'\t' {
            self.i += 1
        }
    }
    fn eol(&self) -> usize {
        self.s[self.i..].iter().position(|&c| c == b'\n').map_or(self.s.len(), |k| self.i + k)
    }
    fn line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1
        }
        if self.i < self.s.len() {
            self.i += 1
        }
    }
    fn rest_of_line(&self) -> &'a str {
        let mut j = self.i;
        while j < self.s.len() && self.s[j] != b'\n' {
            j += 1
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap_or("")
    }
    fn fail(&self, what: &str) -> ! {
        let a = self.s[..self.i].iter().rposition(|&c| c == b'\n').map_or(0, |k| k + 1);
        let b = self.s[self.i..].iter().position(|&c| c == b'\n').map_or(self.s.len(), |k| k + self.i);
        eprintln!("IR parse error: {what} at column {}:\n{}", self.i - a, String::from_utf8_lossy(&self.s[a..b]));
        std::process::exit(3)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.c() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char))
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// the name after % or @
    fn name(&mut self) -> String {
        if self.c() == b'"' {
            let mut j = self.i + 1;
            while self.s[j] != b'"' {
                j += 1
            }
            let r = String::from_utf8_lossy(&self.s[self.i + 1..j]).into_owned();
            self.i = j + 1;
            r
        } else {
            let w = self.word();
            w.to_string()
        }
    }
    fn parens(&mut self, open: u8, close: u8) {
        // at the opening character
        let mut d = 0;
        loop {
            let c = self.c();
            if c == b'"' {
                self.i += 1;
                while self.c() != b'"' {
                    self.i += 1
                }
            }
            if c == open {
                d += 1
            }
            if c == close {
                d -= 1;
                if d == 0 {
                    self.i += 1;
                    return;
                }
            }
            self.i += 1;
            if self.i >= self.s.len() {
                self.fail("unbalanced")
            }
        }
    }
    fn is_type(&mut self) -> bool {
        self.ws();
        match self.c() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "token" | "opaque" | "x86_fp80" | "fp128")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.c() {
            b'{' => {
                self.i += 1;
                let f = self.fields(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            b'<' if self.at(1) == b'{' => {
                self.i += 2;
                let f = self.fields(b'}');
                self.want(b'>');
                Ty::Struct(Rc::new(f), true)
            }
            b'[' | b'<' => {
                let vec = self.c() == b'<';
                self.i += 1;
                let n: u64 = self.word().parse().unwrap_or_else(|_| self.fail("array length"));
                if !self.eat_word("x") {
                    self.fail("x")
                }
                let t = self.ty();
                self.want(if vec { b'>' } else { b']' });
                if vec {
                    Ty::Vector(n, Rc::new(t))
                } else {
                    Ty::Array(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.types.get(&n) {
                    Some(t) => t.clone(),
                    None => self.fail("unknown type"),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.parens(b'(', b')');
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "half" => Ty::Int(16),
                    "x86_fp80" | "fp128" => Ty::Int(128),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                    _ => self.fail("type"),
                }
            }
        }
    }
    fn fields(&mut self, close: u8) -> Vec<Ty> {
        let mut f = vec![];
        self.ws();
        while self.c() != close {
            f.push(self.ty());
            self.eat(b',');
            self.ws();
        }
        self.i += 1;
        f
    }
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.c();
            if c == b'"' {
                // "key"="value"
                self.name();
                if self.c() == b'=' {
                    self.i += 1;
                    self.name();
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let w = self.peek_word();
            if c == b'c' && self.at(1) == b'"' {
                return;
            }
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "bitcast" | "add" | "sub" | "trunc" | "splat" | "blockaddress" | "asm" | "xor" | "addrspacecast"
            ) {
                return;
            }
            self.i += w.len();
            if w == "align" {
                self.sp();
                if self.c().is_ascii_digit() {
                    self.word();
                    continue;
                }
            }
            if self.c() == b'(' {
                self.parens(b'(', b')');
            }
        }
    }
    fn slot(&mut self, n: String) -> u32 {
        let k = self.slots.len() as u32;
        *self.slots.entry(n).or_insert(k)
    }
    fn label(&mut self) -> u32 {
        // label %x
        if !self.eat_word("label") {
            self.fail("label")
        }
        self.want(b'%');
        let n = self.name();
        self.label_of(n)
    }
    fn label_of(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn global_addr(&mut self, n: &str) -> u128 {
        if let Some(&g) = self.m.gmap.get(n) {
            return self.m.globals[g].addr as u128;
        }
        if let Some(&a) = self.m.externs.get(n) {
            return a as u128;
        }
        self.fail(&format!("unknown global {n}"))
    }
    fn value(&mut self, t: &Ty) -> Opd {
        self.ws();
        if self.c() == b'%' {
            self.i += 1;
            let n = self.name();
            return Opd::Slot(self.slot(n));
        }
        match self.konst(t) {
            K::I(v) => Opd::C(v),
            k => Opd::K(k),
        }
    }
    fn tv(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn ktv(&mut self) -> (Ty, K) {
        let t = self.ty();
        let k = self.konst(&t);
        (t, k)
    }
    fn kint(&mut self, t: &Ty) -> u128 {
        match self.konst(t) {
            K::I(v) => v,
            K::Zero => 0,
            _ => self.fail("scalar constant"),
        }
    }
    fn konst(&mut self, t: &Ty) -> K {
        self.ws();
        let scalar_mask = |t: &Ty, v: i128| -> u128 { (v as u128) & crate::expr::mask(t.width().unwrap_or(128)) };
        match self.c() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return K::I(self.global_addr(&n));
            }
            b'{' | b'[' | b'<' => {
                let packed = self.c() == b'<' && self.at(1) == b'{';
                let close = match self.c() {
                    b'{' => b'}',
                    b'[' => b']',
                    _ if packed => b'}',
                    _ => b'>',
                };
                self.i += if packed { 2 } else { 1 };
                let mut v = vec![];
                self.ws();
                while self.c() != close {
                    v.push(self.ktv().1);
                    self.eat(b',');
                    self.ws();
                }
                self.i += 1;
                if packed {
                    self.want(b'>');
                }
                return K::A(Rc::new(v));
            }
            b'c' if self.at(1) == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.c() != b'"' {
                    if self.c() == b'\\' {
                        if self.at(1) == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                            continue;
                        }
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 3;
                    } else {
                        v.push(self.c());
                        self.i += 1;
                    }
                }
                self.i += 1;
                return K::Bytes(Rc::new(v));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => K::I(1),
            "false" => K::I(0),
            "null" | "none" => K::I(0),
            "undef" | "poison" | "zeroinitializer" => {
                if t.width().is_some() {
                    K::I(0)
                } else {
                    K::Zero
                }
            }
            "splat" => {
                self.want(b'(');
                let (_, k) = self.ktv();
                self.want(b')');
                K::A(Rc::new(vec![k; t.count()]))
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.want(b'(');
                let t1 = self.ty();
                let v = self.kint(&t1);
                if !self.eat_word("to") {
                    self.fail("to")
                }
                let t2 = self.ty();
                self.want(b')');
                K::I(scalar_mask(&t2, v as i128))
            }
            "add" | "sub" | "xor" => {
                while matches!(self.peek_word(), "nuw" | "nsw") {
                    self.word();
                }
                self.want(b'(');
                let t1 = self.ty();
                let a = self.kint(&t1);
                self.want(b',');
                let t2 = self.ty();
                let b = self.kint(&t2);
                self.want(b')');
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                };
                K::I(scalar_mask(&t1, r as i128))
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    if self.c() == b'(' {
                        break;
                    }
                    self.word();
                    self.ws();
                    if self.c() == b'(' && self.s[..self.i].ends_with(b"inrange") {
                        self.parens(b'(', b')');
                    }
                }
                self.want(b'(');
                let base_ty = self.ty();
                self.want(b',');
                let _ = self.ty();
                let base = self.kint(&Ty::Ptr);
                let mut idx = vec![];
                while self.eat(b',') {
                    while self.peek_word() == "inrange" {
                        self.word();
                    }
                    let t = self.ty();
                    let v = self.kint(&t);
                    idx.push(crate::expr::sext(v, t.width().unwrap()) as i64);
                }
                self.want(b')');
                let mut a = base as u64 as i64;
                let mut t = base_ty;
                for (k, i) in idx.into_iter().enumerate() {
                    if k == 0 {
                        a += i * t.size() as i64;
                    } else {
                        let e = t.elem(i as usize);
                        a += match &t {
                            Ty::Struct(..) => t.field_offset(i as usize) as i64,
                            _ => e.size() as i64 * i,
                        };
                        t = e;
                    }
                }
                K::I(a as u64 as u128)
            }
            _ => {
                if w.is_empty() {
                    self.fail("constant")
                }
                match t {
                    Ty::Float | Ty::Double => {
                        if let Some(h) = w.strip_prefix("0x") {
                            let bits = u64::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16)
                                .unwrap_or(0);
                            return K::I(if *t == Ty::Float { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 });
                        }
                        // 1.0e+00: the '+' ends a word
                        let mut s = w.to_string();
                        if self.c() == b'+' {
                            self.i += 1;
                            s.push_str(self.word());
                        }
                        match s.parse::<f64>() {
                            Ok(f) => K::I(if *t == Ty::Float { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }),
                            Err(_) => {
                                // f0x3F800000 and the like
                                let h = s.split('x').last().unwrap_or("0");
                                K::I(u128::from_str_radix(h, 16).unwrap_or(0))
                            }
                        }
                    }
                    _ => {
                        if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
                            return K::I(u128::from_str_radix(h, 16).unwrap());
                        }
                        match w.parse::<i128>() {
                            Ok(v) => K::I(scalar_mask(t, v)),
                            Err(_) => match w.parse::<u128>() {
                                Ok(v) => K::I(v),
                                Err(_) => self.fail("constant"),
                            },
                        }
                    }
                }
            }
        }
    }
    fn kbytes(&self, t: &Ty, k: &K, out: &mut [u8]) {
        match k {
            K::Zero => {}
            K::I(v) => {
                let n = out.len().min(t.size() as usize);
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            K::Bytes(b) => out[..b.len()].copy_from_slice(b),
            K::A(v) => {
                for (i, e) in v.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    let et = t.elem(i);
                    let n = et.size() as usize;
                    self.kbytes(&et, e, &mut out[o..o + n]);
                }
            }
        }
    }

    // ------------------------------------------------------------------ instructions

    fn dbg(&mut self) -> u32 {
        // looking ahead for an optional part may have gone past the end of the line
        self.i = self.i.min(self.line_end);
        // the rest of the line may hold `!dbg !123`
        let r = self.rest_of_line();
        let d = match r.find("!dbg !") {
            Some(k) => r[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(NONE),
            None => NONE,
        };
        self.line();
        d
    }

    fn inst(&mut self) -> (Inst, Option<Vec<(u32, Opd)>>) {
        self.ws();
        let start = self.i;
        self.line_end = self.eol();
        let mut dst = NONE;
        if self.c() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = self.slot(n);
            self.want(b'=');
        }
        let mut op = self.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = self.word();
        }
        let text = || -> Rc<str> {
            let b = self.s[start..].iter().position(|&c| c == b'\n').unwrap_or(0);
            String::from_utf8_lossy(&self.s[start..start + b]).as_ref().into()
        };
        let text = text();
        let i = match op {
            "phi" => {
                while !self.is_type() {
                    self.word();
                }
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.want(b'[');
                    let x = self.value(&t);
                    let x = norm(&t, x);
                    self.want(b',');
                    self.want(b'%');
                    let n = self.name();
                    let l = self.label_of(n);
                    self.want(b']');
                    v.push((l, x));
                    self.sp();
                    if self.c() != b',' || self.rest_of_line().starts_with(", !") {
                        break;
                    }
                    self.i += 1;
                }
                let dbg = self.dbg();
                return (Inst { dst, op: I::Fence, dbg }, Some(v));
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !self.is_type() {
                    self.word();
                }
                let t = self.ty();
                let a = self.value(&t);
                self.want(b',');
                let b = self.value(&t);
                let x = match op {
                    "add" => XOp::Add,
                    "sub" => XOp::Sub,
                    "mul" => XOp::Mul,
                    "udiv" => XOp::UDiv,
                    "sdiv" => XOp::SDiv,
                    "urem" => XOp::URem,
                    "srem" => XOp::SRem,
                    "and" => XOp::And,
                    "or" => XOp::Or,
                    "xor" => XOp::Xor,
                    "shl" => XOp::Shl,
                    "lshr" => XOp::LShr,
                    _ => XOp::AShr,
                };
                I::Bin(x, t.clone(), norm(&t, a), norm(&t, b))
            }
            "icmp" => {
                let mut p = self.word();
                if p == "samesign" {
                    p = self.word();
                }
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => self.fail("predicate"),
                };
                let t = self.ty();
                let a = self.value(&t);
                self.want(b',');
                let b = self.value(&t);
                I::Icmp(p, t.clone(), norm(&t, a), norm(&t, b))
            }
            "fcmp" => {
                let mut p = self.word();
                while matches!(p, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn") {
                    p = self.word();
                }
                let k = match p {
                    "false" => 0,
                    "true" => 15,
                    "ord" => 7,
                    "uno" => 8,
                    _ => {
                        let k = match &p[1..] {
                            "eq" => 2,
                            "ne" => 5,
                            "lt" => 1,
                            "le" => 3,
                            "gt" => 4,
                            "ge" => 6,
                            _ => self.fail("predicate"),
                        };
                        k | if p.starts_with('u') { 8 } else { 0 }
                    }
                };
                let t = self.ty();
                let a = self.value(&t);
                self.want(b',');
                let b = self.value(&t);
                I::Fcmp(k, t.clone(), norm(&t, a), norm(&t, b))
            }
            "fneg" => {
                let t = self.ty();
                let a = self.value(&t);
                I::Fneg(t.clone(), norm(&t, a))
            }
            "load" => {
                let mut atomic = false;
                while !self.is_type() {
                    atomic |= self.word() == "atomic";
                }
                let t = self.ty();
                self.want(b',');
                let (_, p) = self.tv();
                I::Load(t, p, atomic)
            }
            "store" => {
                let mut atomic = false;
                while !self.is_type() {
                    atomic |= self.word() == "atomic";
                }
                let (t, v) = self.tv();
                self.want(b',');
                let (_, p) = self.tv();
                I::Store(t.clone(), norm(&t, v), p, atomic)
            }
            "getelementptr" => {
                while !self.is_type() {
                    let w = self.word();
                    if w == "inrange" {
                        self.ws();
                        self.parens(b'(', b')');
                    }
                }
                let mut t = self.ty();
                self.want(b',');
                let (bt, base) = self.tv();
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                let mut bad = matches!(bt, Ty::Vector(..));
                loop {
                    self.sp();
                    if self.c() != b',' || self.rest_of_line().starts_with(", !") {
                        break;
                    }
                    self.i += 1;
                    let (it, v) = self.tv();
                    bad |= matches!(it, Ty::Vector(..));
                    let scale = if first { t.size() as i64 } else { 0 };
                    match (&v, first, &t) {
                        (Opd::C(c), true, _) => off += crate::expr::sext(*c, it.width().unwrap_or(64)) as i64 * scale,
                        (_, true, _) => idx.push((v, it.width().unwrap_or(64), scale)),
                        (Opd::C(c), false, Ty::Struct(..)) => {
                            off += t.field_offset(*c as usize) as i64;
                            t = t.elem(*c as usize);
                        }
                        (_, false, _) => {
                            let e = t.elem(0);
                            match &v {
                                Opd::C(c) => off += crate::expr::sext(*c, it.width().unwrap_or(64)) as i64 * e.size() as i64,
                                _ => idx.push((v, it.width().unwrap_or(64), e.size() as i64)),
                            }
                            t = e;
                        }
                    }
                    first = false;
                }
                if bad {
                    I::Unsupported(text)
                } else {
                    I::Gep(base, off, idx)
                }
            }
            "alloca" => {
                while !self.is_type() {
                    self.word();
                }
                let t = self.ty();
                let mut align = t.align();
                let mut n = 1;
                let mut bad = false;
                loop {
                    self.sp();
                    if self.c() != b',' || self.rest_of_line().starts_with(", !") {
                        break;
                    }
                    self.i += 1;
                    if self.eat_word("align") {
                        align = self.word().parse().unwrap();
                    } else if self.is_type() {
                        let (_, v) = self.tv();
                        match v {
                            Opd::C(c) => n = c as u64,
                            _ => bad = true,
                        }
                    }
                }
                if bad {
                    I::Unsupported(text)
                } else {
                    I::Alloca(t.size() * n, align)
                }
            }
            "call" | "invoke" => {
                return (self.call(op == "invoke", dst, text), None);
            }
            "br" => {
                if self.peek_word() == "label" {
                    I::Br(self.label())
                } else {
                    let (_, c) = self.tv();
                    self.want(b',');
                    let a = self.label();
                    self.want(b',');
                    let b = self.label();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv();
                self.want(b',');
                let d = self.label();
                self.want(b'[');
                let mut cases = vec![];
                loop {
                    self.ws();
                    if self.c() == b']' {
                        self.i += 1;
                        break;
                    }
                    let (_, k) = self.ktv();
                    let K::I(k) = k else { self.fail("case") };
                    self.want(b',');
                    cases.push((k, self.label()));
                }
                self.line_end = self.eol();
                I::Switch(t.width().unwrap(), v, d, cases)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.value(&t);
                    I::Ret(Some((t.clone(), norm(&t, v))))
                }
            }
            "unreachable" => I::Unreachable,
            "select" => {
                while !self.is_type() {
                    self.word();
                }
                let (ct, c) = self.tv();
                self.want(b',');
                let (t, a) = self.tv();
                self.want(b',');
                let (_, b) = self.tv();
                I::Select(t.clone(), norm(&ct, c), norm(&t, a), norm(&t, b), matches!(ct, Ty::Vector(..)))
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                while !self.is_type() {
                    self.word();
                }
                let t = self.ty();
                let v = self.value(&t);
                if !self.eat_word("to") {
                    self.fail("to")
                }
                let t2 = self.ty();
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        let (a, b) = (t.width().unwrap_or(0), t2.width().unwrap_or(0));
                        if a > b {
                            Cast::Trunc
                        } else if a < b {
                            Cast::ZExt
                        } else {
                            Cast::Bit
                        }
                    }
                    _ => Cast::Bit,
                };
                I::Cast(c, t.clone(), norm(&t, v), t2)
            }
            "extractvalue" => {
                let (t, v) = self.tv();
                let mut idx = vec![];
                while self.rest_of_line().starts_with(", ") && !self.rest_of_line().starts_with(", !") {
                    self.i += 2;
                    idx.push(self.word().parse().unwrap());
                }
                I::Extract(norm(&t, v), idx)
            }
            "insertvalue" => {
                let (t, v) = self.tv();
                self.want(b',');
                let (et, e) = self.tv();
                let mut idx = vec![];
                while self.rest_of_line().starts_with(", ") && !self.rest_of_line().starts_with(", !") {
                    self.i += 2;
                    idx.push(self.word().parse().unwrap());
                }
                I::Insert(t.clone(), norm(&t, v), norm(&et, e), idx)
            }
            "extractelement" => {
                let (t, v) = self.tv();
                self.want(b',');
                let (_, i) = self.tv();
                I::ExtractEl(norm(&t, v), i)
            }
            "insertelement" => {
                let (t, v) = self.tv();
                self.want(b',');
                let (et, e) = self.tv();
                self.want(b',');
                let (_, i) = self.tv();
                I::InsertEl(norm(&t, v), norm(&et, e), i)
            }
            "shufflevector" => {
                let (t, a) = self.tv();
                self.want(b',');
                let (_, b) = self.tv();
                self.want(b',');
                let (mt, m) = self.ktv();
                let m = match m {
                    K::A(v) => v.iter().map(|k| if let K::I(x) = k { Some(*x as u32) } else { None }).collect(),
                    _ => vec![Some(0); mt.count()],
                };
                I::Shuffle(t.clone(), norm(&t, a), norm(&t, b), m)
            }
            "atomicrmw" => {
                let mut w = self.word();
                if w == "volatile" {
                    w = self.word();
                }
                let k = match w {
                    "xchg" => Some(Rmw::Xchg),
                    "add" => Some(Rmw::Add),
                    "sub" => Some(Rmw::Sub),
                    "and" => Some(Rmw::And),
                    "or" => Some(Rmw::Or),
                    "xor" => Some(Rmw::Xor),
                    "nand" => Some(Rmw::Nand),
                    "umax" => Some(Rmw::UMax),
                    "umin" => Some(Rmw::UMin),
                    "max" => Some(Rmw::Max),
                    "min" => Some(Rmw::Min),
                    _ => None,
                };
                let (_, p) = self.tv();
                self.want(b',');
                let (t, v) = self.tv();
                match k {
                    Some(k) => I::Rmw(k, t, p, v),
                    None => I::Unsupported(text),
                }
            }
            "cmpxchg" => {
                while !self.is_type() {
                    self.word();
                }
                let (_, p) = self.tv();
                self.want(b',');
                let (t, a) = self.tv();
                self.want(b',');
                let (_, b) = self.tv();
                I::CmpXchg(t, p, a, b)
            }
            "fence" => I::Fence,
            "freeze" => {
                let (t, v) = self.tv();
                I::Copy(norm(&t, v))
            }
            "landingpad" => {
                // clauses follow on lines of their own
                self.line();
                loop {
                    self.sp();
                    let w = self.peek_word();
                    if matches!(w, "cleanup" | "catch" | "filter") {
                        self.line();
                    } else {
                        break;
                    }
                }
                return (Inst { dst, op: I::Unsupported(text), dbg: NONE }, None);
            }
            "store-" => unreachable!(),
            _ => I::Unsupported(text),
        };
        let dbg = self.dbg();
        (Inst { dst, op: i, dbg }, None)
    }

    fn call(&mut self, invoke: bool, dst: u32, text: Rc<str>) -> Inst {
        while !self.is_type() {
            self.ws();
            if self.c() == b'"' || self.c() == b'#' {
                self.attrs();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.fail("call")
            }
            if w == "align" {
                self.sp();
                if self.c().is_ascii_digit() {
                    self.word();
                }
            }
            if self.c() == b'(' {
                self.parens(b'(', b')');
            }
        }
        let ret = self.ty();
        self.ws();
        if self.c() == b'(' {
            self.parens(b'(', b')');
        }
        self.ws();
        let finish = |p: &mut Self, op: I| -> Inst {
            if invoke {
                // [attrs] to label %x unwind label %y, on the next line
                let k = p.s[p.i..].windows(10).position(|w| w == b" to label ").unwrap();
                p.i += k + 4;
                let l = p.label();
                p.line_end = p.eol();
                let dbg = p.dbg();
                let op = match op {
                    I::Call { callee, ret, args, .. } => I::Call { callee, ret, args, normal: Some(l) },
                    o => o,
                };
                return Inst { dst, op, dbg };
            }
            let dbg = p.dbg();
            Inst { dst, op, dbg }
        };
        let nop = I::Call { callee: Callee::Nop, ret: Ty::Void, args: vec![], normal: None };
        if self.peek_word() == "asm" {
            return finish(self, if ret == Ty::Void { nop } else { I::Unsupported(text) });
        }
        let callee = match self.c() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                if n.starts_with("llvm.") {
                    const IGNORE: [&str; 8] = [
                        "llvm.lifetime.",
                        "llvm.experimental.noalias",
                        "llvm.dbg.",
                        "llvm.assume",
                        "llvm.invariant.",
                        "llvm.prefetch",
                        "llvm.stackrestore",
                        "llvm.pseudoprobe",
                    ];
                    if IGNORE.iter().any(|p| n.starts_with(p)) {
                        return finish(self, nop);
                    }
                    let base: String = n[5..].to_string();
                    let pick = |s: &str| base.starts_with(s);
                    let k = if pick("memcpy.") || pick("memmove.") {
                        Intr::Memcpy
                    } else if pick("memset.") {
                        Intr::Memset
                    } else if pick("umax.") {
                        Intr::UMax
                    } else if pick("umin.") {
                        Intr::UMin
                    } else if pick("smax.") {
                        Intr::SMax
                    } else if pick("smin.") {
                        Intr::SMin
                    } else if pick("usub.sat.") {
                        Intr::USubSat
                    } else if pick("uadd.sat.") {
                        Intr::UAddSat
                    } else if pick("uadd.with.overflow.") {
                        Intr::UAddO
                    } else if pick("usub.with.overflow.") {
                        Intr::USubO
                    } else if pick("umul.with.overflow.") {
                        Intr::UMulO
                    } else if pick("sadd.with.overflow.") {
                        Intr::SAddO
                    } else if pick("ssub.with.overflow.") {
                        Intr::SSubO
                    } else if pick("smul.with.overflow.") {
                        Intr::SMulO
                    } else if pick("ctlz.") {
                        Intr::Ctlz
                    } else if pick("cttz.") {
                        Intr::Cttz
                    } else if pick("ctpop.") {
                        Intr::Ctpop
                    } else if pick("bswap.") {
                        Intr::Bswap
                    } else if pick("bitreverse.") {
                        Intr::BitReverse
                    } else if pick("fshl.") {
                        Intr::Fshl
                    } else if pick("fshr.") {
                        Intr::Fshr
                    } else if pick("ucmp.") {
                        Intr::UCmp
                    } else if pick("scmp.") {
                        Intr::SCmp
                    } else if pick("fabs.") {
                        Intr::FAbs
                    } else if pick("copysign.") {
                        Intr::CopySign
                    } else if pick("is.fpclass.") {
                        Intr::IsFpClass
                    } else if pick("abs.") {
                        Intr::Abs
                    } else if pick("is.constant.") {
                        Intr::IsConstant
                    } else if pick("expect.") {
                        Intr::Expect
                    } else if pick("threadlocal.address") {
                        Intr::ThreadLocal
                    } else if pick("trap") {
                        Intr::Trap
                    } else if pick("x86.sse2.pause") {
                        Intr::Pause
                    } else {
                        return finish(self, I::Unsupported(text));
                    };
                    Callee::Intrinsic(k)
                } else if let Some(&f) = self.m.fmap.get(&n) {
                    Callee::Direct(f)
                } else {
                    Callee::Extern(n.as_str().into())
                }
            }
            _ => {
                let v = self.value(&Ty::Ptr);
                Callee::Indirect(v)
            }
        };
        self.want(b'(');
        let mut args = vec![];
        loop {
            self.ws();
            if self.c() == b')' {
                self.i += 1;
                break;
            }
            let t = self.ty();
            if t == Ty::Other {
                // metadata
                return finish(self, I::Unsupported(text));
            }
            self.attrs();
            let v = self.value(&t);
            args.push((t.clone(), norm(&t, v)));
            self.eat(b',');
        }
        finish(self, I::Call { callee, ret, args, normal: None })
    }

    fn define(&mut self, fi: usize) {
        // after `define`; skip to the parameter list
        self.slots.clear();
        self.labels.clear();
        self.skip_to_type();
        let _ = self.ty();
        self.want(b'@');
        self.name();
        self.want(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        loop {
            self.ws();
            if self.c() == b')' {
                self.i += 1;
                break;
            }
            if self.c() == b'.' {
                self.i += 3;
                continue;
            }
            let _ = self.ty();
            self.attrs();
            self.ws();
            if self.c() == b'%' {
                self.i += 1;
                let n = self.name();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(self.slot(n));
            } else {
                params.push(self.slot(format!("{unnamed}")));
                unnamed += 1;
            }
            self.eat(b',');
        }
        let head = self.rest_of_line();
        let sp = match head.find("!dbg !") {
            Some(k) => head[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(NONE),
            None => NONE,
        };
        self.line();
        let mut blocks: Vec<Option<Block>> = vec![];
        // entry label
        let mut cur: u32 = NONE;
        let mut order = vec![];
        loop {
            self.ws();
            if self.c() == b'}' {
                self.i += 1;
                break;
            }
            // label?
            let save = self.i;
            let lab = if self.c() == b'"' || is_word(self.c()) {
                let n = self.name();
                if self.c() == b':' {
                    self.i += 1;
                    Some(n)
                } else {
                    self.i = save;
                    None
                }
            } else {
                None
            };
            if let Some(n) = lab {
                cur = self.label_of(n.clone());
                while blocks.len() <= cur as usize {
                    blocks.push(None);
                }
                blocks[cur as usize] = Some(Block { name: n, ..Default::default() });
                order.push(cur);
                continue;
            }
            if cur == NONE {
                let n = format!("{unnamed}");
                cur = self.label_of(n.clone());
                while blocks.len() <= cur as usize {
                    blocks.push(None);
                }
                blocks[cur as usize] = Some(Block { name: n, ..Default::default() });
                order.push(cur);
            }
            if self.rest_of_line().starts_with("#dbg") {
                self.line();
                continue;
            }
            let (i, phi) = self.inst();
            let b = blocks[cur as usize].as_mut().unwrap();
            match phi {
                Some(v) => b.phis.push((i.dst, v)),
                None => b.insts.push(i),
            }
        }
        // nothing was skipped: every value that is used has a definition
        let mut defined = vec![false; self.slots.len()];
        for &p in &params {
            defined[p as usize] = true;
        }
        for b in blocks.iter().flatten() {
            for d in b.phis.iter().map(|p| p.0).chain(b.insts.iter().map(|i| i.dst)) {
                if d != NONE {
                    defined[d as usize] = true;
                }
            }
        }
        if let Some(k) = defined.iter().position(|d| !d) {
            let n = self.slots.iter().find(|(_, v)| **v == k as u32).unwrap().0.clone();
            eprintln!("%{n} is not defined in {}", self.m.funcs[fi].name);
            std::process::exit(3);
        }
        let entry = order[0];
        if entry != 0 {
            eprintln!("entry block is not first in {}", self.m.funcs[fi].name);
            std::process::exit(3);
        }
        let f = &mut self.m.funcs[fi];
        f.params = params;
        f.nslots = self.slots.len() as u32;
        f.blocks = blocks.into_iter().map(|b| b.unwrap_or_default()).collect();
        f.sp = sp;
    }
    fn skip_to_type(&mut self) {
        while !self.is_type() {
            self.ws();
            if self.c() == b'"' || self.c() == b'#' {
                self.attrs();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.fail("type expected")
            }
            if w == "align" {
                self.sp();
                if self.c().is_ascii_digit() {
                    self.word();
                }
            }
            if self.c() == b'(' {
                self.parens(b'(', b')');
            }
        }
    }
}

/// Scalar constants in aggregates' clothing.
fn norm(t: &Ty, v: Opd) -> Opd {
    match (&v, t.width()) {
        (Opd::K(K::Zero), Some(_)) => Opd::C(0),
        _ => v,
    }
}

pub fn parse(text: &str) -> Module {
    let mut m = Module::default();
    let bytes = text.as_bytes();
    // pass 1: names, types, addresses
    let mut lines: Vec<(usize, &str)> = vec![];
    let mut off = 0;
    for l in text.split('\n') {
        lines.push((off, l));
        off += l.len() + 1;
    }
    for (o, l) in &lines {
        if l.starts_with('%') {
            let mut p = P { s: bytes, i: *o + 1, m: &mut m, slots: HashMap::new(), labels: HashMap::new(), line_end: 0 };
            let n = p.name();
            p.want(b'=');
            if !p.eat_word("type") {
                p.fail("type")
            }
            let t = p.ty();
            m.types.insert(n, t);
        }
    }
    let mut defs = vec![];
    let mut gdefs = vec![];
    let name_at = |l: &str| -> String {
        let k = l.find('@').unwrap() + 1;
        let r = &l[k..];
        if let Some(q) = r.strip_prefix('"') {
            q[..q.find('"').unwrap()].to_string()
        } else {
            r[..r.bytes().position(|c| !is_word(c)).unwrap_or(r.len())].to_string()
        }
    };
    for (o, l) in &lines {
        if l.starts_with("define ") {
            let n = name_at(l);
            let fi = m.funcs.len();
            let addr = FUNC_BASE + 16 * fi as u64;
            m.fmap.insert(n.clone(), fi as u32);
            m.externs.insert(n.clone(), addr);
            m.faddr.insert(addr, fi as u32);
            m.funcs.push(Func { name: n, addr, params: vec![], nslots: 0, blocks: vec![], sp: NONE });
            defs.push(*o);
        } else if l.starts_with('@') {
            gdefs.push((*o, l));
        } else if l.starts_with('!') && l.as_bytes().get(1).map_or(false, |c| c.is_ascii_digit()) {
            if let Some((k, v)) = l[1..].split_once(" = ") {
                if v.contains("DILocation") || v.contains("DISubprogram") || v.contains("DIFile") || v.contains("DILexicalBlock") {
                    m.md.insert(k.parse().unwrap(), v.to_string());
                }
            }
        }
    }
    let mut ext = FUNC_BASE + 16 * m.funcs.len() as u64 + 0x1000;
    for (_, l) in &lines {
        if l.starts_with("declare ") {
            let n = name_at(l);
            // weak externals (optional libc functions) are absent
            let a = if l.contains(" extern_weak ") {
                0
            } else {
                ext += 16;
                ext
            };
            m.externs.insert(n.clone(), a);
            m.extern_addr.insert(a, n);
        }
    }
    // globals: addresses first, initialisers after
    let (mut addr, mut tls) = (GLOBAL_BASE, TLS_BASE);
    let mut inits = vec![];
    for (o, l) in &gdefs {
        let n = name_at(l);
        let mut p = P { s: bytes, i: *o + 1, m: &mut m, slots: HashMap::new(), labels: HashMap::new(), line_end: 0 };
        p.name();
        p.want(b'=');
        let (mut constant, mut is_tls, mut external) = (false, false, false);
        loop {
            let w = p.word();
            match w {
                "constant" => {
                    constant = true;
                    break;
                }
                "global" => break,
                "thread_local" => is_tls = true,
                "external" => external = true,
                "alias" => p.fail("alias"),
                "" => p.fail("global"),
                _ => {}
            }
            if p.c() == b'(' {
                p.parens(b'(', b')');
            }
        }
        let ty = p.ty();
        let init_at = p.i;
        let align = match l.rfind(", align ") {
            Some(k) => l[k + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap(),
            None => ty.align(),
        };
        let size = ty.size();
        let a = if is_tls { &mut tls } else { &mut addr };
        *a = align_up(*a, align.max(16));
        let g = Global { name: n.clone(), addr: *a, ty, size, align, constant, tls: is_tls, external, init: vec![0; size as usize] };
        *a += size + 32;
        m.gmap.insert(n, m.globals.len());
        m.globals.push(g);
        inits.push(if external { None } else { Some(init_at) });
    }
    for (g, at) in inits.into_iter().enumerate() {
        if let Some(at) = at {
            let ty = m.globals[g].ty.clone();
            let mut p = P { s: bytes, i: at, m: &mut m, slots: HashMap::new(), labels: HashMap::new(), line_end: 0 };
            let k = p.konst(&ty);
            let mut b = vec![0u8; ty.size() as usize];
            p.kbytes(&ty, &k, &mut b);
            m.globals[g].init = b;
        }
    }
    for (fi, o) in defs.into_iter().enumerate() {
        let mut p = P { s: bytes, i: o + 7, m: &mut m, slots: HashMap::new(), labels: HashMap::new(), line_end: 0 };
        p.define(fi);
    }
    m
}
