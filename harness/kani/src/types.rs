//! The storable types the harnesses instantiate, with an arbitrary-value generator and an exact
//! (bitwise) comparison for each.
use crate::nd;
use core::marker::PhantomData;
use crabslab::*;
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};

pub trait Nd: SlabItem {
    fn nd() -> Self;
    /// Bit-for-bit equality, written out by hand (not through any code under test).
    fn same(&self, o: &Self) -> bool;
}
macro_rules! prim { ($($t:ident as $u:ident),*) => { $( impl Nd for $t {
    fn nd() -> Self { nd::$u() as $t }
    fn same(&self, o: &Self) -> bool { *self == *o }
} )* } }
prim!(u8 as u8, i8 as u8, u16 as u16, i16 as u16, u32 as u32, i32 as u32, u64 as u64, i64 as u64, u128 as u128, i128 as u128);
impl Nd for f32 {
    fn nd() -> Self { f32::from_bits(nd::u32()) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
}
impl Nd for f64 {
    fn nd() -> Self { f64::from_bits(nd::u64()) }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
}
impl Nd for bool {
    fn nd() -> Self { nd::bool() }
    fn same(&self, o: &Self) -> bool { *self == *o }
}
impl<T: Nd + Copy + Default, const N: usize> Nd for [T; N]
where
    [T; N]: Default,
{
    fn nd() -> Self {
        let mut a: [T; N] = Default::default();
        let mut i = 0;
        while i < N {
            a[i] = T::nd();
            i += 1;
        }
        a
    }
    fn same(&self, o: &Self) -> bool {
        let mut i = 0;
        let mut r = true;
        while i < N {
            r = r & self[i].same(&o[i]);
            i += 1;
        }
        r
    }
}
impl<T: Nd + Default> Nd for Option<T> {
    fn nd() -> Self {
        let some = nd::bool();
        let v = T::nd();
        if some { Some(v) } else { None }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: core::any::Any> Nd for PhantomData<T> {
    fn nd() -> Self { PhantomData }
    fn same(&self, _: &Self) -> bool { true }
}
impl<T: core::any::Any> Nd for Id<T> {
    fn nd() -> Self { Id::new(nd::u32()) }
    fn same(&self, o: &Self) -> bool { self.inner() == o.inner() }
}
impl<T: SlabItem> Nd for Array<T> {
    fn nd() -> Self { Array::new(nd::u32(), nd::u32()) }
    fn same(&self, o: &Self) -> bool { self.index == o.index && self.len == o.len }
}
macro_rules! tuple { ($($n:ident . $i:tt),*) => {
    impl<$($n: Nd),*> Nd for ($($n,)*) {
        fn nd() -> Self { ($($n::nd(),)*) }
        fn same(&self, o: &Self) -> bool { true $( & self.$i.same(&o.$i) )* }
    }
} }
tuple!(A.0);
tuple!(A.0, B.1);
tuple!(A.0, B.1, C.2);
tuple!(A.0, B.1, C.2, D.3);
tuple!(A.0, B.1, C.2, D.3, E.4);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10, L.11);
tuple!(A.0, B.1, C.2, D.3, E.4, F.5, G.6, H.7, I.8, J.9, K.10, L.11, M.12);

macro_rules! glam { ($($t:ident : $s:ident ( $($f:ident),* );)*) => { $( impl Nd for $t {
    fn nd() -> Self { let ($($f,)*) = ($({ let _ = stringify!($f); $s::nd() },)*); <$t>::from(glam_arr!($t, $($f),*)) }
    fn same(&self, o: &Self) -> bool { true $( & self.$f.same(&o.$f) )* }
} )* } }
macro_rules! glam_arr { (Quat, $x:ident, $y:ident, $z:ident, $w:ident) => { Vec4::new($x, $y, $z, $w) };
    ($t:ident, $($f:ident),*) => { [$($f),*] } }
glam! {
    Vec2: f32 (x, y);
    Vec3: f32 (x, y, z);
    Vec4: f32 (x, y, z, w);
    UVec2: u32 (x, y);
    UVec3: u32 (x, y, z);
    UVec4: u32 (x, y, z, w);
}
impl Nd for Quat {
    fn nd() -> Self {
        let (x, y, z, w) = (f32::nd(), f32::nd(), f32::nd(), f32::nd());
        Quat::from_xyzw(x, y, z, w)
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) & self.y.same(&o.y) & self.z.same(&o.z) & self.w.same(&o.w)
    }
}
impl Nd for Mat4 {
    fn nd() -> Self {
        let (a, b, c, d) = (Vec4::nd(), Vec4::nd(), Vec4::nd(), Vec4::nd());
        Mat4::from_cols(a, b, c, d)
    }
    fn same(&self, o: &Self) -> bool {
        self.x_axis.same(&o.x_axis) & self.y_axis.same(&o.y_axis) & self.z_axis.same(&o.z_axis) & self.w_axis.same(&o.w_axis)
    }
}

/// A composite with multi-word fields of different sizes.
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct Named {
    pub a: u8,
    pub b: u64,
    pub c: [u16; 3],
    pub d: Option<u32>,
    pub e: f32,
}
impl Nd for Named {
    fn nd() -> Self {
        Named { a: Nd::nd(), b: Nd::nd(), c: Nd::nd(), d: Nd::nd(), e: Nd::nd() }
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.same(&o.b) & self.c.same(&o.c) & self.d.same(&o.d) & self.e.same(&o.e)
    }
}
/// Tuple struct.
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct Tup(pub i16, pub u128, pub bool);
impl Nd for Tup {
    fn nd() -> Self { Tup(Nd::nd(), Nd::nd(), Nd::nd()) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) & self.1.same(&o.1) & self.2.same(&o.2) }
}
/// Generic struct.
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct Gen<T: SlabItem> {
    pub head: u32,
    pub body: T,
    pub tail: i32,
}
impl<T: Nd> Nd for Gen<T> {
    fn nd() -> Self { Gen { head: Nd::nd(), body: Nd::nd(), tail: Nd::nd() } }
    fn same(&self, o: &Self) -> bool { self.head.same(&o.head) & self.body.same(&o.body) & self.tail.same(&o.tail) }
}
/// Nesting: struct in struct in struct, with a zero-sized field in the middle.
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct Outer {
    pub first: Gen<u64>,
    pub nothing: PhantomData<u32>,
    pub second: Tup,
    pub id: Id<Named>,
    pub arr: Array<u32>,
}
impl Nd for Outer {
    fn nd() -> Self {
        Outer { first: Nd::nd(), nothing: PhantomData, second: Nd::nd(), id: Nd::nd(), arr: Nd::nd() }
    }
    fn same(&self, o: &Self) -> bool {
        self.first.same(&o.first) & self.second.same(&o.second) & self.id.same(&o.id) & self.arr.same(&o.arr)
    }
}
/// Enum with variants of every kind and of different payload sizes; largest in the middle.
#[derive(Clone, Copy, Default, SlabItem)]
pub enum En {
    #[default]
    Unit,
    Named { a: u32, b: u64 },
    Big(u128, i8),
    Small(bool),
    Nested(Gen<u16>),
    Last,
}
impl Nd for En {
    fn nd() -> Self {
        let k = nd::u8() % 6;
        let (a, b, c, d, e, g) = (u32::nd(), u64::nd(), u128::nd(), i8::nd(), bool::nd(), Gen::<u16>::nd());
        match k {
            0 => En::Unit,
            1 => En::Named { a, b },
            2 => En::Big(c, d),
            3 => En::Small(e),
            4 => En::Nested(g),
            _ => En::Last,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (En::Unit, En::Unit) | (En::Last, En::Last) => true,
            (En::Named { a, b }, En::Named { a: c, b: d }) => a.same(c) & b.same(d),
            (En::Big(a, b), En::Big(c, d)) => a.same(c) & b.same(d),
            (En::Small(a), En::Small(b)) => a.same(b),
            (En::Nested(a), En::Nested(b)) => a.same(b),
            _ => false,
        }
    }
}
/// Default is not the first variant, first variant is the largest, one generic parameter.
#[derive(Clone, Copy, Default, SlabItem)]
pub enum En2 {
    Full { x: [u32; 3], y: f32 },
    #[default]
    Dflt,
    Inner(En3),
}
#[derive(Clone, Copy, Default, SlabItem)]
pub enum En3 {
    #[default]
    A,
    B(u32, u32),
}
impl Nd for En3 {
    fn nd() -> Self {
        let k = nd::bool();
        let (a, b) = (u32::nd(), u32::nd());
        if k { En3::A } else { En3::B(a, b) }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (En3::A, En3::A) => true,
            (En3::B(a, b), En3::B(c, d)) => a == c && b == d,
            _ => false,
        }
    }
}
impl Nd for En2 {
    fn nd() -> Self {
        let k = nd::u8() % 3;
        let (x, y, z) = (<[u32; 3]>::nd(), f32::nd(), En3::nd());
        match k {
            0 => En2::Full { x, y },
            1 => En2::Dflt,
            _ => En2::Inner(z),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (En2::Full { x, y }, En2::Full { x: a, y: b }) => x.same(a) & y.same(b),
            (En2::Dflt, En2::Dflt) => true,
            (En2::Inner(a), En2::Inner(b)) => a.same(b),
            _ => false,
        }
    }
}
/// Generic enum.
#[derive(Clone, Copy, Default, SlabItem)]
pub enum EnG<T: Default> {
    #[default]
    Zero,
    One(T),
    Two { left: T, right: T },
}
impl<T: Nd + Default> Nd for EnG<T> {
    fn nd() -> Self {
        let k = nd::u8() % 3;
        let (l, r) = (T::nd(), T::nd());
        match k {
            0 => EnG::Zero,
            1 => EnG::One(l),
            _ => EnG::Two { left: l, right: r },
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (EnG::Zero, EnG::Zero) => true,
            (EnG::One(a), EnG::One(b)) => a.same(b),
            (EnG::Two { left: a, right: b }, EnG::Two { left: c, right: d }) => a.same(c) & b.same(d),
            _ => false,
        }
    }
}
/// 24-variant enum: more variants than fit a nibble, every third one carries data.
#[derive(Clone, Copy, Default, SlabItem)]
#[rustfmt::skip]
pub enum Many { #[default] V0, V1(u32), V2, V3, V4(u32), V5, V6, V7(u32), V8, V9, V10(u32), V11, V12, V13(u32), V14, V15, V16(u32), V17, V18 }
impl Nd for Many {
    #[rustfmt::skip]
    fn nd() -> Self {
        let k = nd::u8() % 19;
        let v = u32::nd();
        match k { 0 => Many::V0, 1 => Many::V1(v), 2 => Many::V2, 3 => Many::V3, 4 => Many::V4(v), 5 => Many::V5, 6 => Many::V6, 7 => Many::V7(v),
            8 => Many::V8, 9 => Many::V9, 10 => Many::V10(v), 11 => Many::V11, 12 => Many::V12, 13 => Many::V13(v), 14 => Many::V14,
            15 => Many::V15, 16 => Many::V16(v), 17 => Many::V17, _ => Many::V18 }
    }
    #[rustfmt::skip]
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Many::V0, Many::V0) | (Many::V2, Many::V2) | (Many::V3, Many::V3) | (Many::V5, Many::V5) | (Many::V6, Many::V6) | (Many::V8, Many::V8)
            | (Many::V9, Many::V9) | (Many::V11, Many::V11) | (Many::V12, Many::V12) | (Many::V14, Many::V14) | (Many::V15, Many::V15)
            | (Many::V17, Many::V17) | (Many::V18, Many::V18) => true,
            (Many::V1(a), Many::V1(b)) | (Many::V4(a), Many::V4(b)) | (Many::V7(a), Many::V7(b)) | (Many::V10(a), Many::V10(b))
            | (Many::V13(a), Many::V13(b)) | (Many::V16(a), Many::V16(b)) => a == b,
            _ => false,
        }
    }
}
/// Explicit discriminants, which are not the words of a slab: those are the positions.
#[derive(Clone, Copy, Default, PartialEq, SlabItem)]
#[repr(u8)]
pub enum Disc { A = 7, #[default] B = 0, C = 1, D = 2 }
impl Nd for Disc {
    fn nd() -> Self { match nd::u8() % 4 { 0 => Disc::A, 1 => Disc::B, 2 => Disc::C, _ => Disc::D } }
    fn same(&self, o: &Self) -> bool { *self as u8 == *o as u8 }
}
/// Zero-sized, wide and nested payloads, in generic and tuple variants, with lifetimes of their own.
#[derive(Clone, Copy, Default, SlabItem)]
pub enum Odd<T: Default, const N: usize>
where
    [T; N]: Default,
    T: Copy,
{
    Arr([T; N], bool),
    Nothing(PhantomData<u32>),
    Mix { a: Option<u64>, d: Disc, p: PhantomData<T>, w: (u8, u128) },
    #[default]
    Empty,
}
impl<const N: usize> Nd for Odd<u64, N> where [u64; N]: Default {
    fn nd() -> Self {
        let k = nd::u8() % 4;
        let mut x = [0; N];
        let mut i = 0;
        while i < N {
            x[i] = u64::nd();
            i += 1;
        }
        let (b, a, d, w) = (bool::nd(), Option::<u64>::nd(), Disc::nd(), <(u8, u128)>::nd());
        match k {
            0 => Odd::Arr(x, b),
            1 => Odd::Nothing(PhantomData),
            2 => Odd::Mix { a, d, p: PhantomData, w },
            _ => Odd::Empty,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Odd::Arr(x, b), Odd::Arr(y, c)) => {
                let mut r = b == c;
                let mut i = 0;
                while i < N {
                    r &= x[i] == y[i];
                    i += 1;
                }
                r
            }
            (Odd::Nothing(_), Odd::Nothing(_)) | (Odd::Empty, Odd::Empty) => true,
            (Odd::Mix { a, d, w, .. }, Odd::Mix { a: e, d: f, w: g, .. }) => a.same(e) & d.same(f) & w.0.same(&g.0) & w.1.same(&g.1),
            _ => false,
        }
    }
}
/// Single-field wrappers.
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Wrap(pub f64);
impl Nd for Wrap {
    fn nd() -> Self { Wrap(Nd::nd()) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) }
}
/// Only zero-sized content.
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Nil(pub PhantomData<u8>);
impl Nd for Nil {
    fn nd() -> Self { Nil(PhantomData) }
    fn same(&self, _: &Self) -> bool { true }
}
/// glam inside derive.
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct Vertex {
    pub position: Vec4,
    pub normal: Vec3,
    pub uv: Vec2,
    pub index: UVec2,
    pub rotation: Quat,
}
impl Nd for Vertex {
    fn nd() -> Self { Vertex { position: Nd::nd(), normal: Nd::nd(), uv: Nd::nd(), index: Nd::nd(), rotation: Nd::nd() } }
    fn same(&self, o: &Self) -> bool {
        self.position.same(&o.position) & self.normal.same(&o.normal) & self.uv.same(&o.uv) & self.index.same(&o.index)
            & self.rotation.same(&o.rotation)
    }
}
pub type T12 = (u8, i8, u16, i16, u32, i32, u64, i64, bool, f32, f64, Option<u8>);
pub type T13 = (u8, i8, u16, i16, u32, i32, u64, i64, bool, f32, f64, Option<u8>, u128);
