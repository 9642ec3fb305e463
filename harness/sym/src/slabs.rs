//! C04: histories of growable slabs. C08: writes that do not fit.
use crate::harness;
use crate::rt::*;
use crate::world::{at, Tri, Val};
use crabslab::*;
use std::marker::PhantomData;

// ------------------------------------------------------------------ C04

fn fresh<B: GrowableSlab + AsRef<Vec<u32>>>(s: &B, w: &[u32]) {
    let v = s.as_ref();
    check(v.len() == w.len() && s.len() == w.len(), "the length is the number of words handed out");
    check(s.capacity() >= s.len(), "the capacity covers the length");
}
struct V(Vec<u32>);
impl AsRef<Vec<u32>> for V {
    fn as_ref(&self) -> &Vec<u32> {
        &self.0
    }
}
impl Slab for V {
    fn len(&self) -> usize {
        Slab::len(&self.0)
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.0.read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.0.write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.0.write_indexed_slice(t, index)
    }
}
impl GrowableSlab for V {
    fn capacity(&self) -> usize {
        GrowableSlab::capacity(&self.0)
    }
    fn reserve_capacity(&mut self, c: usize) {
        GrowableSlab::reserve_capacity(&mut self.0, c)
    }
    fn increment_len(&mut self, n: usize) -> usize {
        GrowableSlab::increment_len(&mut self.0, n)
    }
    fn maybe_expand_to_fit<T: SlabItem>(&mut self, len: usize) {
        GrowableSlab::maybe_expand_to_fit::<T>(&mut self.0, len)
    }
    fn allocate<T: SlabItem>(&mut self) -> Id<T> {
        GrowableSlab::allocate(&mut self.0)
    }
    fn allocate_array<T: SlabItem>(&mut self, len: usize) -> Array<T> {
        GrowableSlab::allocate_array(&mut self.0, len)
    }
    fn append<T: SlabItem>(&mut self, t: &T) -> Id<T> {
        GrowableSlab::append(&mut self.0, t)
    }
    fn append_array<T: SlabItem>(&mut self, ts: &[T]) -> Array<T> {
        GrowableSlab::append_array(&mut self.0, ts)
    }
}

fn append<T: Val, B: GrowableSlab + AsRef<Vec<u32>>>(s: &mut B, w: &mut Vec<u32>) {
    let (n, v) = (w.len(), T::make());
    let id = s.append(&v);
    check(id.index() == n, "append goes to the old end");
    check(s.contains(id) && s.read(id).same(&v), "an appended value reads back");
    w.resize(n + T::SLAB_SIZE, 0);
    v.write_slab(n, w);
}
fn append_array<T: Val, B: GrowableSlab + AsRef<Vec<u32>>>(s: &mut B, w: &mut Vec<u32>, k: usize) {
    let n = w.len();
    let v: Vec<T> = (0..k).map(|_| T::make()).collect();
    let a = s.append_array(&v);
    place(n, k, a);
    let r = s.read_vec(a);
    check(r.len() == k, "an appended array reads back");
    w.resize(n + k * T::SLAB_SIZE, 0);
    for (i, x) in v.iter().enumerate() {
        check(r[i].same(x), "an appended array reads back");
        x.write_slab(n + i * T::SLAB_SIZE, w);
    }
}
fn place<T: SlabItem>(n: usize, k: usize, a: Array<T>) {
    if k == 0 {
        check(a.is_null() && a.is_empty(), "an empty array is the null array");
    } else {
        check(a.starting_index() == n && a.len() == k, "an array is handed out at the old end");
    }
}
/// What was handed out and not written is not compared: an allocation says nothing about its contents.
fn allocate<T: Val, B: GrowableSlab + AsRef<Vec<u32>>>(s: &mut B, w: &mut Vec<u32>) {
    let n = w.len();
    let id = s.allocate::<T>();
    check(id.index() == n, "allocate starts at the old end");
    check(s.contains(id), "an allocation lies inside the slab");
    w.resize(n + T::SLAB_SIZE, 0);
    if pick(2) == 1 {
        let v = T::make();
        s.write(id, &v);
        v.write_slab(n, w);
    } else {
        take(s, w, n);
    }
}
fn take<B: GrowableSlab + AsRef<Vec<u32>>>(s: &B, w: &mut Vec<u32>, from: usize) {
    check(s.as_ref().len() == w.len(), "an allocation spans exactly its words");
    for i in from..w.len() {
        w[i] = s.as_ref()[i];
    }
}
fn grow<B: GrowableSlab + AsRef<Vec<u32>>>(mut s: B, depth: u32) {
    // whatever it holds
    let mut w = s.as_ref().clone();
    let mut grown = 0;
    for _ in 0..depth {
        let cap = s.capacity();
        let n = w.len();
        match pick(9) {
            0 => append::<u32, B>(&mut s, &mut w),
            1 => append::<Tri, B>(&mut s, &mut w),
            2 => append_array::<u64, B>(&mut s, &mut w, pick(3) as usize),
            3 => append_array::<Tri, B>(&mut s, &mut w, 3),
            4 => allocate::<u64, B>(&mut s, &mut w),
            5 => {
                let k = pick(4) as usize;
                let a = s.allocate_array::<u32>(k);
                place(n, k, a);
                w.resize(n + k, 0);
                take(&s, &mut w, n);
                if k == 0 {
                    check(s.capacity() == cap, "an empty array changes nothing");
                }
            }
            6 => {
                let c = [0, n, n + 1, n + 7, cap, cap + 1, 2 * cap + 3][pick(7) as usize];
                s.reserve_capacity(c);
                check(s.capacity() >= c, "reserving makes the capacity at least that");
            }
            7 => {
                let k = pick(3) as usize;
                s.maybe_expand_to_fit::<Tri>(k);
                check(s.capacity() >= n + 3 * k, "making room makes room");
            }
            _ => {
                let k = pick(3) as usize;
                check(s.increment_len(k) == n, "increment_len returns the previous length");
                w.resize(n + k, 0);
                take(&s, &mut w, n);
            }
        }
        fresh(&s, &w);
        grown += (s.capacity() > cap) as u32;
    }
    let x = below(64);
    check(at(s.as_ref(), x) == at(&w, x), "growing preserves every word stored earlier");
    cover(grown > 1, "two growths");
    trace(w.len() as u32);
    for v in w {
        trace(v);
    }
}
fn some(n: u32, cap: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(cap);
    for _ in 0..n {
        v.push(any());
    }
    v
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Copy, Default, SlabItem)]
pub struct Rec {
    pub a: u8,
    pub at: glam::Vec2,
    pub b: u64,
    pub c: Option<u32>,
}
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Pair<T: SlabItem>(pub T, pub bool, pub T);
#[derive(Clone, Copy, Default, SlabItem)]
pub enum Shape {
    #[default]
    None,
    Dot(u32),
    Line {
        from: glam::Vec2,
        to: glam::Vec2,
    },
    Blob(u128, Pair<u16>),
}

struct Ctx {
    before: Vec<u32>,
    slab: Vec<u32>,
    index: usize,
    words: usize,
}
extern "C" fn frame(p: usize) {
    let c = unsafe { &*(p as *const Ctx) };
    check(c.slab.len() == c.before.len(), "the slab keeps its length");
    let x = below(64);
    let outside = (x as usize).wrapping_sub(c.index) >= c.words;
    check(!outside | (at(&c.slab, x) == at(&c.before, x)), "no word outside of the target changes");
    for w in &c.slab {
        trace(*w);
    }
}
/// Lengths of the slab: around the size of the value.
fn slab_of(n: usize) -> Vec<u32> {
    let len = match pick(5) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n,
        3 => n + 1,
        _ => n + 3,
    };
    some(len as u32, len)
}
fn anything<T: SlabItem>() -> T {
    T::read_slab(0, &some(T::SLAB_SIZE as u32, T::SLAB_SIZE))
}
/// A single value, at any index in `usize` at which it does not fit.
fn single<T: SlabItem>() {
    let slab = slab_of(T::SLAB_SIZE);
    let v = anything::<T>();
    let index = any64() as usize;
    let fits = slab.len() >= T::SLAB_SIZE && index <= slab.len() - T::SLAB_SIZE;
    assume(!fits);
    let c = Box::leak(Box::new(Ctx { before: slab.clone(), slab, index, words: T::SLAB_SIZE }));
    let p = c as *mut Ctx as usize;
    may_panic(
        move || {
            let c = unsafe { &mut *(p as *mut Ctx) };
            let to = c.slab.as_mut_slice().write_indexed(&v, c.index);
            check(to >= c.index, "a write that does not fit does not move backwards");
        },
        frame,
        p,
    );
}
/// Slices and arrays of values that do not fit as a whole.
fn several<T: SlabItem>(how: u32) {
    let slab = slab_of(2 * T::SLAB_SIZE);
    let v = [anything::<T>(), anything::<T>()];
    let index = if how == 2 { any() as usize } else { any64() as usize };
    let fits = slab.len() >= 2 * T::SLAB_SIZE && index <= slab.len() - 2 * T::SLAB_SIZE;
    assume(!fits);
    if how == 2 {
        // the array has an extent
        assume(index + 2 * T::SLAB_SIZE < u32::MAX as usize);
    }
    let c = Box::leak(Box::new(Ctx { before: slab.clone(), slab, index, words: 2 * T::SLAB_SIZE }));
    let p = c as *mut Ctx as usize;
    may_panic(
        move || {
            let c = unsafe { &mut *(p as *mut Ctx) };
            match how {
                0 => {
                    c.slab.as_mut_slice().write_indexed_slice(&v, c.index);
                }
                1 => {
                    let mut s = CpuSlab::new(std::mem::take(&mut c.slab));
                    struct Back<'a>(&'a mut Vec<u32>, CpuSlab<Vec<u32>>);
                    impl Drop for Back<'_> {
                        fn drop(&mut self) {
                            *self.0 = std::mem::take(self.1.as_mut());
                        }
                    }
                    let _ = &mut s;
                    let mut b = Back(&mut c.slab, s);
                    b.1.write_indexed_slice(&v, c.index);
                }
                _ => c.slab.as_mut_slice().write_array(Array::new(c.index as u32, 2), &v),
            }
        },
        frame,
        p,
    );
}

macro_rules! outside {
    ($($s:ident $m:ident $a:ident $t:ty;)*) => { harness! { OUTSIDE:
        $($s [] { single::<$t>() } $m [] { several::<$t>(0) } $a [] { several::<$t>(2) })*
    } };
}
outside! {
    c08_one_u8 c08_two_u8 c08_arr_u8 u8;
    c08_one_i32 c08_two_i32 c08_arr_i32 i32;
    c08_one_u64 c08_two_u64 c08_arr_u64 u64;
    c08_one_i128 c08_two_i128 c08_arr_i128 i128;
    c08_one_f32 c08_two_f32 c08_arr_f32 f32;
    c08_one_f64 c08_two_f64 c08_arr_f64 f64;
    c08_one_bool c08_two_bool c08_arr_bool bool;
    c08_one_words c08_two_words c08_arr_words [u32; 3];
    c08_one_vecs c08_two_vecs c08_arr_vecs [glam::Vec2; 2];
    c08_one_opt c08_two_opt c08_arr_opt Option<u64>;
    c08_one_id c08_two_id c08_arr_id Id<u32>;
    c08_one_array c08_two_array c08_arr_array Array<u32>;
    c08_one_tup c08_two_tup c08_arr_tup (u16, i64, Option<bool>);
    c08_one_nil c08_two_nil c08_arr_nil PhantomData<u32>;
    c08_one_vec2 c08_two_vec2 c08_arr_vec2 glam::Vec2;
    c08_one_vec3 c08_two_vec3 c08_arr_vec3 glam::Vec3;
    c08_one_vec4 c08_two_vec4 c08_arr_vec4 glam::Vec4;
    c08_one_quat c08_two_quat c08_arr_quat glam::Quat;
    c08_one_uvec2 c08_two_uvec2 c08_arr_uvec2 glam::UVec2;
    c08_one_uvec3 c08_two_uvec3 c08_arr_uvec3 glam::UVec3;
    c08_one_uvec4 c08_two_uvec4 c08_arr_uvec4 glam::UVec4;
    c08_one_mat4 c08_two_mat4 c08_arr_mat4 glam::Mat4;
    c08_one_rec c08_two_rec c08_arr_rec Rec;
    c08_one_pair c08_two_pair c08_arr_pair Pair<glam::Vec3>;
    c08_one_shape c08_two_shape c08_arr_shape Shape;
}

harness! { LIST:
    c04_vec_3 ["two growths"] { grow(V(vec![]), 3) }
    c04_some_3 ["two growths"] { let n = pick(3); grow(V(some(n, n as usize + pick(3) as usize)), 3) }
    c04_cpuslab_3 ["two growths"] { grow(Wrapped(CpuSlab::new(vec![])), 3) }
    c04t_vec_4 ["two growths"] { grow(V(vec![]), 4) }
    c04t_cpuslab_4 ["two growths"] { let n = pick(3); grow(Wrapped(CpuSlab::new(some(n, n as usize + 1))), 4) }
}

struct Wrapped(CpuSlab<Vec<u32>>);
impl AsRef<Vec<u32>> for Wrapped {
    fn as_ref(&self) -> &Vec<u32> {
        self.0.as_ref()
    }
}
impl Slab for Wrapped {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.0.read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.0.write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.0.write_indexed_slice(t, index)
    }
}
impl GrowableSlab for Wrapped {
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn reserve_capacity(&mut self, c: usize) {
        self.0.reserve_capacity(c)
    }
    fn increment_len(&mut self, n: usize) -> usize {
        self.0.increment_len(n)
    }
    fn maybe_expand_to_fit<T: SlabItem>(&mut self, len: usize) {
        self.0.maybe_expand_to_fit::<T>(len)
    }
    fn allocate<T: SlabItem>(&mut self) -> Id<T> {
        self.0.allocate()
    }
    fn allocate_array<T: SlabItem>(&mut self, len: usize) -> Array<T> {
        self.0.allocate_array(len)
    }
    fn append<T: SlabItem>(&mut self, t: &T) -> Id<T> {
        self.0.append(t)
    }
    fn append_array<T: SlabItem>(&mut self, ts: &[T]) -> Array<T> {
        self.0.append_array(ts)
    }
}
