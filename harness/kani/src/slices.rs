//! C05: array and slice operations.
use crate::nd;
use crate::types::*;
use crabslab::*;

fn words<const N: usize>() -> [u32; N] {
    let mut words = [0u32; N];
    let mut i = 0;
    while i < N {
        words[i] = nd::u32();
        i += 1;
    }
    words
}

trait Mk: Slab + Sized {
    fn mk(w: &[u32]) -> Self;
    fn at(&self, i: usize) -> u32;
}
impl Mk for Vec<u32> {
    fn mk(w: &[u32]) -> Self {
        let mut v = Vec::with_capacity(w.len());
        let mut i = 0;
        while i < w.len() {
            v.push(w[i]);
            i += 1;
        }
        v
    }
    fn at(&self, i: usize) -> u32 { self[i] }
}
impl Mk for CpuSlab<Vec<u32>> {
    fn mk(w: &[u32]) -> Self { CpuSlab::new(Vec::mk(w)) }
    fn at(&self, i: usize) -> u32 { self.as_ref()[i] }
}
/// `[u32]` behind a sized wrapper; every method forwards to the implementation under test.
struct Raw([u32; 12]);
impl Slab for Raw {
    fn len(&self) -> usize { Slab::len(&self.0[..]) }
    fn read<T: SlabItem + Default>(&self, id: Id<T>) -> T { self.0[..].read(id) }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T { self.0[..].read_unchecked(id) }
    fn read_vec<T: SlabItem + Default>(&self, a: Array<T>) -> Vec<T> { self.0[..].read_vec(a) }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, i: usize) -> usize { self.0[..].write_indexed(t, i) }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], i: usize) -> usize { self.0[..].write_indexed_slice(t, i) }
    fn write_array<T: SlabItem>(&mut self, a: Array<T>, t: &[T]) { self.0[..].write_array(a, t) }
    fn write<T: SlabItem>(&mut self, id: Id<T>, t: &T) { self.0[..].write(id, t) }
}
impl Mk for Raw {
    fn mk(w: &[u32]) -> Self {
        let mut r = Raw([0; 12]);
        let mut i = 0;
        while i < 12 {
            r.0[i] = w[i];
            i += 1;
        }
        r
    }
    fn at(&self, i: usize) -> u32 { self.0[i] }
}

/// Longest data slice.
const D: usize = 3;
const N: usize = 12;

/// Runs `f` with every constant in 0..=MAX, selected by one arbitrary value, so that loops over a length
/// have constant trip counts.
fn each<const MAX: usize>(f: impl Fn(usize)) {
    let k = nd::usize();
    nd::assume(k <= MAX);
    if k == 0 {
        f(0)
    } else if MAX >= 1 && k == 1 {
        f(1)
    } else if MAX >= 2 && k == 2 {
        f(2)
    } else if MAX >= 3 && k == 3 {
        f(3)
    } else if MAX >= 4 && k == 4 {
        f(4)
    }
}

fn check<T: Nd, S: Mk>(s: &S, before: &[u32; N], start: usize, d: &[T], n: usize) {
    // words outside the extent of the n elements are unchanged
    let mut i = 0;
    while i < N {
        if i < start || i >= start + n * T::SLAB_SIZE {
            prop!(s.at(i) == before[i], "a word outside the extent of the written elements changed");
        }
        i += 1;
    }
    let mut k = 0;
    while k < D {
        if k < n {
            let v: T = s.read_unchecked(Id::from(start + k * T::SLAB_SIZE));
            prop!(v.same(&d[k]), "element i is not at start + i * SLAB_SIZE");
        }
        k += 1;
    }
}

fn slice<T: Nd + Copy + Default, S: Mk>() {
    each::<D>(slice_n::<T, S>)
}
fn slice_n<T: Nd + Copy + Default, S: Mk>(n: usize) {
    let w = words::<N>();
    let d = [T::nd(), T::nd(), T::nd()];
    let start = nd::usize();
    nd::assume(start <= N && start + n * T::SLAB_SIZE <= N);
    let mut s = S::mk(&w);
    let next = s.write_indexed_slice(&d[..n], start);
    prop!(next == start + n * T::SLAB_SIZE, "write_indexed_slice does not return the index after the last element");
    check(&s, &w, start, &d, n);
    witness!(n == 0 || start > 0, "elements inside the slab");
}

fn array<T: Nd + Copy + Default, S: Mk>() {
    each::<D>(|n| each::<4>(|len| array_n::<T, S>(n, len as u32)))
}
fn array_n<T: Nd + Copy + Default, S: Mk>(n: usize, len: u32) {
    if len as usize * T::SLAB_SIZE > N {
        return;
    }
    let w = words::<N>();
    let d = [T::nd(), T::nd(), T::nd()];
    let start = nd::u32();
    nd::assume(start as usize <= N && start as usize + len as usize * T::SLAB_SIZE <= N);
    let mut s = S::mk(&w);
    s.write_array(Array::<T>::new(start, len), &d[..n]);
    let written = if len as usize > n { 0 } else { len as usize };
    check(&s, &w, start as usize, &d, written);
    witness!(start > 0 || len as usize * T::SLAB_SIZE == N, "inside the slab");
}

fn readvec<T: Nd + Copy + Default, S: Mk>() {
    each::<D>(|len| readvec_n::<T, S>(len as u32))
}
fn readvec_n<T: Nd + Copy + Default, S: Mk>(len: u32) {
    let w = words::<N>();
    let start = nd::u32();
    nd::assume(start <= 2 * N as u32);
    let s = S::mk(&w);
    let a = Array::<T>::new(start, len);
    let v = s.read_vec(a);
    prop!(v.len() == len as usize, "read_vec does not return len elements");
    let mut i = 0;
    while i < D {
        if i < v.len() {
            let at = start as usize + i * T::SLAB_SIZE;
            if at + T::SLAB_SIZE <= N {
                let e: T = s.read_unchecked(Id::from(at));
                prop!(v[i].same(&e), "read_vec element differs from a read at its position");
            } else {
                prop!(v[i].same(&T::default()), "read_vec element outside the slab is not the default");
            }
        }
        i += 1;
    }
    witness!(start > 0 && (start as usize + len as usize * T::SLAB_SIZE) <= N, "inside the slab");
    witness!((start as usize) < N + len as usize && (start as usize + len as usize * T::SLAB_SIZE) > N || len == 0, "straddling the end");
}

/// Arrays that are larger than the slab itself.
fn readvec_small<T: Nd + Copy + Default>() {
    each::<3>(|n| each::<3>(|len| readvec_small_n::<T>(n, len as u32)))
}
fn readvec_small_n<T: Nd + Copy + Default>(n: usize, len: u32) {
    let w = words::<3>();
    let start = nd::u32();
    nd::assume(start <= 4);
    let s = &w[..n];
    let v = s.read_vec(Array::<T>::new(start, len));
    prop!(v.len() == len as usize, "read_vec does not return len elements");
    let mut i = 0;
    while i < 3 {
        if i < v.len() {
            let at = start as usize + i * T::SLAB_SIZE;
            let e = if at + T::SLAB_SIZE <= n { T::read_slab(at, s) } else { T::default() };
            prop!(v[i].same(&e), "read_vec element differs from a checked read at its position");
        }
        i += 1;
    }
    witness!(start == 1, "from the second word");
}
fn null_array<T: Nd + Copy + Default, S: Mk>() {
    each::<D>(null_n::<T, S>)
}
fn null_n<T: Nd + Copy + Default, S: Mk>(n: usize) {
    let w = words::<N>();
    let d = [T::nd(), T::nd(), T::nd()];
    let mut s = S::mk(&w);
    s.write_array(Array::<T>::NONE, &d[..n]);
    check(&s, &w, 0, &d, 0);
    prop!(s.read_vec(Array::<T>::NONE).is_empty(), "read_vec(NONE) is not empty");
    witness!(true, "reached");
}

harnesses! {
    c05_slice_u32 [40] { slice::<u32, Raw>() }
    c05_slice_u64 [40] { slice::<u64, Raw>() }
    c05_slice_tup [40] { slice::<(u8, i64), Raw>() }
    c05_slice_en3 [40] { slice::<En3, Raw>() }
    c05_slice_gen [40] { slice::<Gen<bool>, Raw>() }
    c05_slice_vec2 [40] { slice::<glam::Vec2, Raw>() }
    c05_slice_vec [40] { slice::<u64, Vec<u32>>() }
    c05_slice_cpuslab [40] { slice::<u64, CpuSlab<Vec<u32>>>() }
    c05_array_u32 [40] { array::<u32, Raw>() }
    c05_array_u64 [40] { array::<u64, Raw>() }
    c05_array_tup [40] { array::<(u8, i64), Raw>() }
    c05_array_opt [40] { array::<Option<u32>, Raw>() }
    c05_array_vec [40] { array::<u32, Vec<u32>>() }
    c05_array_cpuslab [40] { array::<u64, CpuSlab<Vec<u32>>>() }
    c05_readvec_u32 [40] { readvec::<u32, Raw>() }
    c05_readvec_u64 [40] { readvec::<u64, Raw>() }
    c05_readvec_tup [40] { readvec::<(u8, i64), Raw>() }
    c05_readvec_en3 [40] { readvec::<En3, Raw>() }
    c05_readvec_vec [40] { readvec::<u64, Vec<u32>>() }
    c05_readvec_cpuslab [40] { readvec::<u32, CpuSlab<Vec<u32>>>() }
    c05_small_u32 [40] { readvec_small::<u32>() }
    c05_small_u64 [40] { readvec_small::<u64>() }
    c05_small_nil [40] { readvec_small::<Nil>() }
    c05_null_u32 [40] { null_array::<u32, Raw>() }
    c05_null_tup [40] { null_array::<(u8, i64), Raw>() }
    c05_null_vec [40] { null_array::<u64, Vec<u32>>() }
}
