//! C05, C01, C02 with more elements: slabs and slices long enough for element loops that work in blocks.
//! Only the symbolic executor decides these.
use crate::nd;
use crate::types::*;
use crabslab::*;

/// Words of the slab.
const N: usize = 33;
/// Longest data slice: shorter for types whose values have cases, which multiply.
fn longest<T: Nd>() -> usize {
    let cases = core::any::type_name::<T>().contains("En3") || core::any::type_name::<T>().contains("Option");
    let d = if cases { 5 } else { 10 };
    if T::SLAB_SIZE == 0 { d } else { d.min(N / T::SLAB_SIZE) }
}

/// `[u32]` behind a sized wrapper; every method forwards to the implementation under test.
struct Raw([u32; N]);
impl Slab for Raw {
    fn len(&self) -> usize { Slab::len(&self.0[..]) }
    fn read<T: SlabItem + Default>(&self, id: Id<T>) -> T { self.0[..].read(id) }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T { self.0[..].read_unchecked(id) }
    fn read_vec<T: SlabItem + Default>(&self, a: Array<T>) -> Vec<T> { self.0[..].read_vec(a) }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, i: usize) -> usize { self.0[..].write_indexed(t, i) }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], i: usize) -> usize { self.0[..].write_indexed_slice(t, i) }
    fn write_array<T: SlabItem>(&mut self, a: Array<T>, t: &[T]) { self.0[..].write_array(a, t) }
    fn write<T: SlabItem>(&mut self, id: Id<T>, t: &T) { self.0[..].write(id, t) }
}
trait Mk: Slab + Sized {
    fn mk(w: &[u32; N]) -> Self;
    fn at(&self, i: usize) -> u32;
}
impl Mk for Raw {
    fn mk(w: &[u32; N]) -> Self { Raw(*w) }
    fn at(&self, i: usize) -> u32 { self.0[i] }
}
impl Mk for Vec<u32> {
    fn mk(w: &[u32; N]) -> Self { w.to_vec() }
    fn at(&self, i: usize) -> u32 { self[i] }
}
impl Mk for CpuSlab<Vec<u32>> {
    fn mk(w: &[u32; N]) -> Self { CpuSlab::new(w.to_vec()) }
    fn at(&self, i: usize) -> u32 { self.as_ref()[i] }
}

fn words() -> [u32; N] {
    core::array::from_fn(|_| nd::u32())
}
/// A value of 0..=max, one path each.
fn pick(max: usize) -> usize {
    nd::pick(max + 1)
}
fn data<T: Nd>(n: usize) -> Vec<T> {
    (0..n).map(|_| T::nd()).collect()
}
fn check<T: Nd, S: Mk>(s: &S, before: &[u32; N], start: usize, d: &[T]) {
    for i in 0..N {
        let inside = i >= start && i < start + d.len() * T::SLAB_SIZE;
        prop!(inside || s.at(i) == before[i], "a word outside the extent of the written elements changed");
    }
    for (k, e) in d.iter().enumerate() {
        let v: T = s.read_unchecked(Id::from(start + k * T::SLAB_SIZE));
        prop!(v.same(e), "element i is not at start + i * SLAB_SIZE");
    }
}

fn slice<T: Nd + Default, S: Mk>() {
    let n = pick(longest::<T>());
    let w = words();
    let d = data::<T>(n);
    let start = pick(N - n * T::SLAB_SIZE);
    let mut s = S::mk(&w);
    let next = s.write_indexed_slice(&d, start);
    prop!(next == start + n * T::SLAB_SIZE, "write_indexed_slice does not return the index after the last element");
    check(&s, &w, start, &d);
    witness!(n > 3 && start > 0, "many elements");
}

fn array<T: Nd + Default, S: Mk>() {
    let n = pick(longest::<T>());
    let len = pick(longest::<T>());
    let w = words();
    let d = data::<T>(n);
    let start = pick(N - len * T::SLAB_SIZE) as u32;
    let mut s = S::mk(&w);
    s.write_array(Array::<T>::new(start, len as u32), &d);
    check(&s, &w, start as usize, if len > n { &d[..0] } else { &d[..len] });
    witness!(n > 3 && len == n && start > 0, "a whole array of many elements");
    witness!(n > len && len > 2, "more data than the array has room for");
}

fn readvec<T: Nd + Default, S: Mk>() {
    let len = pick(longest::<T>());
    let w = words();
    let start = nd::u32();
    nd::assume(start <= 2 * N as u32);
    let s = S::mk(&w);
    let v = s.read_vec(Array::<T>::new(start, len as u32));
    prop!(v.len() == len, "read_vec does not return len elements");
    for (i, v) in v.iter().enumerate() {
        let at = start as usize + i * T::SLAB_SIZE;
        let e: T = if at + T::SLAB_SIZE <= N { s.read_unchecked(Id::from(at)) } else { T::default() };
        prop!(v.same(&e), "read_vec element differs from a read at its position");
    }
    witness!(len > 3 && start > 0 && start as usize + len * T::SLAB_SIZE <= N, "many elements inside the slab");
    witness!(len > 3 && (start as usize) < N && start as usize + len * T::SLAB_SIZE >= N, "many elements up to or over the end");
}

macro_rules! table {
    ($( $f:ident [ $( $name:ident $t:ty, $s:ty; )* ] )*) => { harnesses! { $($( $name [40] { $f::<$t, $s>() } )*)* } };
}
type Cpu = CpuSlab<Vec<u32>>;
table! {
    slice [
        c05x_slice_u8 u8, Raw; c05x_slice_u32 u32, Raw; c05x_slice_u64 u64, Raw; c05x_slice_tup (u8, i64), Raw;
        c05x_slice_en3 En3, Raw; c05x_slice_vec3 glam::Vec3, Raw; c05x_slice_nil Nil, Raw; c05x_slice_opt Option<u32>, Raw;
        c05x_slice_arr [u16; 3], Raw; c05x_slice_bool bool, Raw; c05x_slice_f64 f64, Raw; c05x_slice_id Id<u64>, Raw;
        c05x_slice_array Array<u8>, Raw; c05x_slice_u128 u128, Raw; c05x_slice_gen Gen<bool>, Raw;
        c05x_slice_vec_u32 u32, Vec<u32>; c05x_slice_vec_tup (u8, i64), Vec<u32>; c05x_slice_vec_nil Nil, Vec<u32>;
        c05x_slice_cpu_u32 u32, Cpu; c05x_slice_cpu_en3 En3, Cpu; c05x_slice_cpu_u64 u64, Cpu;
    ]
    array [
        c05x_array_u8 u8, Raw; c05x_array_u32 u32, Raw; c05x_array_u64 u64, Raw; c05x_array_tup (u8, i64), Raw;
        c05x_array_en3 En3, Raw; c05x_array_vec3 glam::Vec3, Raw; c05x_array_nil Nil, Raw; c05x_array_opt Option<u32>, Raw;
        c05x_array_vec_u32 u32, Vec<u32>; c05x_array_vec_tup (u8, i64), Vec<u32>;
        c05x_array_cpu_u32 u32, Cpu; c05x_array_cpu_en3 En3, Cpu;
    ]
    readvec [
        c05x_readvec_u8 u8, Raw; c05x_readvec_u32 u32, Raw; c05x_readvec_u64 u64, Raw; c05x_readvec_tup (u8, i64), Raw;
        c05x_readvec_en3 En3, Raw; c05x_readvec_vec3 glam::Vec3, Raw; c05x_readvec_nil Nil, Raw;
        c05x_readvec_opt Option<u32>, Raw; c05x_readvec_arr [u16; 3], Raw;
        c05x_readvec_vec_u32 u32, Vec<u32>; c05x_readvec_vec_tup (u8, i64), Vec<u32>;
        c05x_readvec_cpu_u32 u32, Cpu; c05x_readvec_cpu_en3 En3, Cpu;
    ]
}
