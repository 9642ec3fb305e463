//! C03: contains is exact, reads are total.
use crate::nd;
use crate::types::*;
use core::marker::PhantomData;
use crabslab::*;
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};

fn words<const N: usize>() -> [u32; N] {
    let mut words = [0u32; N];
    let mut i = 0;
    while i < N {
        words[i] = nd::u32();
        i += 1;
    }
    words
}

/// The checked accessors of any slab `s` whose words are `w[..len]`.
fn total_on<T: Nd + Default, S: Slab, const N: usize>(s: &S, w: &[u32; N], len: usize) {
    let id = nd::u32();
    let fits = id as u64 + T::SLAB_SIZE as u64 <= len as u64;
    let tid = Id::<T>::new(id);
    prop!(s.len() == len, "len() is not the number of words");
    prop!(s.contains(tid) == fits, "contains() disagrees with the extent of the value");
    let r: T = s.read(tid);
    if fits {
        let mut own = [0u32; N];
        let mut i = 0;
        while i < N {
            if i < T::SLAB_SIZE {
                own[i] = w[id as usize + i];
            }
            i += 1;
        }
        let e = T::read_slab(0, &own[..]);
        prop!(r.same(&e), "read() of a contained id is not the value its words encode");
        let u: T = s.read_unchecked(tid);
        prop!(u.same(&e), "read_unchecked() of a contained id is not the value its words encode");
    } else {
        prop!(r.same(&T::default()), "read() of an id that is not contained is not the default");
    }
    if fits || tid.is_none() {
        let mut t = T::nd();
        let mut dflt = T::default();
        s.read_into_if_some(tid, &mut dflt);
        if tid.is_none() {
            prop!(dflt.same(&T::default()), "read_into_if_some(NONE) changed the target");
        } else {
            s.read_into_if_some(tid, &mut t);
            prop!(t.same(&r), "read_into_if_some() differs from read()");
        }
    }
    witness!(fits, "a contained id");
    witness!(!fits && id < N as u32, "straddling or just past the end");
    witness!(id == u32::MAX, "NONE");
}
struct Ref<'a>(&'a [u32]);
impl<'a> Slab for Ref<'a> {
    // Forwards to the implementation for [u32], which is what is under test.
    fn len(&self) -> usize { Slab::len(self.0) }
    fn contains<T: SlabItem>(&self, id: Id<T>) -> bool { Slab::contains(self.0, id) }
    fn read<T: SlabItem + Default>(&self, id: Id<T>) -> T { self.0.read(id) }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T { self.0.read_unchecked(id) }
    fn read_into_if_some<T: SlabItem>(&self, id: Id<T>, t: &mut T) { self.0.read_into_if_some(id, t) }
    fn write_indexed<T: SlabItem>(&mut self, _: &T, i: usize) -> usize { i }
    fn write_indexed_slice<T: SlabItem>(&mut self, _: &[T], i: usize) -> usize { i }
}
pub fn total<T: Nd + Default, const N: usize>() {
    let w = words::<N>();
    let len = nd::usize();
    nd::assume(len <= N);
    total_on::<T, _, N>(&Ref(&w[..len]), &w, len);
}
pub fn total_vec<T: Nd + Default, const N: usize>() {
    let w = words::<N>();
    let len = nd::usize();
    nd::assume(len <= N);
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(w[i]);
        i += 1;
    }
    v.truncate(len);
    total_on::<T, _, N>(&v, &w, len);
}
pub fn total_cpuslab<T: Nd + Default, const N: usize>() {
    let w = words::<N>();
    let len = nd::usize();
    nd::assume(len <= N);
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(w[i]);
        i += 1;
    }
    v.truncate(len);
    total_on::<T, _, N>(&CpuSlab::new(v), &w, len);
}

/// Decoding rules that a reader of foreign words relies on.
fn decode_bool() {
    let w = words::<2>();
    let b: bool = w[..].read(Id::new(1));
    prop!(b == (w[1] == 1), "bool does not decode as word == 1");
    witness!(w[1] > 1, "a word that is neither 0 nor 1");
}
fn decode_opt() {
    let w = words::<4>();
    let o: Option<u32> = w[..].read(Id::new(1));
    prop!(o.is_some() == (w[1] == 1), "Option is not Some exactly for tag 1");
    if let Some(x) = o {
        prop!(x == w[2], "Option payload");
    }
    let p: Option<(bool, u64)> = w[..].read(Id::new(0));
    prop!(p.is_some() == (w[0] == 1), "Option is not Some exactly for tag 1");
    witness!(w[1] > 1, "a tag that is neither 0 nor 1");
}
fn decode_en() {
    let w = words::<7>();
    let e: En = w[..].read(Id::new(1));
    let ok = match e {
        En::Unit => w[1] == 0 || w[1] > 5,
        En::Named { a, b } => w[1] == 1 && a == w[2] && b == (w[3] as u64 | (w[4] as u64) << 32),
        En::Big(..) => w[1] == 2,
        En::Small(b) => w[1] == 3 && b == (w[2] == 1),
        En::Nested(_) => w[1] == 4,
        En::Last => w[1] == 5,
    };
    prop!(ok, "an enum decodes to another variant than its discriminant says (or garbage not to the default)");
    witness!(w[1] > 5, "an unknown discriminant");
    witness!(matches!(e, En::Last), "the last variant");
}
fn decode_en2() {
    let w = words::<7>();
    let e: En2 = w[..].read(Id::new(1));
    let ok = match e {
        En2::Full { x, y } => w[1] == 0 && x[0] == w[2] && x[1] == w[3] && x[2] == w[4] && y.to_bits() == w[5],
        En2::Dflt => w[1] == 1 || w[1] > 2,
        En2::Inner(En3::A) => w[1] == 2 && w[2] != 1,
        En2::Inner(En3::B(a, b)) => w[1] == 2 && w[2] == 1 && a == w[3] && b == w[4],
    };
    prop!(ok, "an enum decodes to another variant than its discriminant says (or garbage not to the default)");
    witness!(w[1] > 2, "an unknown discriminant");
    witness!(w[1] == 2 && w[2] > 1, "an unknown nested discriminant");
}
fn decode_disc() {
    let w = [nd::u32(), nd::u32()];
    let v = Disc::read_slab(1, &w);
    let e = match w[1] { 0 => Disc::A, 1 => Disc::B, 2 => Disc::C, 3 => Disc::D, _ => Disc::B };
    prop!(v.same(&e), "a discriminant word is not decoded to the variant at that position, or an unknown one to the default");
    witness!(w[1] > 3, "unknown");
}
fn decode_many() {
    let w = words::<3>();
    let e: Many = w[..].read(Id::new(1));
    let ok = match e {
        Many::V0 => w[1] == 0 || w[1] > 18,
        Many::V7(x) => w[1] == 7 && x == w[2],
        Many::V16(x) => w[1] == 16 && x == w[2],
        Many::V17 => w[1] == 17,
        Many::V18 => w[1] == 18,
        _ => w[1] > 0 && w[1] < 17 && w[1] != 7 && w[1] != 16,
    };
    prop!(ok, "an enum decodes to another variant than its discriminant says (or garbage not to the default)");
    witness!(w[1] > 18, "an unknown discriminant");
}

macro_rules! per_type {
    ($( $a:ident : $t:ty , $n:literal ;)*) => { harnesses! {
        $( $a [40] { total::<$t, $n>() } )*
        c03_vec_u32 [40] { total_vec::<u32, 3>() }
        c03_vec_en [40] { total_vec::<En2, 6>() }
        c03_vec_arr [40] { total_vec::<[u32; 3], 5>() }
        c03_cpuslab_u64 [40] { total_cpuslab::<u64, 4>() }
        c03_cpuslab_tup [40] { total_cpuslab::<(u32, bool, u64), 6>() }
        c03_decode_bool [40] { decode_bool() }
        c03_decode_opt [40] { decode_opt() }
        c03_decode_en [40] { decode_en() }
        c03_decode_en2 [40] { decode_en2() }
        c03_decode_many [40] { decode_many() }
        c03_decode_disc [40] { decode_disc() }
    } };
}
per_type! {
    c03_u8: u8, 3;
    c03_i8: i8, 3;
    c03_u16: u16, 3;
    c03_i16: i16, 3;
    c03_u32: u32, 3;
    c03_i32: i32, 3;
    c03_u64: u64, 4;
    c03_i64: i64, 4;
    c03_u128: u128, 6;
    c03_i128: i128, 6;
    c03_f32: f32, 3;
    c03_f64: f64, 4;
    c03_bool: bool, 3;
    c03_arr: [u32; 3], 5;
    c03_arr_arr: [[i16; 2]; 2], 6;
    c03_opt: Option<u32>, 4;
    c03_opt_tup: Option<(u8, f64)>, 6;
    c03_opt_opt: Option<Option<i8>>, 5;
    c03_phantom: PhantomData<u32>, 2;
    c03_id: Id<u64>, 3;
    c03_array: Array<u64>, 4;
    c03_tup3: (i64, u8, i16), 6;
    c03_tup12: T12, 17;
    c03_vec2: Vec2, 4;
    c03_vec3: Vec3, 5;
    c03_vec4: Vec4, 6;
    c03_quat: Quat, 6;
    c03_mat4: Mat4, 18;
    c03_uvec2: UVec2, 4;
    c03_uvec3: UVec3, 5;
    c03_uvec4: UVec4, 6;
    c03_named: Named, 11;
    c03_tupstruct: Tup, 8;
    c03_outer: Outer, 16;
    c03_en: En, 8;
    c03_en2: En2, 7;
    c03_eng: EnG<u64>, 7;
    c03_many: Many, 4;
    c03_disc: Disc, 4;
    c03_odd: Odd<u64, 3>, 12;
    c03_nil: Nil, 2;
    c03_vertex: Vertex, 17;
}
