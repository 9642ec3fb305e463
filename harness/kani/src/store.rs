//! C01 (round trip) and C02 (frame and locality).
use crate::nd;
use crate::types::*;
use core::marker::PhantomData;
use crabslab::*;
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};

/// An arbitrary slab of arbitrary length in [need, N], and an arbitrary index where `need` words fit.
fn slab<const N: usize>(need: usize) -> ([u32; N], usize, usize) {
    let mut words = [0u32; N];
    let mut i = 0;
    while i < N {
        words[i] = nd::u32();
        i += 1;
    }
    let len = nd::usize();
    nd::assume(len <= N && len >= need);
    let index = nd::usize();
    nd::assume(index <= len - need);
    (words, len, index)
}

/// C01: write then read gives the value back, through both entry points.
pub fn roundtrip<T: Nd, const N: usize>() {
    assert!(T::SLAB_SIZE <= N);
    let (mut words, len, index) = slab::<N>(T::SLAB_SIZE);
    let v = T::nd();
    let s = &mut words[..len];
    s.write(Id::<T>::from(index), &v);
    let r = T::read_slab(index, s);
    prop!(r.same(&v), "a value read back differs from the value written");
    witness!(index > 0 && len < N, "inside a larger slab");
}

/// C02: frame of the write, returned index, locality of the read.
pub fn frame<T: Nd, const N: usize>() {
    assert!(T::SLAB_SIZE <= N);
    let (mut words, len, index) = slab::<N>(T::SLAB_SIZE);
    let before = words;
    let v = T::nd();
    let next = words[..len].write_indexed(&v, index);
    prop!(next == index + T::SLAB_SIZE, "the index returned by a write is not index + SLAB_SIZE");
    let mut i = 0;
    while i < N {
        if i < index || i >= index + T::SLAB_SIZE {
            prop!(words[i] == before[i], "a write changed a word outside its window");
        }
        i += 1;
    }
    witness!(index > 0 && len < N, "inside a larger slab");
}
pub fn local<T: Nd, const N: usize>() {
    let (a, len, index) = slab::<N>(T::SLAB_SIZE);
    let mut b = [0u32; N];
    let mut i = 0;
    while i < N {
        b[i] = nd::u32();
        if i >= index && i < index + T::SLAB_SIZE {
            b[i] = a[i];
        }
        i += 1;
    }
    let x = T::read_slab(index, &a[..len]);
    let y = T::read_slab(index, &b[..len]);
    prop!(x.same(&y), "a read depends on words outside its window");
    witness!(index > 0 && len < N, "inside a larger slab");
}

macro_rules! per_type {
    ($( $rt:ident $fr:ident $lo:ident : $t:ty , $n:literal ;)*) => {
        harnesses! { $(
            $rt [40] { roundtrip::<$t, $n>() }
            $fr [40] { frame::<$t, $n>() }
            $lo [40] { local::<$t, $n>() }
        )* }
    };
}
per_type! {
    c01_u8 c02_w_u8 c02_r_u8: u8, 4;
    c01_i8 c02_w_i8 c02_r_i8: i8, 4;
    c01_u16 c02_w_u16 c02_r_u16: u16, 4;
    c01_i16 c02_w_i16 c02_r_i16: i16, 4;
    c01_u32 c02_w_u32 c02_r_u32: u32, 4;
    c01_i32 c02_w_i32 c02_r_i32: i32, 4;
    c01_u64 c02_w_u64 c02_r_u64: u64, 5;
    c01_i64 c02_w_i64 c02_r_i64: i64, 5;
    c01_u128 c02_w_u128 c02_r_u128: u128, 7;
    c01_i128 c02_w_i128 c02_r_i128: i128, 7;
    c01_f32 c02_w_f32 c02_r_f32: f32, 4;
    c01_f64 c02_w_f64 c02_r_f64: f64, 5;
    c01_bool c02_w_bool c02_r_bool: bool, 4;
    c01_arr_u32_3 c02_w_arr_u32_3 c02_r_arr_u32_3: [u32; 3], 6;
    c01_arr_u64_2 c02_w_arr_u64_2 c02_r_arr_u64_2: [u64; 2], 7;
    c01_arr_arr c02_w_arr_arr c02_r_arr_arr: [[i16; 2]; 2], 7;
    c01_arr_0 c02_w_arr_0 c02_r_arr_0: [u32; 0], 3;
    c01_arr_opt c02_w_arr_opt c02_r_arr_opt: [Option<u16>; 2], 7;
    c01_opt_u32 c02_w_opt_u32 c02_r_opt_u32: Option<u32>, 5;
    c01_opt_tuple c02_w_opt_tuple c02_r_opt_tuple: Option<(u8, f64)>, 7;
    c01_opt_opt c02_w_opt_opt c02_r_opt_opt: Option<Option<i8>>, 6;
    c01_phantom c02_w_phantom c02_r_phantom: PhantomData<u32>, 2;
    c01_id c02_w_id c02_r_id: Id<u64>, 4;
    c01_array c02_w_array c02_r_array: Array<u64>, 5;
    c01_tup1 c02_w_tup1 c02_r_tup1: (u64,), 5;
    c01_tup2 c02_w_tup2 c02_r_tup2: (u8, u64), 6;
    c01_tup3 c02_w_tup3 c02_r_tup3: (i64, u8, i16), 7;
    c01_tup4 c02_w_tup4 c02_r_tup4: (bool, u64, u32, f64), 9;
    c01_tup5 c02_w_tup5 c02_r_tup5: (u8, u64, u32, i8, u16), 9;
    c01_tup6 c02_w_tup6 c02_r_tup6: (u8, u64, u32, i8, u16, i64), 11;
    c01_tup7 c02_w_tup7 c02_r_tup7: (u8, u64, u32, i8, u16, i64, bool), 12;
    c01_tup8 c02_w_tup8 c02_r_tup8: (u8, u64, u32, i8, u16, i64, bool, u8), 13;
    c01_tup9 c02_w_tup9 c02_r_tup9: (u8, u64, u32, i8, u16, i64, bool, u8, f32), 14;
    c01_tup10 c02_w_tup10 c02_r_tup10: (u8, u64, u32, i8, u16, i64, bool, u8, f32, u32), 15;
    c01_tup11 c02_w_tup11 c02_r_tup11: (u8, u64, u32, i8, u16, i64, bool, u8, f32, u32, u64), 17;
    c01_tup12 c02_w_tup12 c02_r_tup12: T12, 20;
    c01_tup13 c02_w_tup13 c02_r_tup13: T13, 24;
    c01_vec2 c02_w_vec2 c02_r_vec2: Vec2, 5;
    c01_vec3 c02_w_vec3 c02_r_vec3: Vec3, 6;
    c01_vec4 c02_w_vec4 c02_r_vec4: Vec4, 7;
    c01_quat c02_w_quat c02_r_quat: Quat, 7;
    c01_mat4 c02_w_mat4 c02_r_mat4: Mat4, 18;
    c01_uvec2 c02_w_uvec2 c02_r_uvec2: UVec2, 5;
    c01_uvec3 c02_w_uvec3 c02_r_uvec3: UVec3, 6;
    c01_uvec4 c02_w_uvec4 c02_r_uvec4: UVec4, 7;
    c01_named c02_w_named c02_r_named: Named, 12;
    c01_tupstruct c02_w_tupstruct c02_r_tupstruct: Tup, 9;
    c01_gen c02_w_gen c02_r_gen: Gen<Option<u64>>, 8;
    c01_outer c02_w_outer c02_r_outer: Outer, 16;
    c01_en c02_w_en c02_r_en: En, 9;
    c01_en2 c02_w_en2 c02_r_en2: En2, 8;
    c01_eng c02_w_eng c02_r_eng: EnG<u64>, 8;
    c01_many c02_w_many c02_r_many: Many, 5;
    c01_disc c02_w_disc c02_r_disc: Disc, 4;
    c01_odd c02_w_odd c02_r_odd: Odd<u64, 3>, 12;
    c01_wrap c02_w_wrap c02_r_wrap: Wrap, 5;
    c01_nil c02_w_nil c02_r_nil: Nil, 2;
    c01_vertex c02_w_vertex c02_r_vertex: Vertex, 18;
    c01_opt_en c02_w_opt_en c02_r_opt_en: Option<En2>, 9;
    c01_arr_named c02_w_arr_named c02_r_arr_named: [Gen<u64>; 2], 11;
}
