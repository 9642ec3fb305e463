//! C01, C02 and C03 for larger and nested instantiations. Only the symbolic executor decides these.
use crate::store::{frame, local, roundtrip};
use crate::total::{total, total_cpuslab, total_vec};
use crate::types::*;
use core::marker::PhantomData;
use crabslab::*;
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};

macro_rules! per_type {
    ($( $rt:ident $fr:ident $lo:ident $to:ident : $t:ty , $n:literal ;)*) => {
        harnesses! { $(
            $rt [40] { roundtrip::<$t, $n>() }
            $fr [40] { frame::<$t, $n>() }
            $lo [40] { local::<$t, $n>() }
            $to [40] { total::<$t, $n>() }
        )*
            c03x_vec_arr9 [40] { total_vec::<[u32; 9], 11>() }
            c03x_vec_mat4 [40] { total_vec::<Mat4, 18>() }
            c03x_vec_u8 [40] { total_vec::<u8, 20>() }
            c03x_vec_outer [40] { total_vec::<Outer, 16>() }
            c03x_cpuslab_arr9 [40] { total_cpuslab::<[u32; 9], 11>() }
            c03x_cpuslab_odd [40] { total_cpuslab::<Odd<u64, 3>, 12>() }
            c03x_cpuslab_u32 [40] { total_cpuslab::<u32, 20>() }
            c03x_cpuslab_opt [40] { total_cpuslab::<Option<Vec4>, 8>() }
        }
    };
}
type N4 = ((u8, u64), (u16, (i8, bool)), [u32; 2], Option<(u8, Option<u64>)>);
per_type! {
    c01x_u32_9 c02x_w_u32_9 c02x_r_u32_9 c03x_u32_9: [u32; 9], 13;
    c01x_u64_9 c02x_w_u64_9 c02x_r_u64_9 c03x_u64_9: [u64; 9], 22;
    c01x_u8_17 c02x_w_u8_17 c02x_r_u8_17 c03x_u8_17: [u8; 17], 20;
    c01x_i16_8 c02x_w_i16_8 c02x_r_i16_8 c03x_i16_8: [i16; 8], 11;
    c01x_bool_5 c02x_w_bool_5 c02x_r_bool_5 c03x_bool_5: [bool; 5], 8;
    c01x_f32_16 c02x_w_f32_16 c02x_r_f32_16 c03x_f32_16: [f32; 16], 19;
    c01x_u128_5 c02x_w_u128_5 c02x_r_u128_5 c03x_u128_5: [u128; 5], 23;
    c01x_vec3_5 c02x_w_vec3_5 c02x_r_vec3_5 c03x_vec3_5: [Vec3; 5], 18;
    c01x_mat_2 c02x_w_mat_2 c02x_r_mat_2 c03x_mat_2: [Mat4; 2], 35;
    c01x_id_5 c02x_w_id_5 c02x_r_id_5 c03x_id_5: [Id<u64>; 5], 8;
    c01x_array_4 c02x_w_array_4 c02x_r_array_4 c03x_array_4: [Array<u64>; 4], 11;
    c01x_tup_5 c02x_w_tup_5 c02x_r_tup_5 c03x_tup_5: [(u8, u64); 5], 18;
    c01x_gen_4 c02x_w_gen_4 c02x_r_gen_4 c03x_gen_4: [Gen<u16>; 4], 15;
    c01x_nil_5 c02x_w_nil_5 c02x_r_nil_5 c03x_nil_5: [Nil; 5], 3;
    c01x_phantom_5 c02x_w_phantom_5 c02x_r_phantom_5 c03x_phantom_5: [PhantomData<u8>; 5], 3;
    c01x_mixed c02x_w_mixed c02x_r_mixed c03x_mixed: ([u8; 6], PhantomData<u8>, [u64; 5], bool), 20;
    c01x_aaa c02x_w_aaa c02x_r_aaa c03x_aaa: [[[u16; 2]; 3]; 2], 15;
    c01x_opt_arr c02x_w_opt_arr c02x_r_opt_arr c03x_opt_arr: Option<[u32; 8]>, 12;
    c01x_opt_mat c02x_w_opt_mat c02x_r_opt_mat c03x_opt_mat: Option<Mat4>, 20;
    c01x_opt_nil c02x_w_opt_nil c02x_r_opt_nil c03x_opt_nil: Option<Nil>, 4;
    c01x_opt_id c02x_w_opt_id c02x_r_opt_id c03x_opt_id: Option<Id<u8>>, 5;
    c01x_opt_array c02x_w_opt_array c02x_r_opt_array c03x_opt_array: Option<Array<u8>>, 6;
    c01x_opt_outer c02x_w_opt_outer c02x_r_opt_outer c03x_opt_outer: Option<Outer>, 18;
    c01x_opt3 c02x_w_opt3 c02x_r_opt3 c03x_opt3: Option<Option<Option<u128>>>, 10;
    c01x_n4 c02x_w_n4 c02x_r_n4 c03x_n4: N4, 15;
    c01x_tup_struct c02x_w_tup_struct c02x_r_tup_struct c03x_tup_struct: (Named, Vertex, u8), 30;
    c01x_gen_gen c02x_w_gen_gen c02x_r_gen_gen c03x_gen_gen: Gen<Gen<Gen<u64>>>, 11;
    c01x_gen_en c02x_w_gen_en c02x_r_gen_en c03x_gen_en: Gen<En>, 11;
    c01x_eng_en c02x_w_eng_en c02x_r_eng_en c03x_eng_en: EnG<En2>, 16;
    c01x_eng_gen c02x_w_eng_gen c02x_r_eng_gen c03x_eng_gen: EnG<Gen<f64>>, 12;
    c01x_odd_0 c02x_w_odd_0 c02x_r_odd_0 c03x_odd_0: Odd<u64, 0>, 13;
    c01x_odd_6 c02x_w_odd_6 c02x_r_odd_6 c03x_odd_6: Odd<u64, 6>, 17;
    c01x_disc_3 c02x_w_disc_3 c02x_r_disc_3 c03x_disc_3: [Disc; 3], 6;
    c01x_uvec c02x_w_uvec c02x_r_uvec c03x_uvec: (UVec4, UVec3, UVec2), 12;
    c01x_glam c02x_w_glam c02x_r_glam c03x_glam: (Vec2, Quat, Vec4, Vec3), 16;
}
