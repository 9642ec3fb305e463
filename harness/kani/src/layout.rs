//! C06: derived layouts, offsets, sizes.
use crate::nd;
use crate::types::*;
use core::marker::PhantomData;
use crabslab::*;
use crabslab::offset::Offset;
use glam::*;

fn words<const N: usize>() -> [u32; N] {
    let mut words = [0u32; N];
    let mut i = 0;
    while i < N {
        words[i] = nd::u32();
        i += 1;
    }
    words
}

/// A field at word `off` of a parent: `get` projects it.
fn field<P: Nd, F: Nd, const N: usize>(off: usize, o: fn() -> Offset<F, P>, get: fn(&P) -> F, with: fn(P, F) -> P) {
    prop!(o().offset as usize == off, "a field offset is not the sum of the sizes of the fields before it");
    let mut w = words::<N>();
    let base = nd::u32();
    nd::assume(base as usize + P::SLAB_SIZE <= N);
    let id = Id::<P>::new(base);
    let p = P::nd();
    w[..].write(id, &p);
    // the field id, in every way it can be computed
    let fid: Id<F> = id + o();
    let fid2: Id<F> = o() + id;
    prop!(fid.inner() == base + off as u32 && fid2.inner() == fid.inner(), "id + offset is not base + offset");
    prop!(Id::<F>::from(o()).inner() == off as u32, "the id of an offset is not the offset");
    // reading through the field id
    let f = F::read_slab(fid.index(), &w[..]);
    prop!(f.same(&get(&p)), "the word range at the offset is not the field");
    // writing through the field id
    let g = F::nd();
    w[..].write(fid, &g);
    let q = P::read_slab(base as usize, &w[..]);
    prop!(get(&q).same(&g), "writing through the offset does not write the field");
    prop!(q.same(&with(p, g)), "writing through the offset changes another field");
    witness!(base > 0, "not at the start of the slab");
}

macro_rules! fields {
    ($( $name:ident : $p:ty [ $n:literal ] . $f:tt : $t:ty = $off:literal , $o:ident ;)*) => { harnesses! {
        $( $name [40] { field::<$p, $t, $n>($off, || <$p>::$o, |p| p.$f, |mut p, f| { p.$f = f; p }) } )*
        c06_sizes [40] { sizes() }
        c06_named_words [40] { named_words() }
        c06_tuple_words [40] { tuple_words() }
        c06_en_words [40] { en_words() }
        c06_en2_words [40] { en2_words() }
        c06_eng_words [40] { eng_words() }
        c06_many_words [40] { many_words() }
        c06_disc_words [40] { disc_words() }
        c06_odd_words [40] { odd_words() }
        c06_nested_offsets [40] { nested() }
    } }
}
fields! {
    c06_named_a: Named[11].a: u8 = 0, OFFSET_OF_A;
    c06_named_b: Named[11].b: u64 = 1, OFFSET_OF_B;
    c06_named_c: Named[11].c: [u16; 3] = 3, OFFSET_OF_C;
    c06_named_d: Named[11].d: Option<u32> = 6, OFFSET_OF_D;
    c06_named_e: Named[11].e: f32 = 8, OFFSET_OF_E;
    c06_tup_0: Tup[8].0: i16 = 0, OFFSET_OF_0;
    c06_tup_1: Tup[8].1: u128 = 1, OFFSET_OF_1;
    c06_tup_2: Tup[8].2: bool = 5, OFFSET_OF_2;
    c06_gen_head: Gen<u64>[6].head: u32 = 0, OFFSET_OF_HEAD;
    c06_gen_body: Gen<u64>[6].body: u64 = 1, OFFSET_OF_BODY;
    c06_gen_tail: Gen<u64>[6].tail: i32 = 3, OFFSET_OF_TAIL;
    c06_geno_body: Gen<Option<Tup>>[11].body: Option<Tup> = 1, OFFSET_OF_BODY;
    c06_geno_tail: Gen<Option<Tup>>[11].tail: i32 = 8, OFFSET_OF_TAIL;
    c06_outer_first: Outer[15].first: Gen<u64> = 0, OFFSET_OF_FIRST;
    c06_outer_nothing: Outer[15].nothing: PhantomData<u32> = 4, OFFSET_OF_NOTHING;
    c06_outer_second: Outer[15].second: Tup = 4, OFFSET_OF_SECOND;
    c06_outer_id: Outer[15].id: Id<Named> = 10, OFFSET_OF_ID;
    c06_outer_arr: Outer[15].arr: Array<u32> = 11, OFFSET_OF_ARR;
    c06_vertex_position: Vertex[17].position: Vec4 = 0, OFFSET_OF_POSITION;
    c06_vertex_normal: Vertex[17].normal: Vec3 = 4, OFFSET_OF_NORMAL;
    c06_vertex_uv: Vertex[17].uv: Vec2 = 7, OFFSET_OF_UV;
    c06_vertex_index: Vertex[17].index: UVec2 = 9, OFFSET_OF_INDEX;
    c06_vertex_rotation: Vertex[17].rotation: Quat = 11, OFFSET_OF_ROTATION;
}

fn sizes() {
    prop!(Named::SLAB_SIZE == 9 && Tup::SLAB_SIZE == 6 && Gen::<u64>::SLAB_SIZE == 4 && Outer::SLAB_SIZE == 13, "size of a derived struct is not the sum of its fields");
    prop!(Vertex::SLAB_SIZE == 15 && Wrap::SLAB_SIZE == 2 && Nil::SLAB_SIZE == 0, "size of a derived struct is not the sum of its fields");
    prop!(<(u8, u64, bool)>::SLAB_SIZE == 4 && T12::SLAB_SIZE == 16 && T13::SLAB_SIZE == 20, "size of a tuple is not the sum of its fields");
    prop!(En::SLAB_SIZE == 6 && En2::SLAB_SIZE == 5 && En3::SLAB_SIZE == 3 && Disc::SLAB_SIZE == 1 && Odd::<u64, 3>::SLAB_SIZE == 10 && EnG::<u64>::SLAB_SIZE == 5 && Many::SLAB_SIZE == 2, "size of a derived enum is not 1 + largest payload");
    prop!(Named::SLAB_SIZE_OF_B == 2 && Named::SLAB_SIZE_OF_C == 3 && Named::SLAB_SIZE_OF_D == 2 && Tup::SLAB_SIZE_OF_1 == 4 && Outer::SLAB_SIZE_OF_FIRST == 4 && Outer::SLAB_SIZE_OF_SECOND == 6, "SLAB_SIZE_OF_* is not the field's size");
    prop!(u8::SLAB_SIZE == 1 && i16::SLAB_SIZE == 1 && u64::SLAB_SIZE == 2 && i128::SLAB_SIZE == 4 && f64::SLAB_SIZE == 2 && f32::SLAB_SIZE == 1 && bool::SLAB_SIZE == 1, "primitive sizes");
    prop!(<[u64; 3]>::SLAB_SIZE == 6 && Option::<u64>::SLAB_SIZE == 3 && PhantomData::<u64>::SLAB_SIZE == 0 && Id::<u64>::SLAB_SIZE == 1 && Array::<u64>::SLAB_SIZE == 2, "composite sizes");
    witness!(true, "reached");
}

/// Raw words of a struct, spelled out by hand.
fn named_words() {
    let v = Named::nd();
    let mut w = words::<11>();
    w[..].write_indexed(&v, 1);
    prop!(w[1] as u8 == v.a, "field 0");
    prop!(w[2] == v.b as u32 && w[3] == (v.b >> 32) as u32, "field 1 (low word first)");
    prop!(w[4] as u16 == v.c[0] && w[5] as u16 == v.c[1] && w[6] as u16 == v.c[2], "field 2");
    prop!((w[7] == 1) == v.d.is_some(), "field 3 tag");
    if let Some(d) = v.d {
        prop!(w[8] == d, "field 3 payload");
    }
    prop!(w[9] == v.e.to_bits(), "field 4");
    witness!(v.d.is_some(), "some");
}
fn tuple_words() {
    let v = <(u32, u64, f32, u128, u32)>::nd();
    let mut w = words::<10>();
    w[..].write_indexed(&v, 0);
    prop!(w[0] == v.0 && w[1] == v.1 as u32 && w[2] == (v.1 >> 32) as u32 && w[3] == v.2.to_bits(), "tuple fields are not in order");
    prop!(w[4] == v.3 as u32 && w[5] == (v.3 >> 32) as u32 && w[6] == (v.3 >> 64) as u32 && w[7] == (v.3 >> 96) as u32 && w[8] == v.4, "tuple fields are not in order");
    witness!(w[9] != w[0], "reached");
}
fn en_words() {
    let v = En::nd();
    let mut w = words::<7>();
    let next = w[..].write_indexed(&v, 1);
    prop!(next == 7, "an enum write does not end after the largest variant");
    let ok = match v {
        En::Unit => w[1] == 0,
        En::Named { a, b } => w[1] == 1 && w[2] == a && w[3] == b as u32 && w[4] == (b >> 32) as u32,
        En::Big(c, d) => w[1] == 2 && w[2] == c as u32 && w[3] == (c >> 32) as u32 && w[4] == (c >> 64) as u32 && w[5] == (c >> 96) as u32 && w[6] as i8 == d,
        En::Small(e) => w[1] == 3 && w[2] == e as u32,
        En::Nested(g) => w[1] == 4 && w[2] == g.head && w[3] as u16 == g.body && w[4] as i32 == g.tail,
        En::Last => w[1] == 5,
    };
    prop!(ok, "enum words are not discriminant (declaration position) followed by the payload");
    witness!(matches!(v, En::Last), "last variant");
    witness!(matches!(v, En::Big(..)), "largest variant");
}
fn en2_words() {
    let v = En2::nd();
    let mut w = words::<6>();
    let next = w[..].write_indexed(&v, 1);
    prop!(next == 6, "an enum write does not end after the largest variant");
    let ok = match v {
        En2::Full { x, y } => w[1] == 0 && w[2] == x[0] && w[3] == x[1] && w[4] == x[2] && w[5] == y.to_bits(),
        En2::Dflt => w[1] == 1,
        En2::Inner(En3::A) => w[1] == 2 && w[2] == 0,
        En2::Inner(En3::B(a, b)) => w[1] == 2 && w[2] == 1 && w[3] == a && w[4] == b,
    };
    prop!(ok, "enum words are not discriminant (declaration position) followed by the payload");
    witness!(matches!(v, En2::Inner(En3::B(..))), "nested variant");
}
fn eng_words() {
    let v = EnG::<u64>::nd();
    let mut w = words::<6>();
    let next = w[..].write_indexed(&v, 1);
    prop!(next == 6, "an enum write does not end after the largest variant");
    let ok = match v {
        EnG::Zero => w[1] == 0,
        EnG::One(t) => w[1] == 1 && w[2] == t as u32 && w[3] == (t >> 32) as u32,
        EnG::Two { left, right } => w[1] == 2 && w[2] == left as u32 && w[3] == (left >> 32) as u32 && w[4] == right as u32 && w[5] == (right >> 32) as u32,
    };
    prop!(ok, "enum words are not discriminant (declaration position) followed by the payload");
    witness!(matches!(v, EnG::Two { .. }), "two-field variant");
}
fn many_words() {
    let v = Many::nd();
    let mut w = words::<3>();
    w[..].write_indexed(&v, 1);
    let (k, x) = match v {
        Many::V0 => (0, None), Many::V1(x) => (1, Some(x)), Many::V2 => (2, None), Many::V3 => (3, None), Many::V4(x) => (4, Some(x)),
        Many::V5 => (5, None), Many::V6 => (6, None), Many::V7(x) => (7, Some(x)), Many::V8 => (8, None), Many::V9 => (9, None),
        Many::V10(x) => (10, Some(x)), Many::V11 => (11, None), Many::V12 => (12, None), Many::V13(x) => (13, Some(x)), Many::V14 => (14, None),
        Many::V15 => (15, None), Many::V16(x) => (16, Some(x)), Many::V17 => (17, None), Many::V18 => (18, None),
    };
    prop!(w[1] == k, "the discriminant is not the declaration position");
    if let Some(x) = x {
        prop!(w[2] == x, "payload");
    }
    witness!(k == 18, "last variant");
}
fn disc_words() {
    let v = Disc::nd();
    let mut w = words::<3>();
    w[..].write_indexed(&v, 1);
    let k = match v { Disc::A => 0, Disc::B => 1, Disc::C => 2, Disc::D => 3 };
    prop!(w[1] == k, "the discriminant is not the declaration position");
    w[2] = nd::u32() % 4;
    let r = Disc::read_slab(2, &w);
    let e = match w[2] { 0 => Disc::A, 1 => Disc::B, 2 => Disc::C, _ => Disc::D };
    prop!(r.same(&e), "a discriminant is not read as the declaration position");
    witness!(k == 3, "last variant");
}
fn odd_words() {
    let v = Odd::<u64, 3>::nd();
    let mut w = words::<12>();
    let next = w[..].write_indexed(&v, 1);
    prop!(next == 11, "an enum write does not end after the largest variant");
    let ok = match v {
        Odd::Arr(x, b) => w[1] == 0 && w[2] == x[0] as u32 && w[3] == (x[0] >> 32) as u32 && w[6] == x[2] as u32 && w[7] == (x[2] >> 32) as u32 && w[8] == b as u32,
        Odd::Nothing(_) => w[1] == 1,
        Odd::Mix { a, d, w: (b, c), .. } => {
            w[1] == 2 && (w[2] == 1) == a.is_some() && (a.is_none() || (w[3] == a.unwrap() as u32 && w[4] == (a.unwrap() >> 32) as u32))
                && w[5] == (match d { Disc::A => 0, Disc::B => 1, Disc::C => 2, Disc::D => 3 })
                && w[6] as u8 == b && w[7] == c as u32 && w[10] == (c >> 96) as u32
        }
        Odd::Empty => w[1] == 3,
    };
    prop!(ok, "enum words are not discriminant (declaration position) followed by the payload");
    witness!(matches!(v, Odd::Mix { .. }), "mixed variant");
}
/// Offsets chained through two levels of nesting.
fn nested() {
    let v = Outer::nd();
    let mut w = words::<15>();
    let base = nd::u32();
    nd::assume(base <= 2);
    let id = Id::<Outer>::new(base);
    w[..].write(id, &v);
    let body = (id + Outer::OFFSET_OF_FIRST) + Gen::<u64>::OFFSET_OF_BODY;
    let big = (id + Outer::OFFSET_OF_SECOND) + Tup::OFFSET_OF_1;
    prop!(w[..].read(body) == v.first.body && w[..].read(big) == v.second.1, "chained offsets do not reach the nested field");
    let x = u128::nd();
    w[..].write(big, &x);
    let r: Outer = w[..].read(id);
    let mut e = v;
    e.second.1 = x;
    prop!(r.same(&e), "writing through chained offsets changes something else");
    witness!(base == 2, "base 2");
}
