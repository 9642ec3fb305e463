//! C07: algebra of Id, Array, ArrayIter, Offset.
use crate::nd;
use crate::types::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use crabslab::*;
use crabslab::offset::Offset;

/// An array handle whose word extent fits in u32.
fn arr<T: SlabItem>() -> Array<T> {
    let (start, len) = (nd::u32(), nd::u32());
    nd::assume(start as u64 + len as u64 * T::SLAB_SIZE as u64 <= u32::MAX as u64);
    Array::new(start, len)
}
fn at<T: SlabItem>() {
    let a = arr::<T>();
    let i = nd::usize();
    let id = a.at(i);
    if i < a.len as usize {
        prop!(id.inner() as u64 == a.index as u64 + i as u64 * T::SLAB_SIZE as u64, "at(i) is not start + i * SLAB_SIZE");
    } else {
        prop!(id.is_none() && id.inner() == u32::MAX, "at(i) past the end is not NONE");
    }
    prop!(a.len() == a.len as usize && a.starting_index() == a.index as usize, "len()/starting_index() disagree with the handle");
    prop!(a.is_empty() == (a.len == 0), "is_empty() is not len == 0");
    prop!(a.is_null() == (a.index == u32::MAX), "is_null() is not start == u32::MAX");
    let w = a.into_u32_array();
    prop!(w.index == a.index && w.len as u64 == a.len as u64 * T::SLAB_SIZE as u64, "the u32 view does not cover exactly the elements");
    witness!(i < a.len as usize && i > 1000, "a large index inside");
    witness!(i >= a.len as usize && a.len > 0, "an index outside");
    witness!(a.len > 1000 && a.index > 1000, "a large array");
}
fn iter<T: SlabItem>() {
    let a = arr::<T>();
    nd::assume(a.len <= 4);
    let mut it = a.iter();
    let mut k = 0usize;
    while k < 6 {
        match it.next() {
            Some(id) => {
                prop!(k < a.len as usize, "the iterator yields more ids than the array has elements");
                prop!(id.inner() as u64 == a.index as u64 + k as u64 * T::SLAB_SIZE as u64, "the k-th id is not at(k)");
            }
            None => prop!(k >= a.len as usize, "the iterator stops before the end"),
        }
        k += 1;
    }
    witness!(a.len == 4, "four elements");
}
/// One step of the iterator from the middle of an arbitrarily long array.
fn iter_counts<T: SlabItem>() {
    let a = arr::<T>();
    nd::assume(a.len <= 3);
    let mut n = 0u32;
    for id in a.iter() {
        prop!(id.inner() >= a.index, "iterated id below the start");
        n += 1;
    }
    prop!(n == a.len, "iteration does not yield exactly len ids");
    witness!(n == 3, "three");
}
fn sub_slab<T: SlabItem>() {
    const N: usize = 10;
    let mut w = [0u32; N];
    let mut i = 0;
    while i < N {
        w[i] = nd::u32();
        i += 1;
    }
    let (start, len) = (nd::u32(), nd::u32());
    nd::assume(start as usize <= N && len as usize <= N && start as usize + len as usize * T::SLAB_SIZE <= N);
    let a = Array::<T>::new(start, len);
    let s = a.sub_slab(&w);
    prop!(s.len() == len as usize * T::SLAB_SIZE, "sub_slab has another length than the elements");
    let mut i = 0;
    while i < N {
        if i < s.len() {
            prop!(s[i] == w[start as usize + i], "sub_slab is not the array's words");
        }
        i += 1;
    }
    witness!(len > 1 && start > 0, "inside");
}
fn union() {
    let (a, b) = (arr::<u32>(), arr::<u32>());
    nd::assume(a.len > 0 && b.len > 0);
    let mut u = a;
    u.union(&b);
    let lo = if a.index < b.index { a.index } else { b.index };
    let (ea, eb) = (a.index as u64 + a.len as u64, b.index as u64 + b.len as u64);
    let hi = if ea > eb { ea } else { eb };
    prop!(u.index == lo, "the union does not start at the smaller start");
    prop!(u.index as u64 + u.len as u64 == hi, "the union does not end at the larger end");
    let mut v = b;
    v.union(&a);
    prop!(u == v, "union is not commutative");
    witness!(a.index < b.index && ea > eb, "nested");
    witness!(ea < b.index as u64, "apart");
}
fn contains_index() {
    let a = arr::<u32>();
    let i = nd::usize();
    let e = i as u64 >= a.index as u64 && (i as u64) < a.index as u64 + a.len as u64;
    prop!(a.contains_index(i) == e, "contains_index is not start <= i < start + len");
    witness!(e, "inside");
    witness!(!e && i > a.index as usize, "after");
}
struct Rec([u8; 32], usize);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            if self.1 < 32 {
                self.0[self.1] = b[i];
            }
            self.1 += 1;
            i += 1;
        }
    }
    fn finish(&self) -> u64 { 0 }
}
fn id_order() {
    let (x, y) = (nd::u32(), nd::u32());
    let (a, b) = (Id::<u64>::new(x), Id::<u64>::new(y));
    prop!((a == b) == (x == y), "Id equality is not equality of the raw values");
    prop!((a != b) == (x != y), "Id inequality is not inequality of the raw values");
    let o = if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater };
    prop!(a.cmp(&b) == o, "Id order is not the order of the raw values");
    prop!(a.partial_cmp(&b) == Some(o), "partial_cmp disagrees with cmp");
    prop!((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparison operators disagree with the raw values");
    let (mut h, mut g) = (Rec([0; 32], 0), Rec([0; 32], 0));
    a.hash(&mut h);
    b.hash(&mut g);
    if x == y {
        let mut same = h.1 == g.1;
        let mut i = 0;
        while i < 32 {
            same = same & (h.0[i] == g.0[i]);
            i += 1;
        }
        prop!(same, "equal ids hash differently");
    }
    let c = a.clone();
    prop!(c.inner() == x, "a cloned id differs");
    witness!(x < y, "less");
    witness!(x == y, "equal");
}
fn id_convert() {
    let x = nd::u32();
    let a = Id::<f32>::new(x);
    prop!(a.inner() == x && a.index() == x as usize && u32::from(a) == x, "id accessors disagree with the raw value");
    prop!(Id::<f32>::from(x).inner() == x && Id::<f32>::from(x as usize).inner() == x, "id conversions disagree with the raw value");
    prop!(a.is_none() == (x == u32::MAX) && a.is_some() == (x != u32::MAX), "is_none/is_some is not raw == u32::MAX");
    prop!(Id::<f32>::default().is_none() && Id::<f32>::NONE.inner() == ID_NONE && ID_NONE == u32::MAX, "the default id is not NONE");
    let r = Array::from(a);
    prop!(r.index == x && r.len == 1, "the array of an id is not one element at the id");
    witness!(x == u32::MAX, "none");
    witness!(x > 70000, "large");
}
fn id_add() {
    let (x, y) = (nd::u32(), nd::u32());
    nd::assume(x as u64 + y as u64 <= u32::MAX as u64);
    let a = Id::<f64>::new(x);
    prop!((a + y).inner() == x + y && (y + a).inner() == x + y, "id + u32 is not raw addition");
    prop!((a + y as usize).inner() == x + y && (y as usize + a).inner() == x + y, "id + usize is not raw addition");
    let o = Offset::<u32, f64>::new(y as usize);
    prop!((a + Offset::<u32, f64>::new(y as usize)).inner() == x + y && (Offset::<u32, f64>::new(y as usize) + a).inner() == x + y, "id + offset is not raw addition");
    prop!(o.offset == y && Id::<u32>::from(o).inner() == y, "an offset does not carry its value");
    witness!(x > 70000 && y > 70000, "large");
}
fn array_eq() {
    let a = Array::<u64>::new(nd::u32(), nd::u32());
    let b = Array::<u64>::new(nd::u32(), nd::u32());
    prop!((a == b) == (a.index == b.index && a.len == b.len), "array equality is not equality of start and length");
    let c = a.clone();
    prop!(c.index == a.index && c.len == a.len, "a cloned array differs");
    let d = Array::<u64>::default();
    prop!(d == Array::NONE && d.is_null() && d.is_empty() && d.len == 0 && d.index == u32::MAX, "the default array is not the null array");
    witness!(a == b, "equal");
}
harnesses! {
    c07_at_u32 [40] { at::<u32>() }
    c07_at_u64 [40] { at::<u64>() }
    c07_at_en [40] { at::<En>() }
    c07_at_three [40] { at::<[u32; 3]>() }
    c07_at_phantom [40] { at::<core::marker::PhantomData<u8>>() }
    c07_iter_u32 [40] { iter::<u32>() }
    c07_iter_u64 [40] { iter::<u64>() }
    c07_iter_en [40] { iter::<En>() }
    c07_iter_counts [40] { iter_counts::<u64>() }
    c07_subslab_u32 [40] { sub_slab::<u32>() }
    c07_subslab_u64 [40] { sub_slab::<u64>() }
    c07_subslab_tup [40] { sub_slab::<(u8, f64)>() }
    c07_union [40] { union() }
    c07_contains_index [40] { contains_index() }
    c07_id_order [40] { id_order() }
    c07_id_convert [40] { id_convert() }
    c07_id_add [40] { id_add() }
    c07_array_eq [40] { array_eq() }
}
