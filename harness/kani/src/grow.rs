//! C04, the part that is pure arithmetic: the provided methods of `GrowableSlab` over *any* implementor.
//! (Histories over `Vec<u32>` and `CpuSlab` are decided by the other engine.)
use crate::nd;
use crate::types::*;
use crabslab::*;

/// An implementor that only counts. Its capacity is a hard limit, as it is for a GPU buffer.
struct Strict {
    len: usize,
    cap: usize,
}
impl Slab for Strict {
    fn len(&self) -> usize { self.len }
    fn read_unchecked<T: SlabItem>(&self, _: Id<T>) -> T { unreachable!() }
    fn write_indexed<T: SlabItem>(&mut self, _: &T, i: usize) -> usize {
        prop!(i + T::SLAB_SIZE <= self.len, "append writes outside the slab's length");
        i + T::SLAB_SIZE
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], i: usize) -> usize {
        prop!(t.is_empty() || i + t.len() * T::SLAB_SIZE <= self.len, "append_array writes outside the slab's length");
        i + t.len() * T::SLAB_SIZE
    }
}
impl GrowableSlab for Strict {
    fn capacity(&self) -> usize { self.cap }
    fn reserve_capacity(&mut self, c: usize) {
        if c > self.cap {
            self.cap = c
        }
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let l = self.len;
        prop!(n <= self.cap - self.len, "the length grows past the reserved capacity");
        self.len += n;
        l
    }
}
fn strict() -> Strict {
    let s = Strict { len: nd::usize(), cap: nd::usize() };
    nd::assume(s.len <= s.cap && s.cap <= 1 << 30);
    s
}
fn alloc<T: SlabItem>() {
    let mut s = strict();
    let (len, cap) = (s.len, s.cap);
    let id = s.allocate::<T>();
    prop!(id.index() == len, "allocate does not start at the old length");
    prop!(s.len == len + T::SLAB_SIZE, "allocate does not take SLAB_SIZE words");
    prop!(s.cap >= s.len && s.cap >= cap, "capacity does not cover the length");
    witness!(cap == len && cap > 0, "full");
    witness!(cap == 0, "no capacity");
}
fn alloc_array<T: SlabItem>() {
    let mut s = strict();
    let (len, cap) = (s.len, s.cap);
    let n = nd::usize();
    nd::assume(n <= 1 << 20);
    let a = s.allocate_array::<T>(n);
    if n == 0 {
        prop!(a.is_null() && a.len == 0 && s.len == len && s.cap == cap, "allocating an empty array is not the null array, or changes the slab");
    } else {
        prop!(a.starting_index() == len && a.len() == n, "allocate_array does not return (old length, n)");
        prop!(s.len == len + n * T::SLAB_SIZE, "allocate_array does not take n * SLAB_SIZE words");
        prop!(s.cap >= s.len && s.cap >= cap, "capacity does not cover the length");
    }
    witness!(n > 1000 && cap < 10, "growth by several doublings");
    witness!(n == 0, "empty");
}
fn expand<T: SlabItem>() {
    let mut s = strict();
    let (len, cap) = (s.len, s.cap);
    let n = nd::usize();
    nd::assume(n <= 1 << 20);
    s.maybe_expand_to_fit::<T>(n);
    prop!(s.len == len && s.cap >= cap, "maybe_expand_to_fit changes the length or shrinks the capacity");
    prop!(s.cap >= len + n * T::SLAB_SIZE, "maybe_expand_to_fit does not make room");
    witness!(s.cap == cap && n > 0, "fits already");
    witness!(s.cap > cap, "grows");
}
fn append<T: Nd + Copy>() {
    let mut s = strict();
    let len = s.len;
    let id = s.append(&T::nd());
    prop!(id.index() == len && s.len == len + T::SLAB_SIZE, "append does not go to the old end");
    let d = [T::nd(), T::nd(), T::nd()];
    let n = nd::usize();
    nd::assume(n <= 3);
    let len = s.len;
    let a = s.append_array(&d[..n]);
    prop!(s.len == len + n * T::SLAB_SIZE, "append_array does not take the data's words");
    prop!(n == 0 || (a.starting_index() == len && a.len() == n), "append_array does not return (old length, n)");
    witness!(n == 3, "three");
    witness!(n == 0, "empty");
}
harnesses! {
    c04_alloc_u32 [70] { alloc::<u32>() }
    c04_alloc_u128 [70] { alloc::<u128>() }
    c04_alloc_en [70] { alloc::<En>() }
    c04_alloc_nil [70] { alloc::<Nil>() }
    c04_allocarr_u32 [70] { alloc_array::<u32>() }
    c04_allocarr_u64 [70] { alloc_array::<u64>() }
    c04_allocarr_en [70] { alloc_array::<En>() }
    c04_expand_u32 [70] { expand::<u32>() }
    c04_expand_three [70] { expand::<[u32; 3]>() }
    c04_append_u32 [70] { append::<u32>() }
    c04_append_tup [70] { append::<(u8, u64)>() }
}
