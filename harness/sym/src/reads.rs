//! A10, A13: what the runtimes do to buffers and what they read back.
use crate::harness;
use crate::rt::*;
use crate::world::{at, Tri, Val};
use craballoc::prelude::*;
use craballoc::runtime::{IsRuntime, SlabUpdate};
use crabslab::Array;
use std::future::Future;
use std::ops::Bound;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// Runs a future that nothing else in the process can wake.
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..3 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return t;
        }
    }
    check(false, "a read completes without anything else happening");
    unreachable!()
}
fn wgpu_runtime() -> WgpuRuntime {
    let (d, q) = wgpu::model();
    WgpuRuntime { device: Arc::new(d), queue: Arc::new(q) }
}

/// A range of the given kind, and the words it means: from, to. Every valid one, with symbolic ends.
fn bounds(kind: u32, n: usize) -> ((Bound<usize>, Bound<usize>), usize, usize) {
    let m = n as u32 + 1;
    let (a, b) = (below(m), below(m));
    // starts: included, excluded, unbounded; ends the same
    let (from, start) = match kind % 3 {
        0 => (a as usize, Bound::Included(a as usize)),
        1 => (a as usize + 1, Bound::Excluded(a as usize)),
        _ => (0, Bound::Unbounded),
    };
    let (to, end) = match kind / 3 {
        0 => (b as usize, Bound::Excluded(b as usize)),
        1 => (b as usize + 1, Bound::Included(b as usize)),
        _ => (n, Bound::Unbounded),
    };
    assume(from <= to && to <= n);
    ((start, end), from, to)
}
fn compare(got: &[u32], words: &[u32], from: usize, to: usize) {
    check(got.len() == to - from, "as many words as requested");
    let x = below(64);
    check((x >= got.len() as u32) | (at(got, x) == at(words, x + from as u32)), "exactly the requested words, in order");
    for w in got {
        trace(*w);
    }
}
fn fill(n: usize) -> Vec<u32> {
    (0..n).map(|_| any()).collect()
}
fn write_all<R: IsRuntime>(r: &R, b: &R::Buffer, words: &[u32]) {
    let u = SlabUpdate { array: Array::new(0, words.len() as u32), elements: words.to_vec() };
    r.buffer_write(std::iter::once(u), b);
}
/// Any range of a buffer of any small size, read through the CPU runtime.
fn cpu_reads(max: u32) {
    let n = 1 + pick(max) as usize;
    let b = CpuRuntime.buffer_create(n, None, ());
    let words = fill(n);
    write_all(&CpuRuntime, &b, &words);
    let kind = pick(9);
    let (r, from, to) = bounds(kind, n);
    let got = now(CpuRuntime.buffer_read(&b, n, r)).ok().unwrap();
    compare(&got, &words, from, to);
    let x = below(64);
    check(at(&b.as_vec(), x) == at(&words, x), "a read does not change the buffer");
    check(b.as_vec().len() == n, "a read does not change the buffer's size");
    cover(from == to, "an empty range");
    cover(to - from == n && kind == 8, "the full range");
}
/// The same with range expressions, as users write them.
fn cpu_sugar(n: usize) {
    let b = CpuRuntime.buffer_create(n, Some("sugar"), ());
    let words = fill(n);
    write_all(&CpuRuntime, &b, &words);
    let (a, z) = (below(n as u32) as usize, below(n as u32) as usize);
    assume(a <= z);
    let read = |got: Result<Vec<u32>, SlabAllocatorError>, from: usize, to: usize| compare(&got.ok().unwrap(), &words, from, to);
    match pick(6) {
        0 => read(now(CpuRuntime.buffer_read(&b, n, a..z)), a, z),
        1 => read(now(CpuRuntime.buffer_read(&b, n, a..=z)), a, z + 1),
        2 => read(now(CpuRuntime.buffer_read(&b, n, a..)), a, n),
        3 => read(now(CpuRuntime.buffer_read(&b, n, ..z)), 0, z),
        4 => read(now(CpuRuntime.buffer_read(&b, n, ..=z)), 0, z + 1),
        _ => read(now(CpuRuntime.buffer_read(&b, n, ..)), 0, n),
    }
}
/// Any range, read through the allocator and the wgpu runtime. The allocator's words may end before the buffer does.
fn gpu_reads(n: usize) {
    let slab = SlabAllocator::new(wgpu_runtime(), wgpu::BufferUsages::empty());
    let words = fill(n);
    let a = slab.new_array(words.iter().copied());
    check(now(slab.read(0..1)).is_err(), "there is nothing to read before the first commit");
    let b = slab.commit();
    let kind = pick(9);
    let (r, from, to) = bounds(kind, n);
    let got = now(slab.read(r)).ok().unwrap();
    compare(&got, &words, from, to);
    // and again, after a change
    if pick(2) == 1 {
        let (i, v) = (below(n as u32), any());
        a.set_item(i as usize, v);
        slab.commit();
        let got = now(slab.read(from..to)).ok().unwrap();
        let x = below(64);
        let want = sel(x + from as u32 == i, v, at(&words, x + from as u32));
        check((x >= got.len() as u32) | (at(&got, x) == want), "exactly the requested words, in order");
    } else {
        let x = below(64);
        check(at(&b.words(), x) == at(&words, x), "a read does not change the buffer");
    }
    drop(a);
}
/// A typed array among others, read back by handle.
fn gpu_arrays<T: Val>(n: usize) {
    let slab = SlabAllocator::new(wgpu_runtime(), wgpu::BufferUsages::empty());
    let pad = slab.new_value(any());
    let v: Vec<T> = (0..n).map(|_| T::make()).collect();
    let a = slab.new_array(v.iter().copied());
    let tail = slab.new_value(any64());
    let b = slab.commit();
    let before = b.words();
    let got = now(slab.read_array(a.array())).ok().unwrap();
    check(got.len() == n, "as many elements as the array has");
    for (x, y) in got.iter().zip(v.iter()) {
        check(x.same(y), "exactly the array's elements, in order");
    }
    if n > 0 {
        // a part of it
        let (i, len) = (pick(n as u32), pick(n as u32 + 1));
        assume(i + len <= n as u32);
        let part = Array::<T>::new(a.array().index + i * T::SLAB_SIZE as u32, len);
        let got = now(slab.read_array(part)).ok().unwrap();
        check(got.len() == len as usize, "as many elements as the array has");
        for (k, x) in got.iter().enumerate() {
            check(x.same(&v[i as usize + k]), "exactly the array's elements, in order");
        }
    }
    let x = below(64);
    check(at(&b.words(), x) == at(&before, x), "a read does not change the buffer");
    drop((pad, a, tail));
}

/// The runtime's operations, on their own, next to the reference.
fn operations() {
    let gpu = wgpu_runtime();
    let old = 1 + pick(4) as usize;
    let new = old + pick(5) as usize;
    let usages = wgpu::BufferUsages::VERTEX;
    let g = gpu.buffer_create(old, Some("a"), usages);
    let c = CpuRuntime.buffer_create(old, Some("a"), ());
    check(g.size() == 4 * old as u64, "a buffer is created with the full capacity");
    let needed = usages | wgpu::BufferUsages::STORAGE | wgpu::BufferUsages::COPY_DST | wgpu::BufferUsages::COPY_SRC;
    check(g.usage().contains(needed), "a buffer is created with storage and copy usages and those asked for");
    let update = |n: usize| {
        let len = 1 + pick(2);
        let first = below(n as u32);
        assume(first + len <= n as u32);
        SlabUpdate { array: Array::new(first, len), elements: fill(len as usize) }
    };
    let writes: Vec<_> = (0..pick(3)).map(|_| update(old)).collect();
    gpu.buffer_write(writes.iter().cloned(), &g);
    CpuRuntime.buffer_write(writes.into_iter(), &c);
    let g2 = gpu.buffer_create(new, None, usages);
    let c2 = CpuRuntime.buffer_create(new, None, ());
    let early = pick(2) == 1;
    let w = update(new);
    if early {
        // the copy replaces it where they meet
        gpu.buffer_write(std::iter::once(w.clone()), &g2);
        CpuRuntime.buffer_write(std::iter::once(w.clone()), &c2);
    }
    gpu.buffer_copy(&g, &g2, Some("copy"));
    CpuRuntime.buffer_copy(&c, &c2, Some("copy"));
    if !early {
        gpu.buffer_write(std::iter::once(w.clone()), &g2);
        CpuRuntime.buffer_write(std::iter::once(w), &c2);
    }
    gpu.queue.submit(None);
    let x = below(64);
    check(at(&g.words(), x) == at(&c.as_vec(), x), "writes land where the reference puts them");
    check(at(&g2.words(), x) == at(&c2.as_vec(), x), "a copy goes where the reference puts it");
    check(g2.words().len() == new, "a copy does not change the size");
    trace(at(&g2.words(), 0));
}

/// The same history on both runtimes.
fn twins(depth: u32, kinds: u32) {
    let gpu = wgpu_runtime();
    let c = SlabAllocator::new(CpuRuntime, ());
    let g = SlabAllocator::new_with_label(&gpu, wgpu::BufferUsages::INDEX, Some("twin"));
    enum Pair {
        One(Hybrid<u32>, Hybrid<u32>),
        Two(Hybrid<u64>, Hybrid<u64>),
        Arr(HybridArray<u32>, HybridArray<u32>),
        Big(HybridArray<Tri>, HybridArray<Tri>),
    }
    let make = |k: u32| match k {
        0 => {
            let v = any();
            Pair::One(c.new_value(v), g.new_value(v))
        }
        1 => {
            let v = any64();
            Pair::Two(c.new_value(v), g.new_value(v))
        }
        2 => {
            let v = fill(3);
            Pair::Arr(c.new_array(v.clone()), g.new_array(v))
        }
        _ => {
            let v = [Tri::make(), Tri::make()];
            Pair::Big(c.new_array(v), g.new_array(v))
        }
    };
    let mut live = vec![make(2), make(0)];
    let mut recreated = 0;
    let mut last = 0;
    let mut commit = |read: bool| {
        let cb = c.commit();
        let gb = g.commit();
        check(cb.creation_time() == gb.creation_time(), "buffers are recreated in the same commits");
        if gb.size() != last {
            recreated += 1;
            last = gb.size();
        }
        let words = cb.as_vec().clone();
        let x = below(128);
        if read {
            // through the interface
            let got = now(gpu.buffer_read(&gb, words.len(), ..)).ok().unwrap();
            check(got.len() == words.len(), "both buffers have the same size");
            check(at(&got, x) == at(&words, x), "both buffers hold the same words");
        } else {
            gpu.queue.submit(None);
            let got = gb.words();
            check(got.len() == words.len(), "both buffers have the same size");
            check(at(&got, x) == at(&words, x), "both buffers hold the same words");
        }
        check(
            gb.usage().contains(wgpu::BufferUsages::INDEX | wgpu::BufferUsages::STORAGE | wgpu::BufferUsages::COPY_DST | wgpu::BufferUsages::COPY_SRC),
            "every buffer is created with storage and copy usages and those asked for",
        );
        recreated
    };
    for _ in 0..depth {
        match pick(4) {
            0 => live.push(make(pick(kinds))),
            1 => {
                let i = pick(live.len() as u32) as usize;
                match &live[i] {
                    Pair::One(a, b) => {
                        let v = any();
                        a.set(v);
                        b.set(v);
                    }
                    Pair::Two(a, b) => {
                        let v = any64();
                        a.set(v);
                        b.set(v);
                    }
                    Pair::Arr(a, b) => {
                        let (i, v) = (pick(3) as usize, any());
                        a.set_item(i, v);
                        b.set_item(i, v);
                    }
                    Pair::Big(a, b) => {
                        let (i, v) = (pick(2) as usize, Tri::make());
                        a.set_item(i, v);
                        b.set_item(i, v);
                    }
                }
            }
            2 => {
                let i = pick(live.len() as u32) as usize;
                assume(live.len() > 1);
                live.remove(i);
            }
            _ => {
                commit(false);
            }
        }
    }
    let n = commit(true);
    cover(n > 1, "the buffer was recreated");
    trace(n);
}

harness! { LIST:
    a13_cpu_6 ["an empty range", "the full range"] { cpu_reads(6) }
    a13_sugar [] { cpu_sugar(5) }
    a13_gpu [] { gpu_reads(5) }
    a13t_cpu_10 ["an empty range", "the full range"] { cpu_reads(10) }
    a13t_sugar [] { cpu_sugar(9) }
    a10_operations [] { operations() }
    a10_twins_4 ["the buffer was recreated"] { twins(4, 4) }
    a10_read [] { gpu_reads(4) }
    a10_array_u32 [] { gpu_arrays::<u32>(3) }
    a10_array_u64 [] { gpu_arrays::<u64>(3) }
    a10_array_tri [] { gpu_arrays::<Tri>(2) }
    a10_array_nil [] { gpu_arrays::<crate::world::Nil>(2) }
    a10_array_empty [] { gpu_arrays::<u64>(0) }
    a10t_twins_5 ["the buffer was recreated"] { twins(5, 4) }
    a10t_read [] { gpu_reads(7) }
}
