//! A01..A06, A09, A12: histories of one allocator over the CPU runtime.
use crate::harness;
use crate::rt::*;
use crate::world::*;

/// One operation; its arguments are picked.
fn step(w: &mut World, op: u32, kinds: u32, ways: u32) {
    let n = w.things.len() as u32;
    if op == 0 {
        w.create(pick(kinds));
        return;
    }
    match op {
        3 => return w.commit(),
        8 => return w.defrag(),
        9 => return w.probe(),
        10 => return w.update_held(),
        _ => {}
    }
    let i = pick(n) as usize;
    if op != 7 {
        // nothing to do without a handle
        assume(w.things[i].strong() > 0);
    }
    match op {
        1 => w.write(i, pick(ways)),
        2 => w.drop_one(i),
        4 => w.dup(i),
        5 => w.gpu_only(i),
        6 => w.weak(i),
        7 => w.upgrade(i),
        _ => w.drop_all(i),
    }
}
/// `depth` operations from the menu, after creating things of the given kinds.
fn free(on: u32, first: &[u32], menu: &[u32], depth: u32, kinds: u32, ways: u32) {
    let mut w = World::new(on);
    for k in first {
        w.create(*k);
    }
    for _ in 0..depth {
        let op = menu[pick(menu.len() as u32) as usize];
        step(&mut w, op, kinds, ways);
    }
    w.finish();
    cover(w.reused > 0, "words are reused");
    cover(w.held.len() > 2, "three commits");
}
/// Create, drop some, commit, create again, commit, and once more.
fn phases(on: u32, objects: u32, kinds: u32, again: u32, defrag: bool) {
    let mut w = World::new(on);
    for _ in 0..objects {
        w.create(pick(kinds));
    }
    if pick(2) == 1 {
        w.commit();
    }
    let gone = pick(1 << objects);
    for i in 0..objects {
        if gone >> i & 1 == 1 {
            w.drop_one(i as usize);
        }
    }
    // between the drop and the commit nothing may be reused
    let early = pick(2) == 1;
    if early {
        w.create(0);
    }
    w.commit();
    if defrag {
        w.defrag();
    }
    for _ in 0..again {
        w.create(pick(kinds + 1));
    }
    if early {
        w.drop_one(objects as usize);
    }
    w.commit();
    w.create(2);
    cover(w.reused > 0, "words are reused");
    cover(w.reused > 1, "words are reused twice");
    w.finish();
}
/// Large and small things next to each other: sizes around powers of two, several growths.
fn sizes(on: u32) {
    let mut w = World::new(on);
    let a = w.array::<u32>([1, 3, 5, 9][pick(4) as usize]);
    if pick(2) == 1 {
        w.commit();
    }
    let b = match pick(3) {
        0 => w.array::<Tri>(5),
        1 => w.array::<u64>(4),
        _ => w.array::<u32>(17),
    };
    let c = w.value::<u32>();
    if pick(2) == 1 {
        w.commit();
    }
    w.write(b, 1);
    w.write(c, 0);
    let gone = if pick(2) == 0 { a } else { b };
    w.drop_one(gone);
    w.commit();
    // smaller, as large, larger
    match pick(4) {
        0 => w.value::<u32>(),
        1 => w.array::<u32>(w.things[gone].words()),
        2 => w.array::<u32>(w.things[gone].words() - 1),
        _ => w.array::<u64>(9),
    };
    w.write(c, 1);
    if pick(2) == 1 {
        w.drop_one(c);
        w.commit();
    }
    w.value::<u64>();
    cover(w.reused > 0, "words are reused");
    cover(w.contents.len() > 32, "more than 32 words");
    w.finish();
}
/// Writes that are queued between two commits, on arrays and values next to them.
fn queued(on: u32, n: usize, writes: u32, symbolic: bool) {
    let mut w = World::new(on);
    w.value::<u32>();
    let a = if pick(2) == 0 { w.array::<u32>(n) } else { w.array::<u64>(n) };
    w.value::<u64>();
    let first = pick(4);
    if first & 1 == 1 {
        w.commit();
    }
    if first & 2 == 2 {
        w.dup(a);
        w.gpu_only(a);
    }
    for _ in 0..writes {
        let i = pick(3) as usize;
        if i == a {
            // any index, or every item in turn
            w.write(i, if symbolic { 5 } else { [0, 1, 3][pick(3) as usize] });
        } else {
            w.write(i, [0, 2][pick(2) as usize]);
        }
    }
    w.commit();
    w.write(a, 5);
    w.finish();
}
/// A lock guard that is held while another handle commits: what it changes arrives with the next commit.
fn guarded() {
    let slab = craballoc::prelude::SlabAllocator::new(craballoc::prelude::CpuRuntime, ());
    let a = slab.new_value(any());
    let b = slab.new_value(any64());
    if pick(2) == 1 {
        slab.commit();
    }
    let keep = a.clone();
    let v = any();
    let early = pick(2) == 1;
    let mut g = a.lock();
    if early {
        *g = v;
    }
    b.set(any64());
    let at = slab.commit();
    if !early {
        *g = v;
    }
    drop(g);
    check(keep.get() == v, "a guard's write is seen by every handle");
    check(slab.has_queued_updates(), "a guard's write is queued when the guard is dropped");
    if pick(2) == 1 {
        drop(a);
    }
    slab.commit();
    let x = below(8);
    let buf = at.as_vec().clone();
    check((x != keep.id().inner()) | (crate::world::at(&buf, x) == v), "the buffer holds what a guard wrote");
    trace(keep.get());
    cover(early, "written before the commit");
    cover(!early, "written after the commit");
}
/// A workload whose live data is bounded: the buffer stops growing.
fn bounded(rounds: u32, kinds: u32) {
    let mut w = World::new(on::REUSE);
    let keep = w.create(pick(3));
    let mut peak = 0;
    for r in 0..rounds {
        let a = w.create(pick(kinds));
        let b = w.create(pick(kinds));
        w.write(keep, 0);
        if pick(2) == 1 {
            w.drop_one(a);
            w.drop_one(b);
        } else {
            w.drop_one(b);
            w.drop_one(a);
        }
        w.commit();
        if r == 0 {
            peak = w.high;
        }
    }
    // 4 words for each of two things per round, whatever the order
    check(w.high <= peak + 6, "a bounded workload does not grow the buffer");
    w.finish();
    cover(w.reused > 1, "words are reused");
}
/// Released neighbours serve a request for their combined size.
fn neighbours() {
    let mut w = World::new(on::REUSE | on::VALUE);
    let n = 4;
    for _ in 0..n {
        w.create(pick(3));
    }
    // which handle goes last, and a clone that keeps one of them for a while
    let held = pick(n + 1);
    if held < n {
        w.dup(held as usize);
    }
    let order = pick(3);
    for k in 0..n {
        let i = match order {
            0 => k,
            1 => n - 1 - k,
            _ => (k + 2) % n,
        };
        w.drop_one(i as usize);
        if pick(2) == 1 {
            w.commit();
        }
    }
    w.commit();
    if held < n {
        w.drop_one(held as usize);
        w.commit();
    }
    if pick(2) == 1 {
        w.defrag();
    }
    let all = w.high;
    w.array::<u32>(all);
    check(w.high == all, "the combined size of released neighbours is served again");
    w.finish();
}
/// Things without words, and accesses outside of arrays, among others.
fn empties(depth: u32) {
    let mut w = World::new(on::PLACE | on::VALUE | on::FRAME | on::HANDLE);
    w.create(0);
    if pick(2) == 1 {
        w.commit();
    }
    for _ in 0..depth {
        match pick(7) {
            0 => {
                w.create([0, 5, 6, 7, 2][pick(5) as usize]);
            }
            1 => w.commit(),
            2 => w.defrag(),
            op => {
                let i = pick(w.things.len() as u32) as usize;
                assume(w.things[i].strong() > 0);
                match op {
                    3 => w.write(i, [2, 4, 1][pick(3) as usize]),
                    4 => w.drop_one(i),
                    5 => w.dup(i),
                    _ => w.gpu_only(i),
                }
            }
        }
    }
    // and with words after them
    w.create(3);
    w.finish();
}
/// Things with and without words next to each other, dropped in any order over two commits.
fn layers() {
    let mut w = World::new(on::PLACE | on::VALUE | on::FRAME | on::HANDLE);
    for _ in 0..3 {
        w.create([0, 2, 5, 6, 7][pick(5) as usize]);
    }
    w.create(0);
    if pick(2) == 1 {
        w.commit();
    }
    let first = pick(16);
    for i in 0..4 {
        if first >> i & 1 == 1 {
            w.drop_one(i);
        }
    }
    w.commit();
    for i in 0..4 {
        if first >> i & 1 == 0 {
            w.drop_one(i);
        }
    }
    w.commit();
    w.create([0, 2, 3, 6][pick(4) as usize]);
    w.finish();
    cover(w.reused > 0, "words are reused");
}
/// An index anywhere in `usize`, on arrays of any kind of item.
fn anywhere<T: Val>(n: usize) {
    let mut w = World::new(on::PLACE | on::VALUE | on::FRAME | on::HANDLE);
    w.value::<u32>();
    let a = w.array::<T>(n);
    w.value::<u64>();
    if pick(2) == 1 {
        w.commit();
    }
    if pick(2) == 1 {
        w.gpu_only(a);
    }
    w.write(a, 5);
    w.write(a, 5);
    w.commit();
    w.drop_one(a);
    w.value::<u32>();
    w.finish();
}

harness! { LIST:
    a01_free_5 ["words are reused"] { free(on::PLACE, &[0], &[0, 2, 3, 4, 8], 5, 3, 2) }
    a01_phases_2 ["words are reused"] { phases(on::PLACE, 2, 3, 2, true) }
    a01_sizes ["words are reused", "more than 32 words"] { sizes(on::PLACE) }
    a01t_free_6 ["words are reused"] { free(on::PLACE, &[0], &[0, 2, 3, 4, 5], 6, 3, 2) }
    a01t_phases_3 ["words are reused"] { phases(on::PLACE, 3, 4, 2, true) }
    a02_free_5 ["words are reused"] { free(on::VALUE, &[0], &[0, 1, 2, 3], 5, 3, 2) }
    a02_ways_4 [] { free(on::VALUE, &[2, 1], &[1, 3, 4, 5, 6, 7, 2], 4, 3, 5) }
    a02_queued_3 [] { queued(on::VALUE, 3, 3, false) }
    a02_queued_2 [] { queued(on::VALUE, 4, 2, true) }
    a02_sizes ["words are reused", "more than 32 words"] { sizes(on::VALUE) }
    a02_guarded ["written before the commit", "written after the commit"] { guarded() }
    a02t_free_6 ["words are reused"] { free(on::VALUE, &[0], &[0, 1, 2, 3], 6, 3, 2) }
    a02t_ways_5 [] { free(on::VALUE, &[2, 1], &[1, 3, 4, 5, 6, 7, 2], 5, 3, 5) }
    a02t_queued_4 [] { queued(on::VALUE, 4, 4, false) }
    a03_free_5 ["words are reused", "three commits"] { free(on::FRAME, &[0], &[0, 1, 2, 3], 5, 3, 2) }
    a03_sizes ["words are reused", "more than 32 words"] { sizes(on::FRAME) }
    a03_queued_2 [] { queued(on::FRAME, 3, 2, true) }
    a03t_free_6 ["words are reused", "three commits"] { free(on::FRAME, &[0], &[0, 1, 2, 3], 6, 3, 2) }
    a04_free_5 ["words are reused"] { free(on::REUSE, &[0], &[0, 2, 3, 4, 5, 6, 7], 5, 3, 2) }
    a04_phases_2 ["words are reused", "words are reused twice"] { phases(on::REUSE, 2, 3, 2, false) }
    a04_phases_3 ["words are reused", "words are reused twice"] { phases(on::REUSE, 3, 3, 1, true) }
    a04_bounded ["words are reused"] { bounded(2, 4) }
    a04_neighbours [] { neighbours() }
    a04_sizes ["words are reused", "more than 32 words"] { sizes(on::REUSE) }
    a04t_bounded ["words are reused"] { bounded(3, 4) }
    a04t_phases_3 ["words are reused", "words are reused twice"] { phases(on::REUSE, 3, 4, 2, true) }
    a05_free_5 ["three commits"] { free(on::VALID, &[0], &[0, 1, 2, 3, 10], 5, 3, 1) }
    a05_grow_4 ["three commits"] { free(on::VALID, &[], &[0, 3, 10], 4, 5, 1) }
    a05_sizes ["words are reused", "more than 32 words"] { sizes(on::VALID) }
    a05t_free_6 ["three commits"] { free(on::VALID, &[0], &[0, 1, 2, 3, 10], 6, 3, 1) }
    a06_free_4 [] { free(on::HANDLE, &[0], &[1, 2, 3, 4, 5, 6, 7], 4, 3, 5) }
    a06_free_5 [] { free(on::HANDLE, &[1], &[1, 2, 4, 5, 6, 7], 5, 3, 2) }
    a06_array_4 [] { free(on::HANDLE, &[8], &[1, 2, 3, 4, 5], 4, 3, 6) }
    a06_anywhere [] { anywhere::<u64>(3) }
    a06t_free_5 [] { free(on::HANDLE, &[0], &[1, 2, 3, 4, 5, 6, 7], 5, 3, 5) }
    a06t_free_6 [] { free(on::HANDLE, &[1], &[1, 2, 4, 5, 6, 7], 6, 3, 2) }
    a09_empties_4 [] { empties(4) }
    a09_layers ["words are reused"] { layers() }
    a09_any_u32 [] { anywhere::<u32>(2) }
    a09_any_tri [] { anywhere::<Tri>(3) }
    a09_any_nil [] { anywhere::<Nil>(2) }
    a09_any_empty [] { anywhere::<u64>(0) }
    a09t_empties_5 [] { empties(5) }
    a12_free_4 ["words are reused"] { free(on::PENDING, &[0], &[0, 1, 2, 3, 4, 9], 4, 3, 2) }
    a12_few_5 ["words are reused"] { free(on::PENDING, &[2], &[0, 1, 2, 3, 9], 5, 1, 2) }
    a12_ways_4 [] { free(on::PENDING | on::VALUE, &[1], &[1, 3, 5, 6, 7, 9, 11], 4, 3, 5) }
    a12t_free_5 ["words are reused"] { free(on::PENDING, &[0], &[0, 1, 2, 3, 4, 9], 5, 3, 2) }
}
