//! A11: two threads on clones of one allocator; the executor takes every schedule within the preemption bound.
use crate::harness;
use crate::rt::*;
use craballoc::prelude::*;
use crabslab::Slab;
use std::collections::VecDeque;

type Slabs = SlabAllocator<CpuRuntime>;

/// What one thread owns. Nothing in here is shared, apart from what the handles share.
struct Side {
    slab: Slabs,
    /// handles of values that both threads hold
    value: Hybrid<u32>,
    gpu: Gpu<u64>,
    array: HybridArray<u32>,
    /// both add to these
    sum: Hybrid<u32>,
    sums: HybridArray<u32>,
    added: u32,
    added_item: u32,
    /// for this thread to drop
    shared: Option<Hybrid<u32>>,
    own: Option<HybridArray<u32>>,
    lone: Option<Hybrid<u32>>,
    /// what it wrote last, by handle
    wrote_value: Option<u32>,
    wrote_gpu: Option<u64>,
    wrote_array: [Option<u32>; 2],
    /// what it made
    values: Vec<(Hybrid<u64>, u64)>,
    arrays: Vec<(GpuArray<u32>, [u32; 3])>,
    words: Vec<(Gpu<u32>, u32)>,
    buffer: Option<SlabBuffer<VecSlab>>,
    /// the end of everything it made
    top: usize,
    /// values for its writes
    data: VecDeque<u32>,
}
impl Side {
    fn next(&mut self) -> u32 {
        self.data.pop_front().unwrap()
    }
    fn next64(&mut self) -> u64 {
        let lo = self.next() as u64;
        lo | (self.next() as u64) << 32
    }
    fn run(&mut self, op: u32) {
        match op {
            CREATE => {
                let v = self.next64();
                let h = self.slab.new_value(v);
                self.top = self.top.max(h.id().index() + 2);
                self.values.push((h, v));
            }
            CREATE_WORD => {
                let v = self.next();
                let h = self.slab.new_value(v);
                self.top = self.top.max(h.id().index() + 1);
                self.words.push((h.into_gpu_only(), v));
            }
            CREATE_ARRAY => {
                let v = [self.next(), self.next(), self.next()];
                self.arrays.push((self.slab.new_array(v).into_gpu_only(), v));
            }
            SET => {
                let v = self.next();
                self.value.set(v);
                self.wrote_value = Some(v);
            }
            SET_GPU => {
                let v = self.next64();
                self.gpu.set(v);
                self.wrote_gpu = Some(v);
            }
            SET_ITEM => {
                let v = self.next();
                self.array.set_item(1, v);
                self.wrote_array[1] = Some(v);
            }
            ADD => {
                let v = self.next();
                self.sum.modify(|x| *x = x.wrapping_add(v));
                self.added = self.added.wrapping_add(v);
            }
            ADD_GUARD => {
                let v = self.next();
                let mut g = self.sum.lock();
                *g = g.wrapping_add(v);
                drop(g);
                self.added = self.added.wrapping_add(v);
            }
            ADD_ITEM => {
                let v = self.next();
                self.sums.modify(0, |x| *x = x.wrapping_add(v));
                self.added_item = self.added_item.wrapping_add(v);
            }
            DROP_SHARED => self.shared = None,
            DROP_OWN => self.own = None,
            DROP_LONE => self.lone = None,
            COMMIT => {
                self.buffer = Some(self.slab.commit());
            }
            QUERY => {
                self.slab.has_queued_updates();
                self.slab.get_updated_source_ids();
            }
            DEFRAG => self.slab.defrag(),
            FOLLOW => {
                if let Some(b) = self.buffer.as_mut() {
                    b.update_if_invalid();
                }
            }
            WRITE_NEW => {
                // something this thread made, or the value that both hold
                match self.values.len() {
                    0 => self.run(SET),
                    n => {
                        let v = self.next64();
                        self.values[n - 1].0.modify(|x| *x = v);
                        self.values[n - 1].1 = v;
                    }
                }
            }
            _ => {
                self.values.pop();
            }
        }
    }
}
const CREATE: u32 = 0;
const CREATE_ARRAY: u32 = 1;
const SET: u32 = 2;
const SET_GPU: u32 = 3;
const SET_ITEM: u32 = 4;
const DROP_SHARED: u32 = 5;
const DROP_OWN: u32 = 6;
const COMMIT: u32 = 7;
const QUERY: u32 = 8;
const DEFRAG: u32 = 9;
const FOLLOW: u32 = 10;
const WRITE_NEW: u32 = 11;
const DROP_NEW: u32 = 12;
const CREATE_WORD: u32 = 13;
const DROP_LONE: u32 = 14;
const ADD: u32 = 15;
const ADD_GUARD: u32 = 16;
const ADD_ITEM: u32 = 17;

/// Nothing is committed when the threads start.
const FRESH: u32 = 0;
/// Everything is, one word is free and the buffer has room for three more.
const TIGHT: u32 = 1;
/// There is more than the buffer holds: the next commit replaces it, and the capacity is used up but for one word.
const GROWN: u32 = 2;

/// Runs the two programs next to each other, one further commit, and then looks.
fn race(start: u32, one: &[u32], two: &[u32]) {
    let slab = SlabAllocator::new(CpuRuntime, ());
    let (v0, g0, a0) = (any(), any64(), [any(), any()]);
    let value = slab.new_value(v0);
    let gpu = slab.new_value(g0).into_gpu_only();
    let array = slab.new_array(a0);
    let (s0, s1) = (any(), any());
    let sum = slab.new_value(s0);
    let sums = slab.new_array([s1]);
    let shared = slab.new_value(any());
    let gone = slab.new_value(any());
    let mut high = 0;
    let mut sides = vec![];
    for _ in 0..2 {
        let own = slab.new_array([any()]);
        let lone = slab.new_value(any());
        high = high.max(lone.id().index() + 1);
        sides.push(Side {
            slab: slab.clone(),
            value: value.clone(),
            gpu: gpu.clone(),
            array: array.clone(),
            sum: sum.clone(),
            sums: sums.clone(),
            added: 0,
            added_item: 0,
            shared: Some(shared.clone()),
            own: Some(own),
            lone: Some(lone),
            wrote_value: None,
            wrote_gpu: None,
            wrote_array: [None; 2],
            values: Vec::with_capacity(4),
            arrays: Vec::with_capacity(4),
            words: Vec::with_capacity(4),
            buffer: None,
            top: 0,
            data: (0..8).map(|_| any()).collect(),
        });
    }
    drop(shared);
    let mut more = None;
    if start != FRESH {
        let b = slab.commit();
        for s in &mut sides {
            s.buffer = Some(b.clone());
        }
        // a word that is free for the threads to take
        drop(gone);
        slab.commit();
        if start == GROWN {
            let a = slab.new_array(vec![8u32; 18]);
            high += a.len();
            more = Some(a);
        }
    } else {
        drop(gone);
    }
    let mut threads = vec![];
    for (s, program) in sides.iter_mut().zip([one, two]) {
        let p = s as *mut Side as usize;
        let program: Vec<u32> = program.to_vec();
        threads.push(spawn(move || {
            // SAFETY: this thread alone uses it, until it is joined
            let s = unsafe { &mut *(p as *mut Side) };
            for op in &program {
                s.run(*op);
            }
        }));
    }
    for t in threads {
        t.join();
    }
    let slab = sides[0].slab.clone();
    let (commits, created) = (
        one.iter().chain(two).any(|o| *o == COMMIT),
        one.iter().chain(two).any(|o| *o == CREATE || *o == CREATE_ARRAY || *o == CREATE_WORD),
    );
    let buffer = slab.commit();
    let words = buffer.as_vec().clone();
    check(!slab.has_queued_updates(), "work is left after a commit");
    check(slab.get_updated_source_ids().is_empty(), "ids are left after a commit");

    // everything alive, as (start, words)
    let mut live: Vec<(usize, usize)> = vec![(value.id().index(), 1), (gpu.id().index(), 2)];
    live.push((array.array().starting_index(), 2));
    live.push((sum.id().index(), 1));
    live.push((sums.array().starting_index(), 1));
    let total = sides.iter().fold(s0, |t, s| t.wrapping_add(s.added));
    check(sum.get() == total, "no modification is lost");
    check(words[sum.id().index()] == total, "every modification is in the buffer");
    let total = sides.iter().fold(s1, |t, s| t.wrapping_add(s.added_item));
    check(sums.get(0) == Some(total), "no modification of an item is lost");
    check(words[sums.array().starting_index()] == total, "every modification of an item is in the buffer");
    if let Some(a) = &more {
        let i = a.array().starting_index();
        live.push((i, a.len()));
        check(words[i] == a.get(0).unwrap(), "the padding is in the buffer");
        check(words[i + a.len() - 1] == a.get(a.len() - 1).unwrap(), "the padding is in the buffer");
    }
    let (mut last_value, mut last_gpu, mut last_array) = (vec![], vec![], vec![]);
    let mut shared_lives = false;
    for s in &sides {
        high = high.max(s.top);
        for (h, v) in &s.values {
            live.push((h.id().index(), 2));
            check(h.get() == *v, "a created value reads back");
            let i = h.id().index();
            check(i + 2 <= words.len(), "a created value lies inside the buffer");
            check(words.as_slice().read_unchecked(h.id()) == *v, "a created value is in the buffer");
        }
        for (h, v) in &s.arrays {
            live.push((h.array().starting_index(), 3));
            let i = h.array().starting_index();
            check(i + 3 <= words.len(), "a created array lies inside the buffer");
            for k in 0..3 {
                check(words[i + k] == v[k], "a created array is in the buffer");
            }
        }
        for (h, v) in &s.words {
            live.push((h.id().index(), 1));
            check(h.id().index() < words.len(), "a created word lies inside the buffer");
            check(words[h.id().index()] == *v, "a created word is in the buffer");
        }
        if let Some(h) = &s.lone {
            live.push((h.id().index(), 1));
            check(words[h.id().index()] == h.get(), "a value that nobody wrote is in the buffer");
        }
        if let Some(h) = &s.own {
            live.push((h.array().starting_index(), 1));
            let i = h.array().starting_index();
            check(words[i] == h.get(0).unwrap(), "an array that nobody wrote is in the buffer");
        }
        if let Some(h) = &s.shared {
            check(words[h.id().index()] == h.get(), "a shared value is in the buffer");
            if !shared_lives {
                live.push((h.id().index(), 1));
            }
            shared_lives = true;
        }
        if let Some(b) = &s.buffer {
            let mut b = b.clone();
            b.update_if_invalid();
            check(b.is_valid(), "a followed buffer is valid");
            check(b.as_vec().len() == words.len(), "a followed buffer is the current one");
        }
        last_value.extend(s.wrote_value);
        last_gpu.extend(s.wrote_gpu);
        last_array.extend(s.wrote_array[1]);
    }
    // the last write of one of the threads, or what was there when neither wrote
    let one_of = |x: u32, l: &[u32], first: u32| {
        if l.is_empty() {
            x == first
        } else {
            l.iter().fold(false, |c, v| c | (x == *v))
        }
    };
    let now = words[value.id().index()];
    check(now == value.get(), "the buffer and the handle agree");
    check(one_of(now, &last_value, v0), "the last write is in the buffer");
    let now = words[array.array().starting_index() + 1];
    check(now == array.get(1).unwrap(), "the buffer and the array handle agree");
    check(one_of(now, &last_array, a0[1]), "the last write of an item is in the buffer");
    check(words[array.array().starting_index()] == a0[0], "the other item is untouched");
    let now = words.as_slice().read_unchecked(gpu.id());
    let ok = last_gpu.iter().fold(last_gpu.is_empty() & (now == g0), |c, v| c | (now == *v));
    check(ok, "the last write of a GPU value is in the buffer");

    // nothing overlaps
    let mut used = 0u64;
    for (start, n) in &live {
        let m = ((1u64 << n) - 1) << start;
        check(used & m == 0, "two live allocations overlap");
        used |= m;
        high = high.max(start + n);
    }
    check(high <= words.len(), "everything lies inside the buffer");
    // what is not alive can be had again
    let free = high - used.count_ones() as usize;
    let mut again = vec![];
    for _ in 0..free {
        let h = slab.new_value(0u32);
        let i = h.id().index();
        check(i < high, "dropped space is reusable");
        check(used >> i & 1 == 0, "reused space was free");
        used |= 1 << i;
        again.push(h);
    }
    for s in &sides {
        s.values.iter().for_each(|v| trace(v.0.id().inner()));
        s.words.iter().for_each(|v| trace(v.0.id().inner()));
    }
    trace(high as u32);
    trace(now as u32);
    cover(free > 1, "space is reused");
    cover(commits & created, "a commit next to a creation");
    cover(live.len() > 7, "seven things alive");
    cover(words.len() > if start == GROWN { 32 } else { 16 }, "the buffer grew");
}
/// One operation each, of every kind.
fn pairs(menu: &[u32]) {
    let i = pick(menu.len() as u32) as usize;
    let j = i + pick(menu.len() as u32 - i as u32) as usize;
    race(pick(3), &[menu[i]], &[menu[j]]);
}
/// `n` operations against `m` operations.
fn programs(menu: &[u32], n: u32, m: u32) {
    let mut take = |k: u32| -> Vec<u32> { (0..k).map(|_| menu[pick(menu.len() as u32) as usize]).collect() };
    let (one, two) = (take(n), take(m));
    race(pick(3), &one, &two);
}
const ALL: &[u32] = &[CREATE, CREATE_ARRAY, CREATE_WORD, SET, SET_GPU, SET_ITEM, ADD, ADD_GUARD, ADD_ITEM, DROP_SHARED, DROP_OWN, DROP_LONE, COMMIT, QUERY, DEFRAG, FOLLOW];

harness! { LIST:
    a11_pairs ["a commit next to a creation", "space is reused", "seven things alive"] {
        pairs(ALL);
    }
    a11_follow ["the buffer grew"] {
        // three operations next to one that follows the buffer
        let one: Vec<u32> = (0..3).map(|_| [COMMIT, CREATE][pick(2) as usize]).collect();
        race([TIGHT, GROWN][pick(2) as usize], &one, &[FOLLOW]);
    }
    a11_two_one [] {
        programs(&[CREATE, SET, DROP_LONE, COMMIT, QUERY, WRITE_NEW, DROP_NEW, SET_ITEM], 2, 1);
    }
    a11_two_two [] {
        programs(&[CREATE_WORD, SET, DROP_OWN, COMMIT], 2, 2);
    }
    a11t_pairs_3 [] {
        pairs(ALL);
    }
    a11t_two_one_3 [] {
        programs(&[CREATE, SET, DROP_LONE, COMMIT, QUERY, WRITE_NEW, DROP_NEW, SET_ITEM], 2, 1);
    }
    a11t_two_two_2 [] {
        programs(&[CREATE_WORD, SET, DROP_OWN, COMMIT], 2, 2);
    }
    a11t_three_two [] {
        programs(&[CREATE, SET, COMMIT], 3, 2);
    }
}
