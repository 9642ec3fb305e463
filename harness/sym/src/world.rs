//! A model of a slab allocator next to the real one: what it must hand out, hold and write.
use crate::rt::*;
use craballoc::prelude::*;
use crabslab::{Array, Id, Slab, SlabItem};
use std::collections::BTreeSet;

/// A value type of the histories.
pub trait Val: SlabItem + Default + Copy + Send + Sync + 'static {
    fn make() -> Self;
    fn same(&self, o: &Self) -> bool;
}
impl Val for u32 {
    fn make() -> Self {
        any()
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Val for u64 {
    fn make() -> Self {
        any64()
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
/// Three words.
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Tri {
    pub a: u32,
    pub b: u64,
}
impl Val for Tri {
    fn make() -> Self {
        Tri { a: any(), b: any64() }
    }
    fn same(&self, o: &Self) -> bool {
        (self.a == o.a) & (self.b == o.b)
    }
}
/// No words at all.
pub type Nil = std::marker::PhantomData<u32>;
impl Val for Nil {
    fn make() -> Self {
        Default::default()
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}

/// Something allocated: a value or an array, with every handle to it.
pub trait Thing {
    fn start(&self) -> usize;
    fn words(&self) -> usize;
    fn key(&self) -> usize;
    fn strong(&self) -> usize;
    /// Writes through a handle in the given way; returns the words written, relative to the start.
    fn write(&mut self, way: u32) -> Option<(usize, usize)>;
    /// Takes another handle.
    fn dup(&mut self);
    /// Drops one handle.
    fn drop_one(&mut self) -> bool;
    fn gpu_only(&mut self) -> bool;
    fn take_weak(&mut self) -> bool;
    /// Drops every weak handle and returns whether an upgrade is right.
    fn upgrade(&mut self) -> bool;
    /// Everything the handles say agrees with the model.
    fn check_handles(&self);
    /// The buffer holds the current contents.
    fn check_buffer(&self, buf: &[u32]);
    fn trace(&self, buf: &[u32]);
    /// The words that the buffer must hold after a commit.
    fn encode(&self) -> Vec<u32>;
    /// Reads at any index.
    fn anywhere(&self) {}
}
fn encode<T: Val>(v: &[T]) -> Vec<u32> {
    let mut w = vec![0; T::SLAB_SIZE * v.len()];
    for (i, x) in v.iter().enumerate() {
        x.write_slab(i * T::SLAB_SIZE, &mut w);
    }
    w
}

pub struct ValThing<T: Val> {
    hy: Vec<Hybrid<T>>,
    gp: Vec<Gpu<T>>,
    wh: Vec<WeakHybrid<T>>,
    wg: Vec<WeakGpu<T>>,
    cpu: T,
    gpu: T,
    id: Id<T>,
    key: usize,
}
impl<T: Val> ValThing<T> {
    pub fn new<R: IsRuntime>(slab: &SlabAllocator<R>) -> Self {
        let v = T::make();
        let h = slab.new_value(v);
        ValThing { cpu: v, gpu: v, id: h.id(), key: h.notifier_index(), hy: vec![h], gp: vec![], wh: vec![], wg: vec![] }
    }
}
impl<T: Val> Thing for ValThing<T> {
    fn start(&self) -> usize {
        self.id.index()
    }
    fn words(&self) -> usize {
        T::SLAB_SIZE
    }
    fn key(&self) -> usize {
        self.key
    }
    fn strong(&self) -> usize {
        self.hy.len() + self.gp.len()
    }
    fn write(&mut self, way: u32) -> Option<(usize, usize)> {
        let v = T::make();
        if let Some(h) = self.hy.last() {
            match way {
                0 => h.set(v),
                1 => {
                    let old = h.modify(|t| std::mem::replace(t, v));
                    check(old.same(&self.cpu), "modify sees the current value");
                }
                2 => {
                    let mut g = h.lock();
                    check(g.same(&self.cpu), "a lock guard sees the current value");
                    *g = v;
                }
                3 => {
                    // two updates; the later one counts
                    h.set(T::make());
                    h.set(v);
                }
                _ => {
                    // a guard that is only looked at
                    let g = h.lock();
                    check(g.same(&self.cpu), "a lock guard sees the current value");
                    return None;
                }
            }
            self.cpu = v;
            self.gpu = v;
        } else if let Some(g) = self.gp.last() {
            g.set(v);
            self.gpu = v;
        } else {
            return None;
        }
        Some((0, T::SLAB_SIZE))
    }
    fn dup(&mut self) {
        if let Some(h) = self.hy.first() {
            let c = h.clone();
            self.hy.push(c);
        } else if let Some(g) = self.gp.first() {
            let c = g.clone();
            self.gp.push(c);
        }
    }
    fn drop_one(&mut self) -> bool {
        if self.hy.is_empty() && self.gp.is_empty() {
            return false;
        }
        if self.hy.is_empty() {
            drop(self.gp.remove(0));
        } else {
            drop(self.hy.remove(0));
        }
        true
    }
    fn gpu_only(&mut self) -> bool {
        let Some(h) = self.hy.pop() else { return false };
        let n = h.ref_count();
        let g = h.into_gpu_only();
        check(g.id() == self.id, "converting to GPU-only keeps the id");
        check(g.notifier_index() == self.key, "converting to GPU-only keeps the identifier");
        check(n == self.hy.len() + self.gp.len() + 1, "converting to GPU-only keeps the count");
        self.gp.push(g);
        true
    }
    fn take_weak(&mut self) -> bool {
        if let Some(h) = self.hy.first() {
            self.wh.push(WeakHybrid::from_hybrid(h));
        } else if let Some(g) = self.gp.first() {
            self.wg.push(WeakGpu::from_gpu(g));
        } else {
            return false;
        }
        true
    }
    fn upgrade(&mut self) -> bool {
        if let Some(w) = self.wh.first() {
            match w.upgrade() {
                Some(h) => {
                    check(!self.hy.is_empty(), "an expired weak handle does not upgrade");
                    check((h.id() == self.id) & (h.notifier_index() == self.key), "an upgraded handle is the same value");
                    check(h.get().same(&self.cpu), "an upgraded handle sees the current value");
                    self.hy.push(h);
                    return true;
                }
                None => check(self.hy.is_empty(), "a weak handle upgrades while a strong one exists"),
            }
        } else if let Some(w) = self.wg.first() {
            match w.upgrade() {
                Some(g) => {
                    check(self.strong() > 0, "an expired weak handle does not upgrade");
                    check((g.id() == self.id) & (g.notifier_index() == self.key), "an upgraded handle is the same value");
                    self.gp.push(g);
                    return true;
                }
                None => check(self.strong() == 0, "a weak handle upgrades while a strong one exists"),
            }
        }
        false
    }
    fn check_handles(&self) {
        for h in self.hy.iter() {
            check(h.get().same(&self.cpu), "get returns the last value set");
            check(h.ref_count() == self.strong(), "ref_count is the number of strong handles");
            check(h.id() == self.id, "a handle keeps its id");
        }
        for g in self.gp.iter() {
            check(g.id() == self.id, "a handle keeps its id");
        }
        for w in self.wh.iter() {
            check(w.strong_count() == self.strong(), "strong_count is the number of strong handles");
            check(w.has_external_references() == (self.strong() > 0), "has_external_references");
            check(w.id() == self.id, "a weak handle keeps its id");
        }
    }
    fn encode(&self) -> Vec<u32> {
        encode(&[self.gpu])
    }
    fn check_buffer(&self, buf: &[u32]) {
        check(self.id.index() + T::SLAB_SIZE <= buf.len(), "a live value lies inside the buffer");
        check(buf.read(self.id).same(&self.gpu), "the buffer holds the latest value");
    }
    fn trace(&self, buf: &[u32]) {
        trace(self.id.inner());
        for k in 0..T::SLAB_SIZE {
            trace(buf[self.id.index() + k]);
        }
    }
}
pub struct ArrThing<T: Val> {
    hy: Vec<HybridArray<T>>,
    gp: Vec<GpuArray<T>>,
    cpu: Vec<T>,
    gpu: Vec<T>,
    array: Array<T>,
    key: usize,
}
impl<T: Val> ArrThing<T> {
    pub fn new<R: IsRuntime>(slab: &SlabAllocator<R>, n: usize) -> Self {
        let mut v = vec![];
        for _ in 0..n {
            v.push(T::make());
        }
        let h = slab.new_array(v.iter().copied());
        check(h.len() == n, "an array has the length it was created with");
        check(h.is_empty() == (n == 0), "is_empty");
        ArrThing { cpu: v.clone(), gpu: v, array: h.array(), key: h.notifier_index(), hy: vec![h], gp: vec![] }
    }
}
impl<T: Val> Thing for ArrThing<T> {
    fn start(&self) -> usize {
        self.array.starting_index()
    }
    fn words(&self) -> usize {
        T::SLAB_SIZE * self.cpu.len()
    }
    fn key(&self) -> usize {
        self.key
    }
    fn strong(&self) -> usize {
        self.hy.len() + self.gp.len()
    }
    /// Ways 0..: item 0, the last item, one past the end, modify of the last item, two past the end,
    /// any index there is.
    fn write(&mut self, way: u32) -> Option<(usize, usize)> {
        let n = self.cpu.len();
        let i = match way {
            0 => 0,
            1 | 3 => n.wrapping_sub(1),
            2 => n,
            5 => any64() as usize,
            _ => n + 1,
        };
        let v = T::make();
        if let Some(h) = self.hy.last() {
            let old = if way == 3 {
                h.modify(i, |t| std::mem::replace(t, v))
            } else {
                h.set_item(i, v)
            };
            match old {
                Some(o) => {
                    check(i < n, "an item outside the array is not written");
                    check(o.same(&self.cpu[i]), "set_item returns the previous item");
                }
                None => check(i >= n, "an item of the array is written"),
            }
            if i >= n {
                return None;
            }
            self.cpu[i] = v;
            self.gpu[i] = v;
        } else if let Some(g) = self.gp.last() {
            g.set_item(i, &v);
            if i >= n {
                return None;
            }
            self.gpu[i] = v;
        } else {
            return None;
        }
        Some((i * T::SLAB_SIZE, T::SLAB_SIZE))
    }
    fn dup(&mut self) {
        if let Some(h) = self.hy.first() {
            let c = h.clone();
            self.hy.push(c);
        } else if let Some(g) = self.gp.first() {
            let c = g.clone();
            self.gp.push(c);
        }
    }
    fn drop_one(&mut self) -> bool {
        if self.hy.is_empty() && self.gp.is_empty() {
            return false;
        }
        if self.hy.is_empty() {
            drop(self.gp.remove(0));
        } else {
            drop(self.hy.remove(0));
        }
        true
    }
    fn gpu_only(&mut self) -> bool {
        let Some(h) = self.hy.pop() else { return false };
        let n = h.ref_count();
        let g = h.into_gpu_only();
        check(g.array() == self.array, "converting to GPU-only keeps the array");
        check((g.len() == self.cpu.len()) & (g.is_empty() == self.cpu.is_empty()), "converting to GPU-only keeps the length");
        check(g.notifier_index() == self.key, "converting to GPU-only keeps the identifier");
        check(n == self.hy.len() + self.gp.len() + 1, "converting to GPU-only keeps the count");
        self.gp.push(g);
        true
    }
    fn take_weak(&mut self) -> bool {
        false
    }
    fn upgrade(&mut self) -> bool {
        false
    }
    fn check_handles(&self) {
        for h in self.hy.iter() {
            let v = h.get_vec();
            check(v.len() == self.cpu.len(), "get_vec has the array's length");
            for (i, x) in self.cpu.iter().enumerate() {
                check(v[i].same(x), "get_vec returns the last items set");
                match h.get(i) {
                    Some(y) => check(y.same(x), "get returns the last item set"),
                    None => check(false, "get of an item of the array"),
                }
                check(h.get_id(i) == self.array.at(i), "get_id addresses the item");
            }
            check(h.get(self.cpu.len()).is_none(), "get past the end is None");
            check(h.get_id(self.cpu.len()).is_none(), "get_id past the end is NONE");
            check(h.ref_count() == self.strong(), "ref_count is the number of strong handles");
            check(h.array() == self.array, "a handle keeps its array");
        }
        for g in self.gp.iter() {
            check(g.array() == self.array, "a handle keeps its array");
        }
    }
    fn encode(&self) -> Vec<u32> {
        encode(&self.gpu)
    }
    fn anywhere(&self) {
        let i = any64() as usize;
        if let Some(h) = self.hy.last() {
            let id = h.get_id(i);
            match h.get(i) {
                Some(v) => {
                    check(i < self.cpu.len(), "get outside of the array is None");
                    check(v.same(&self.cpu[i]), "get returns the last item set");
                    check(id.inner() == self.array.index + (i * T::SLAB_SIZE) as u32, "get_id addresses the item");
                }
                None => {
                    check(i >= self.cpu.len(), "get of an item of the array");
                    check(id.is_none(), "get_id outside of the array is NONE");
                }
            }
        } else if let Some(g) = self.gp.last() {
            let want = if i < self.cpu.len() { self.array.index + (i * T::SLAB_SIZE) as u32 } else { u32::MAX };
            check(g.get_id(i).inner() == want, "get_id addresses the item");
        }
    }
    fn check_buffer(&self, buf: &[u32]) {
        if self.cpu.is_empty() {
            return;
        }
        check(self.start() + self.words() <= buf.len(), "a live array lies inside the buffer");
        for (i, x) in self.gpu.iter().enumerate() {
            check(buf.read(self.array.at(i)).same(x), "the buffer holds the latest items");
        }
    }
    fn trace(&self, buf: &[u32]) {
        trace(self.array.starting_index() as u32);
        for k in 0..self.words() {
            trace(buf[self.start() + k]);
        }
    }
}

/// What is checked.
pub mod on {
    pub const PLACE: u32 = 1; // A01
    pub const VALUE: u32 = 2; // A02
    pub const FRAME: u32 = 4; // A03
    pub const REUSE: u32 = 8; // A04
    pub const VALID: u32 = 16; // A05
    pub const HANDLE: u32 = 32; // A06
    pub const PENDING: u32 = 64; // A12
}

pub struct Held {
    pub buf: SlabBuffer<VecSlab>,
    at: *const VecSlab,
    /// contents when it was replaced
    old: Option<Vec<u32>>,
}
pub struct World {
    pub on: u32,
    /// stands for every word
    x: u32,
    pub slab: SlabAllocator<CpuRuntime>,
    /// a clone of it from the start; the two take turns
    twin: SlabAllocator<CpuRuntime>,
    turn: bool,
    pub things: Vec<Box<dyn Thing>>,
    /// words of values whose last handle is gone, until the next commit
    zombie: u128,
    /// words handed out since the last commit or written since: these may change
    dirty: u128,
    /// one past the last word ever handed out
    pub high: usize,
    /// words that a commit made available again
    pub free: u128,
    pending: BTreeSet<usize>,
    pub held: Vec<Held>,
    current: *const VecSlab,
    pub contents: Vec<u32>,
    /// contents and written words before the last commit
    before: Vec<u32>,
    written: u128,
    commits: u32,
    recreated: bool,
    pub grown: u32,
    pub reused: u32,
}

/// Words that a history may use.
pub const SPACE: usize = 124;
fn bits(start: usize, n: usize) -> u128 {
    if n == 0 {
        0
    } else {
        (u128::MAX >> (128 - n)) << start
    }
}
/// `w[x]` without a branch; 0 outside.
pub fn at(w: &[u32], x: u32) -> u32 {
    let mut r = 0;
    for (i, v) in w.iter().enumerate() {
        r = sel(x == i as u32, *v, r);
    }
    r
}
/// The length of the longest run of ones.
pub fn longest(mut s: u128) -> usize {
    let mut n = 0;
    while s != 0 {
        s &= s << 1;
        n += 1;
    }
    n
}

impl World {
    pub fn new(on: u32) -> Self {
        let slab = SlabAllocator::new(CpuRuntime, ());
        if on & on::VALID != 0 {
            check(slab.get_buffer().is_none(), "there is no buffer before the first commit");
        }
        World {
            on,
            x: below(128),
            twin: slab.clone(),
            slab,
            turn: false,
            things: vec![],
            zombie: 0,
            dirty: 0,
            high: 0,
            free: 0,
            pending: Default::default(),
            held: vec![],
            current: std::ptr::null(),
            contents: vec![],
            before: vec![],
            written: 0,
            commits: 0,
            recreated: false,
            grown: 0,
            reused: 0,
        }
    }
    /// The allocator whose turn it is.
    fn any_slab(&mut self) -> SlabAllocator<CpuRuntime> {
        self.turn = !self.turn;
        if self.turn { self.slab.clone() } else { self.twin.clone() }
    }
    fn live(&self) -> u128 {
        self.things.iter().filter(|t| t.strong() > 0).map(|t| bits(t.start(), t.words())).fold(0, |a, b| a | b)
    }
    fn created(&mut self, t: Box<dyn Thing>) -> usize {
        let (s, n) = (t.start(), t.words());
        self.pending.insert(t.key());
        if n > 0 {
            check(s + n <= SPACE, "an allocation is where the slab is");
            let b = bits(s, n);
            if self.on & on::PLACE != 0 {
                check(self.live() & b == 0, "live allocations do not overlap");
            }
            if self.on & on::REUSE != 0 {
                let (now, x) = (self.live() | self.zombie, self.x);
                check(!(x.wrapping_sub(s as u32) < n as u32) | (now >> x & 1 == 0), "no word of a new allocation was in use or released since the last commit");
                check(now & b == 0, "words are reused only after a commit that follows the last drop");
                if s + n > self.high {
                    check(longest(self.free) < n, "released words are used again before the buffer grows");
                }
            }
            if s + n > self.high {
                self.high = s + n;
                self.grown += 1;
            } else {
                self.reused += 1;
            }
            self.free &= !b;
            self.dirty |= b;
        }
        self.things.push(t);
        self.after();
        self.things.len() - 1
    }
    pub fn value<T: Val>(&mut self) -> usize {
        let t = ValThing::<T>::new(&self.any_slab());
        self.created(Box::new(t))
    }
    pub fn array<T: Val>(&mut self, n: usize) -> usize {
        let t = ArrThing::<T>::new(&self.any_slab(), n);
        self.created(Box::new(t))
    }
    /// Kinds: words 1, 2, 3, array of 2 one-word items, array of 2 two-word items, empty array, no words.
    pub fn create(&mut self, kind: u32) -> usize {
        match kind {
            0 => self.value::<u32>(),
            1 => self.value::<u64>(),
            2 => self.array::<u32>(2),
            3 => self.value::<Tri>(),
            4 => self.array::<u64>(2),
            5 => self.array::<u32>(0),
            6 => self.value::<Nil>(),
            7 => self.array::<Nil>(2),
            _ => self.array::<u32>(3),
        }
    }
    pub fn write(&mut self, i: usize, way: u32) {
        let t = &mut self.things[i];
        if let Some((o, n)) = t.write(way) {
            self.dirty |= bits(t.start() + o, n);
            self.pending.insert(t.key());
        }
        self.after();
    }
    pub fn dup(&mut self, i: usize) {
        self.things[i].dup();
        self.after();
    }
    pub fn drop_one(&mut self, i: usize) {
        let t = &mut self.things[i];
        if t.drop_one() {
            self.pending.insert(t.key());
            if t.strong() == 0 {
                self.zombie |= bits(t.start(), t.words());
            }
        }
        self.after();
    }
    pub fn drop_all(&mut self, i: usize) {
        while self.things[i].strong() > 0 {
            self.drop_one(i);
        }
    }
    pub fn gpu_only(&mut self, i: usize) {
        self.things[i].gpu_only();
        self.after();
    }
    pub fn weak(&mut self, i: usize) {
        self.things[i].take_weak();
        self.after();
    }
    pub fn upgrade(&mut self, i: usize) {
        self.things[i].upgrade();
        self.after();
    }
    pub fn defrag(&mut self) {
        self.any_slab().defrag();
        self.after();
    }
    pub fn probe(&mut self) {
        let a = self.any_slab().get_updated_source_ids();
        let _ = self.slab.has_queued_updates();
        let b = self.slab.get_updated_source_ids();
        check(a.len() == b.len(), "asking twice for the pending ids gives the same answer");
        self.after();
    }

    /// Holds after every operation.
    fn after(&mut self) {
        if self.on & on::HANDLE != 0 {
            for t in self.things.iter() {
                t.check_handles();
            }
        }
        if self.on & on::PENDING != 0 {
            check(self.slab.has_queued_updates() == !self.pending.is_empty(), "has_queued_updates says whether something is pending");
        }
        if self.on & on::VALID != 0 {
            self.check_validity();
        }
    }
    /// The reported ids are exactly the pending ones.
    pub fn check_pending(&mut self) {
        let ids = self.slab.get_updated_source_ids();
        check(ids.len() == self.pending.len() && self.pending.iter().all(|k| ids.contains(k)), "the pending ids are exactly the touched handles");
        let x = any64() as usize;
        let (mut is, mut should) = (false, false);
        for k in ids.iter() {
            is |= *k == x;
        }
        for k in self.pending.iter() {
            should |= *k == x;
        }
        check(is == should, "an id is reported exactly if its handle was touched");
    }
    fn check_validity(&self) {
        for h in self.held.iter() {
            check(h.buf.is_invalid() == (h.at != self.current), "a buffer is invalid exactly when it was replaced");
            check(h.buf.is_valid() != h.buf.is_invalid(), "is_valid is the opposite of is_invalid");
            check(h.buf.is_new_this_commit() == (self.recreated && h.at == self.current), "is_new_this_commit exactly on the buffer created by the latest commit");
        }
    }
    pub fn commit(&mut self) {
        if self.on & on::FRAME != 0 && self.commits > 0 {
            let b = self.slab.get_buffer().unwrap();
            let v = b.as_vec();
            let mut same = v.len() == self.contents.len();
            for (x, y) in v.iter().zip(self.contents.iter()) {
                same &= x == y;
            }
            check(same, "the buffer changes only in a commit");
        }
        if self.on & on::PENDING != 0 && pick(2) == 1 {
            self.check_pending();
        }
        let buf = self.any_slab().commit();
        let at: *const VecSlab = &*buf;
        let recreated = at != self.current;
        let now: Vec<u32> = buf.as_vec().clone();
        let old = std::mem::take(&mut self.contents);
        if self.on & on::VALID != 0 {
            check(self.slab.get_buffer().map(|b| &*b as *const VecSlab) == Some(at), "commit returns the allocator's buffer");
            check(recreated == (self.commits == 0 || self.high > old.len()), "the buffer is recreated exactly when allocations outgrew it");
            check(!recreated || now.len() > old.len(), "a recreated buffer is larger");
            check(buf.is_valid(), "the buffer a commit returns is valid");
            check(buf.is_new_this_commit() == recreated, "is_new_this_commit on the returned buffer");
        }
        if self.on & on::FRAME != 0 {
            check(now.len() >= old.len(), "the buffer never shrinks");
            let mut same = true;
            for i in 0..old.len() {
                if self.dirty >> i & 1 == 0 {
                    same &= now[i] == old[i];
                }
            }
            check(same, "a commit changes only what was written");
            if recreated {
                // the replaced buffer keeps its contents
                for h in self.held.iter_mut() {
                    if h.old.is_none() && h.at != at {
                        let v = h.buf.as_vec().clone();
                        let mut same = v.len() == old.len();
                        for i in 0..old.len() {
                            if self.dirty >> i & 1 == 0 {
                                same &= v.get(i) == Some(&old[i]);
                            }
                        }
                        check(same, "replacing a buffer leaves its words in it");
                        h.old = Some(v);
                    }
                }
            }
            for h in self.held.iter() {
                if let Some(o) = &h.old {
                    let v = h.buf.as_vec();
                    let mut same = v.len() == o.len();
                    for (x, y) in v.iter().zip(o.iter()) {
                        same &= x == y;
                    }
                    check(same, "a replaced buffer is not modified");
                }
            }
        }
        self.current = at;
        self.recreated = recreated;
        self.commits += 1;
        if self.on & (on::VALID | on::FRAME) != 0 {
            self.held.push(Held { buf, at, old: None });
        }
        self.contents = now;
        self.before = old;
        self.written = self.dirty;
        self.free |= self.zombie;
        self.zombie = 0;
        self.dirty = 0;
        self.pending.clear();
        if self.on & on::PLACE != 0 {
            for t in self.things.iter().filter(|t| t.strong() > 0 && t.words() > 0) {
                check(t.start() + t.words() <= self.contents.len(), "live allocations lie inside the committed buffer");
            }
        }
        if self.on & on::VALUE != 0 {
            for t in self.things.iter().filter(|t| t.strong() > 0) {
                t.check_buffer(&self.contents);
            }
        }
        self.after();
    }
    /// Brings every held buffer up to date.
    pub fn update_held(&mut self) {
        for h in self.held.iter_mut() {
            let bad = h.at != self.current;
            check(h.buf.update_if_invalid() == bad, "update_if_invalid tells whether the handle was invalid");
            check(&*h.buf as *const VecSlab == self.current, "update_if_invalid leaves the current buffer");
            check(h.buf.is_valid(), "an updated handle is valid");
            h.at = self.current;
            check(h.buf.is_new_this_commit() == self.recreated, "an updated handle knows whether its buffer is new");
            check(at(&h.buf.as_vec(), self.x) == at(&self.contents, self.x), "an updated handle reads the current words");
        }
    }
    /// For every word of the space at once.
    fn every_word(&self) {
        let x = self.x;
        let got = at(&self.contents, x);
        let inside = x < self.contents.len() as u32;
        if self.on & on::PLACE != 0 {
            let (mut owners, mut out) = (0, false);
            for t in self.things.iter().filter(|t| t.strong() > 0) {
                let (s, n) = (t.start() as u32, t.words() as u32);
                let owns = x.wrapping_sub(s) < n;
                owners += owns as u32;
                out |= owns & !inside;
            }
            check(owners <= 1, "no word belongs to two live allocations");
            check(!out, "every word of a live allocation lies inside the buffer");
        }
        if self.on & on::VALUE != 0 {
            let mut want = got;
            for t in self.things.iter().filter(|t| t.strong() > 0) {
                let s = t.start() as u32;
                for (k, w) in t.encode().into_iter().enumerate() {
                    want = sel(x == s + k as u32, w, want);
                }
            }
            check(got == want, "every word of a live allocation holds its latest contents");
        }
        if self.on & on::FRAME != 0 {
            let old = at(&self.before, x);
            let written = self.written >> x & 1 == 1;
            let was = x < self.before.len() as u32;
            check(!was | written | (got == old), "a word that was not written keeps its contents");
            check(!was | inside, "the buffer does not shrink");
        }
        trace(got);
    }
    pub fn finish(&mut self) {
        self.commit();
        if self.on & (on::PLACE | on::VALUE | on::FRAME) != 0 {
            self.every_word();
        }
        if self.on & on::HANDLE != 0 {
            for t in self.things.iter() {
                t.anywhere();
            }
        }
        if self.on & on::VALID != 0 {
            self.update_held();
        }
        for t in self.things.iter().filter(|t| t.strong() > 0 && t.words() > 0) {
            t.trace(&self.contents);
        }
        if self.on & on::PENDING != 0 {
            self.check_pending();
        }
        trace(self.high as u32);
        trace(self.contents.len() as u32);
    }
}
