//! Model of the part of `wgpu` that `craballoc` drives: a conforming device whose buffers are words in memory.
//!
//! As in wgpu: queued writes take effect at the next submission, before its commands; commands take effect when they
//! are submitted; a map callback runs only when the device is polled for a submission that follows its last use; and a
//! misuse (a missing usage flag, a misaligned or overrunning offset or size, use of a mapped buffer) is an error, which
//! the default error handler turns into a panic. Nothing happens any earlier than it must.
use std::ops::{BitOr, BitOrAssign, Bound, Deref, RangeBounds};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct BufferUsages(u32);
impl BufferUsages {
    pub const MAP_READ: Self = Self(1);
    pub const MAP_WRITE: Self = Self(2);
    pub const COPY_SRC: Self = Self(4);
    pub const COPY_DST: Self = Self(8);
    pub const INDEX: Self = Self(16);
    pub const VERTEX: Self = Self(32);
    pub const UNIFORM: Self = Self(64);
    pub const STORAGE: Self = Self(128);
    pub const INDIRECT: Self = Self(256);
    pub fn empty() -> Self {
        Self(0)
    }
    pub fn bits(&self) -> u32 {
        self.0
    }
    pub fn contains(&self, o: Self) -> bool {
        self.0 & o.0 == o.0
    }
    pub fn union(self, o: Self) -> Self {
        Self(self.0 | o.0)
    }
}
impl BitOr for BufferUsages {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        Self(self.0 | o.0)
    }
}
impl BitOrAssign for BufferUsages {
    fn bitor_assign(&mut self, o: Self) {
        self.0 |= o.0
    }
}
pub type Label<'a> = Option<&'a str>;
pub type BufferAddress = u64;
#[derive(Clone, Debug)]
pub struct BufferDescriptor<'a> {
    pub label: Label<'a>,
    pub size: u64,
    pub usage: BufferUsages,
    pub mapped_at_creation: bool,
}
#[derive(Clone, Debug, Default)]
pub struct CommandEncoderDescriptor<'a> {
    pub label: Label<'a>,
}
#[derive(Clone, Debug)]
pub struct BufferAsyncError;
impl std::fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error occurred when trying to async map a buffer")
    }
}
impl std::error::Error for BufferAsyncError {}
#[derive(Clone, Copy, Debug)]
pub enum MapMode {
    Read,
    Write,
}
#[derive(Clone, Debug)]
pub struct SubmissionIndex(usize);
#[derive(Clone, Debug)]
pub enum Maintain {
    Wait,
    WaitForSubmissionIndex(SubmissionIndex),
    Poll,
}
impl Maintain {
    pub fn wait() -> Self {
        Maintain::Wait
    }
    pub fn wait_for(i: SubmissionIndex) -> Self {
        Maintain::WaitForSubmissionIndex(i)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum MaintainResult {
    SubmissionQueueEmpty,
    Ok,
}
#[derive(Clone, Copy, PartialEq)]
enum Mapping {
    Unmapped,
    Pending,
    Mapped,
}
struct Inner {
    size: u64,
    usage: BufferUsages,
    words: Mutex<Vec<u32>>,
    mapping: Mutex<Mapping>,
}
impl Inner {
    fn bounds(&self, offset: u64, size: u64) {
        assert!(offset % 4 == 0, "wgpu: offset is not a multiple of 4");
        assert!(size % 4 == 0, "wgpu: size is not a multiple of 4");
        assert!(
            offset.checked_add(size).is_some_and(|e| e <= self.size),
            "wgpu: the operation overruns the buffer"
        );
    }
    fn usable(&self) {
        assert!(*self.mapping.lock().unwrap() == Mapping::Unmapped, "wgpu: the buffer is mapped");
    }
}
#[derive(Clone)]
pub struct Buffer(Arc<Inner>);
struct Write {
    buffer: Buffer,
    offset: u64,
    words: Vec<u32>,
}
struct Copy {
    from: Buffer,
    from_offset: u64,
    to: Buffer,
    to_offset: u64,
    size: u64,
}
type Callback = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send>;
#[derive(Default)]
struct State {
    writes: Vec<Write>,
    submissions: usize,
    /// map requests with the last submission before them
    maps: Vec<(usize, Buffer, Callback)>,
}
static MAPS: Mutex<Vec<(Buffer, Callback)>> = Mutex::new(vec![]);
#[derive(Clone)]
pub struct Device(Arc<Mutex<State>>);
#[derive(Clone)]
pub struct Queue(Arc<Mutex<State>>);
/// A device and its queue (not part of wgpu).
pub fn model() -> (Device, Queue) {
    let s = Arc::new(Mutex::new(State::default()));
    (Device(s.clone()), Queue(s))
}
impl Device {
    pub fn create_buffer(&self, d: &BufferDescriptor) -> Buffer {
        let u = d.usage;
        assert!(u.bits() != 0, "wgpu: a buffer without usages");
        if u.contains(BufferUsages::MAP_READ) {
            assert!(
                BufferUsages::MAP_READ.union(BufferUsages::COPY_DST).contains(u),
                "wgpu: MAP_READ goes with COPY_DST only"
            );
        }
        if d.mapped_at_creation {
            assert!(d.size % 4 == 0, "wgpu: size is not a multiple of 4");
        }
        Buffer(Arc::new(Inner {
            size: d.size,
            usage: u,
            words: Mutex::new(vec![0; (d.size / 4) as usize]),
            mapping: Mutex::new(if d.mapped_at_creation { Mapping::Mapped } else { Mapping::Unmapped }),
        }))
    }
    pub fn create_command_encoder(&self, _d: &CommandEncoderDescriptor) -> CommandEncoder {
        CommandEncoder(vec![])
    }
    pub fn poll(&self, m: Maintain) -> MaintainResult {
        let all = match m {
            Maintain::Wait => usize::MAX,
            Maintain::WaitForSubmissionIndex(i) => i.0,
            Maintain::Poll => 0,
        };
        let mut s = self.0.lock().unwrap();
        for (b, f) in std::mem::take(&mut *MAPS.lock().unwrap()) {
            let k = s.submissions;
            s.maps.push((k, b, f));
        }
        let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut s.maps).into_iter().partition(|m| m.0 <= all && all > 0);
        s.maps = later;
        drop(s);
        for (_, b, f) in now {
            *b.0.mapping.lock().unwrap() = Mapping::Mapped;
            f(Ok(()));
        }
        MaintainResult::Ok
    }
}
pub struct CommandEncoder(Vec<Copy>);
pub struct CommandBuffer(Vec<Copy>);
impl CommandEncoder {
    pub fn copy_buffer_to_buffer(&mut self, s: &Buffer, so: u64, d: &Buffer, to: u64, n: u64) {
        assert!(s.0.usage.contains(BufferUsages::COPY_SRC), "wgpu: the source is not COPY_SRC");
        assert!(d.0.usage.contains(BufferUsages::COPY_DST), "wgpu: the destination is not COPY_DST");
        assert!(!Arc::ptr_eq(&s.0, &d.0), "wgpu: source and destination are the same");
        s.0.bounds(so, n);
        d.0.bounds(to, n);
        self.0.push(Copy { from: s.clone(), from_offset: so, to: d.clone(), to_offset: to, size: n });
    }
    pub fn finish(self) -> CommandBuffer {
        CommandBuffer(self.0)
    }
}
impl Queue {
    pub fn write_buffer(&self, b: &Buffer, o: u64, d: &[u8]) {
        assert!(b.0.usage.contains(BufferUsages::COPY_DST), "wgpu: the buffer is not COPY_DST");
        b.0.usable();
        b.0.bounds(o, d.len() as u64);
        let words = d.chunks_exact(4).map(|c| u32::from_ne_bytes([c[0], c[1], c[2], c[3]])).collect();
        self.0.lock().unwrap().writes.push(Write { buffer: b.clone(), offset: o, words });
    }
    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, i: I) -> SubmissionIndex {
        let mut s = self.0.lock().unwrap();
        for w in std::mem::take(&mut s.writes) {
            w.buffer.0.usable();
            let at = (w.offset / 4) as usize;
            w.buffer.0.words.lock().unwrap()[at..at + w.words.len()].copy_from_slice(&w.words);
        }
        for c in i.into_iter().flat_map(|c| c.0) {
            c.from.0.usable();
            c.to.0.usable();
            let (f, t, n) = ((c.from_offset / 4) as usize, (c.to_offset / 4) as usize, (c.size / 4) as usize);
            let words = c.from.0.words.lock().unwrap()[f..f + n].to_vec();
            c.to.0.words.lock().unwrap()[t..t + n].copy_from_slice(&words);
        }
        s.submissions += 1;
        SubmissionIndex(s.submissions)
    }
}
impl Buffer {
    pub fn size(&self) -> u64 {
        self.0.size
    }
    pub fn usage(&self) -> BufferUsages {
        self.0.usage
    }
    /// What the buffer holds after everything submitted so far (not part of wgpu).
    pub fn words(&self) -> Vec<u32> {
        self.0.words.lock().unwrap().clone()
    }
    pub fn slice<S: RangeBounds<u64>>(&self, s: S) -> BufferSlice<'_> {
        let from = match s.start_bound() {
            Bound::Included(b) => *b,
            Bound::Excluded(b) => *b + 1,
            Bound::Unbounded => 0,
        };
        let to = match s.end_bound() {
            Bound::Included(b) => *b + 1,
            Bound::Excluded(b) => *b,
            Bound::Unbounded => self.size(),
        };
        assert!(from <= to && to <= self.size(), "wgpu: the slice overruns the buffer");
        BufferSlice { buffer: self, from, to }
    }
    pub fn unmap(&self) {
        *self.0.mapping.lock().unwrap() = Mapping::Unmapped;
    }
}
#[derive(Clone, Copy)]
pub struct BufferSlice<'a> {
    buffer: &'a Buffer,
    from: u64,
    to: u64,
}
pub struct BufferView<'a> {
    _slice: BufferSlice<'a>,
    words: Vec<u32>,
}
impl<'a> BufferSlice<'a> {
    pub fn map_async(&self, m: MapMode, f: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static) {
        let needed = match m {
            MapMode::Read => BufferUsages::MAP_READ,
            MapMode::Write => BufferUsages::MAP_WRITE,
        };
        assert!(self.buffer.0.usage.contains(needed), "wgpu: the buffer cannot be mapped");
        let mut state = self.buffer.0.mapping.lock().unwrap();
        assert!(*state == Mapping::Unmapped, "wgpu: the buffer is mapped already");
        *state = Mapping::Pending;
        MAPS.lock().unwrap().push((self.buffer.clone(), Box::new(f)));
    }
    pub fn get_mapped_range(&self) -> BufferView<'a> {
        assert!(*self.buffer.0.mapping.lock().unwrap() == Mapping::Mapped, "wgpu: the buffer is not mapped");
        assert!(self.from % 8 == 0, "wgpu: a mapped range starts at a multiple of 8");
        let words = self.buffer.0.words.lock().unwrap()[(self.from / 4) as usize..(self.to / 4) as usize].to_vec();
        BufferView { _slice: *self, words }
    }
}
impl Deref for BufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        // a word is 4 bytes
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, 4 * self.words.len()) }
    }
}
