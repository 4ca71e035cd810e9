//! Counts the bytes in use, and finds misuse of memory: every block has a head with its layout and a tail; a released block is filled
//! with a pattern and kept for a while; when it is given back (or when asked) all that must be intact.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);

const FREED: u8 = 0x5A;
const USED: u32 = 0x5EC0DE5E;
const GONE: u32 = 0xDEADB10C;
const HEAD: usize = 16;
const TAIL: [u8; 8] = [0x7A, 0x11, 0xC3, 0x5D, 0x91, 0x0E, 0xB7, 0x42];
const ROOM: usize = 4096;

/// before the block: mark, size, alignment
type Head = [u32; 4];
struct Kept {
    /// address and layout of the block
    ring: [(usize, usize, usize); ROOM],
    first: usize,
    count: usize,
    bytes: usize,
    limit: usize,
    /// 1 written after release, 2 released twice, 3 released as another layout, 4 written behind the end
    fault: i32,
}
struct One(UnsafeCell<Kept>);
// the program has one thread
unsafe impl Sync for One {}
static KEPT: One = One(UnsafeCell::new(Kept { ring: [(0, 0, 0); ROOM], first: 0, count: 0, bytes: 0, limit: 1 << 16, fault: 0 }));

fn head(align: usize) -> usize {
    align.max(HEAD)
}
/// what is really allocated
unsafe fn whole(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(head(align) + size + TAIL.len(), align.max(4))
}

impl Kept {
    fn note(&mut self, fault: i32) {
        if self.fault == 0 {
            self.fault = fault;
        }
    }
    unsafe fn look(&mut self, p: usize, size: usize) {
        let s = std::slice::from_raw_parts(p as *const u8, size);
        let h = &*((p - HEAD) as *const Head);
        if h[0] != GONE || s.iter().any(|b| *b != FREED) {
            self.note(1);
        }
    }
    unsafe fn keep(&mut self, p: usize, l: Layout) {
        let h = &mut *((p - HEAD) as *mut Head);
        if h[0] == GONE {
            self.note(2);
            return;
        }
        if h[0] != USED {
            // not a block (or its head was overwritten)
            self.note(3);
            return;
        }
        let (size, align) = (h[1] as usize, h[2] as usize);
        if (size, align) != (l.size(), l.align()) {
            self.note(3);
        }
        if *((p + size) as *const [u8; 8]) != TAIL {
            self.note(4);
        }
        h[0] = GONE;
        std::slice::from_raw_parts_mut(p as *mut u8, size).fill(FREED);
        LIVE.fetch_sub(size, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        if size > self.limit / 4 {
            System.dealloc((p - head(align)) as *mut u8, whole(size, align));
            return;
        }
        while self.count == ROOM || self.bytes + size > self.limit {
            let (p, size, align) = self.ring[self.first];
            self.look(p, size);
            System.dealloc((p - head(align)) as *mut u8, whole(size, align));
            self.first = (self.first + 1) % ROOM;
            self.count -= 1;
            self.bytes -= size;
        }
        self.ring[(self.first + self.count) % ROOM] = (p, size, align);
        self.count += 1;
        self.bytes += size;
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(whole(l.size(), l.align()));
        if p.is_null() {
            return p;
        }
        let p = p as usize + head(l.align());
        LIVE.fetch_add(l.size(), Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        *((p - HEAD) as *mut Head) = [USED, l.size() as u32, l.align() as u32, 0];
        *((p + l.size()) as *mut [u8; 8]) = TAIL;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        (*KEPT.0.get()).keep(p as usize, l);
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn live() -> (usize, usize) {
    (LIVE.load(Relaxed), BLOCKS.load(Relaxed))
}

/// the first fault (see `Kept`), or 0
#[no_mangle]
pub extern "C" fn vp_misuse() -> i32 {
    unsafe {
        let k = &mut *KEPT.0.get();
        for i in 0..k.count {
            let (p, size, _) = k.ring[(k.first + i) % ROOM];
            k.look(p, size);
        }
        k.fault
    }
}

/// keeps that many bytes of released memory
#[no_mangle]
pub extern "C" fn vp_keep(bytes: u32) {
    unsafe { (*KEPT.0.get()).limit = bytes as usize }
}
