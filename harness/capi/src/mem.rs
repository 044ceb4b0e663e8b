//! An allocator that records every live block: it reports releases of what is
//! not live or of another size or alignment, and says what is still live.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

const BITS: u32 = if cfg!(miri) { 19 } else { 21 };
const CAP: usize = 1 << BITS;
const FREE: usize = 0;
const TOMB: usize = 1;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: u32,
    op: u32,
}

struct Table {
    slots: [Slot; CAP],
    live: usize,
    used: usize,
    bytes: usize,
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: Table = Table {
    slots: [Slot { ptr: FREE, size: 0, align: 0, op: 0 }; CAP],
    live: 0,
    used: 0,
    bytes: 0,
};
/// What the workload is doing, noted with each block.
pub static OP: AtomicU32 = AtomicU32::new(0);
pub static BAD_FREES: AtomicU64 = AtomicU64::new(0);
pub static BAD_LAYOUTS: AtomicU64 = AtomicU64::new(0);
pub static BAD_OP: AtomicU32 = AtomicU32::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
static OVERFLOW: AtomicBool = AtomicBool::new(false);

fn locked<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TABLE) });
    LOCK.store(false, Release);
    r
}
fn place(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - BITS)
}

impl Table {
    fn insert(&mut self, s: Slot) {
        if self.used > CAP * 3 / 4 {
            self.rebuild();
        }
        let mut i = place(s.ptr);
        while self.slots[i].ptr > TOMB {
            i = (i + 1) & (CAP - 1);
        }
        if self.slots[i].ptr == FREE {
            self.used += 1;
        }
        self.slots[i] = s;
        self.live += 1;
        self.bytes += s.size;
    }
    fn remove(&mut self, p: usize) -> Option<Slot> {
        let mut i = place(p);
        while self.slots[i].ptr != FREE {
            if self.slots[i].ptr == p {
                let s = self.slots[i];
                self.slots[i].ptr = TOMB;
                self.live -= 1;
                self.bytes -= s.size;
                return Some(s);
            }
            i = (i + 1) & (CAP - 1);
        }
        None
    }
    fn rebuild(&mut self) {
        if self.live > CAP / 2 {
            OVERFLOW.store(true, SeqCst);
        }
        unsafe {
            let l = Layout::array::<Slot>(self.live + 1).unwrap();
            let tmp = System.alloc(l) as *mut Slot;
            let mut n = 0;
            for s in self.slots.iter_mut() {
                if s.ptr > TOMB {
                    tmp.add(n).write(*s);
                    n += 1;
                }
                s.ptr = FREE;
            }
            self.live = 0;
            self.used = 0;
            self.bytes = 0;
            for k in 0..n {
                self.insert(tmp.add(k).read());
            }
            System.dealloc(tmp as *mut u8, l);
        }
    }
}

pub struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            ALLOCS.fetch_add(1, Relaxed);
            locked(|t| t.insert(Slot { ptr: p as usize, size: l.size(), align: l.align() as u32, op: OP.load(Relaxed) }));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match locked(|t| t.remove(p as usize)) {
            None => {
                if BAD_FREES.fetch_add(1, SeqCst) == 0 {
                    BAD_OP.store(OP.load(Relaxed), SeqCst);
                }
                // not passed on: it would corrupt the heap
                return;
            }
            Some(s) => {
                if s.size != l.size() || s.align as usize != l.align() {
                    if BAD_LAYOUTS.fetch_add(1, SeqCst) == 0 {
                        BAD_OP.store(OP.load(Relaxed), SeqCst);
                    }
                }
                System.dealloc(p, Layout::from_size_align_unchecked(s.size, s.align as usize))
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Live {
    pub blocks: usize,
    pub bytes: usize,
}
pub fn live() -> Live {
    locked(|t| Live { blocks: t.live, bytes: t.bytes })
}
pub fn overflowed() -> bool {
    OVERFLOW.load(SeqCst)
}
/// (op, size) of up to N live blocks noted with op >= `from`.
pub fn live_since(from: u32) -> ([(u32, usize); 8], usize) {
    let mut out = [(0u32, 0usize); 8];
    let mut n = 0;
    locked(|t| {
        for s in t.slots.iter() {
            if s.ptr > TOMB && s.op >= from {
                if n < out.len() {
                    out[n] = (s.op, s.size);
                }
                n += 1;
            }
        }
    });
    (out, n)
}
