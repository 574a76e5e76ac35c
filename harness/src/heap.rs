//! An allocator that notices memory freed twice and keeps freed memory away
//! from reuse for a while, so that a double free is counted, not fatal.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const LIVE: u64 = 0x11fe_11fe_11fe_11fe;
const DEAD: u64 = 0xdead_dead_dead_dead;
const HEAD: usize = 32;
const RING: usize = 1 << 12;
const LARGEST: usize = 1 << 12;

pub struct Watch;

struct Ring {
    busy: AtomicBool,
    slots: UnsafeCell<[(usize, usize, usize); RING]>,
    next: UnsafeCell<usize>,
}
unsafe impl Sync for Ring {}

static QUARANTINE: Ring = Ring {
    busy: AtomicBool::new(false),
    slots: UnsafeCell::new([(0, 0, 0); RING]),
    next: UnsafeCell::new(0),
};
static BAD: AtomicUsize = AtomicUsize::new(0);

/// How many times memory was freed twice since the last call.
pub fn take_bad() -> usize {
    BAD.swap(0, Ordering::SeqCst)
}

fn outer(layout: Layout) -> (Layout, usize) {
    let align = layout.align().max(16);
    let head = HEAD.max(align);
    (
        Layout::from_size_align(layout.size() + head, align).expect("a layout"),
        head,
    )
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (full, head) = outer(layout);
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(head);
        p.sub(8).cast::<u64>().write_unaligned(LIVE);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let tag = p.sub(8).cast::<u64>();
        if tag.read_unaligned() == DEAD {
            BAD.fetch_add(1, Ordering::SeqCst);
            return;
        }
        tag.write_unaligned(DEAD);
        let (full, head) = outer(layout);
        let base = p.sub(head);
        if layout.size() > LARGEST {
            System.dealloc(base, full);
            return;
        }
        while QUARANTINE.busy.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let next = &mut *QUARANTINE.next.get();
        let slot = &mut (*QUARANTINE.slots.get())[*next];
        let old = *slot;
        *slot = (base as usize, full.size(), full.align());
        *next = (*next + 1) % RING;
        QUARANTINE.busy.store(false, Ordering::Release);
        if old.0 != 0 {
            System.dealloc(
                old.0 as *mut u8,
                Layout::from_size_align_unchecked(old.1, old.2),
            );
        }
    }
}
