//! An allocator that attributes blocks to library code and does not give their memory back before
//! the history ends, so that what is used after its release, or released twice, is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::SeqCst};

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

/// Attributes allocations to the library until dropped.
pub struct Tag;
impl Tag {
    pub fn new() -> Tag {
        let _ = DEPTH.try_with(|d| d.set(d.get() + 1));
        Tag
    }
}
impl Default for Tag {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        let _ = DEPTH.try_with(|d| d.set(d.get() - 1));
    }
}

/// Suspends attribution.
pub struct Untag(u32);
impl Untag {
    pub fn new() -> Untag {
        Untag(DEPTH.try_with(|d| d.replace(0)).unwrap_or(0))
    }
}
impl Default for Untag {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Untag {
    fn drop(&mut self) {
        let _ = DEPTH.try_with(|d| d.set(self.0));
    }
}

/// Blocks of the library in use (those aligned like its objects, which leaves out hash tables).
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
/// Releases of blocks that were released before, or with another size or alignment than they have.
pub static DOUBLE: AtomicUsize = AtomicUsize::new(0);
/// Blocks written to after their release (found by `sweep`) or beyond their end.
pub static WRITTEN: AtomicUsize = AtomicUsize::new(0);
/// Blocks of the library are kept after their release.
pub static KEEP: AtomicBool = AtomicBool::new(false);

const POISON: u8 = 0xD7;
const PLAIN: u32 = 0x51A1_0001;
const USED: u32 = 0x51A1_0002;
const GONE: u32 = 0x51A1_0003;

#[repr(C)]
struct Head {
    size: usize,
    /// the next released block
    next: *mut Head,
    align: u32,
    state: u32,
}
const HEAD: usize = std::mem::size_of::<Head>();

static RELEASED: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK.store(false, SeqCst);
    r
}

fn front(align: usize) -> usize {
    HEAD.next_multiple_of(align.max(16))
}
const TAIL: usize = 16;
fn whole(size: usize, align: usize) -> Layout {
    Layout::from_size_align(size + front(align) + TAIL, align.max(16)).unwrap()
}

pub struct Tracking;
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let base = System.alloc(whole(l.size(), l.align()));
            if base.is_null() {
                return base;
            }
            let p = base.add(front(l.align()));
            let tagged = DEPTH.try_with(|d| d.get() > 0).unwrap_or(false);
            let h = p.sub(HEAD) as *mut Head;
            h.write(Head {
                size: l.size(),
                next: std::ptr::null_mut(),
                align: l.align() as u32,
                state: if tagged { USED } else { PLAIN },
            });
            std::ptr::write_bytes(p.add(l.size()), POISON, TAIL);
            if tagged && l.align() <= 8 {
                LIVE.fetch_add(1, SeqCst);
                crate::arcs::allocated(p as usize, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let h = p.sub(HEAD) as *mut Head;
            match (*h).state {
                PLAIN => System.dealloc(p.sub(front((*h).align as usize)), whole((*h).size, (*h).align as usize)),
                USED => {
                    if l.align() <= 8 {
                        LIVE.fetch_sub(1, SeqCst);
                        crate::arcs::released(p as usize);
                    }
                    (*h).state = GONE;
                    if (*h).size != l.size() || (*h).align != l.align() as u32 {
                        DOUBLE.fetch_add(1, SeqCst);
                    }
                    if std::slice::from_raw_parts(p.add((*h).size), TAIL).iter().any(|&b| b != POISON) {
                        WRITTEN.fetch_add(1, SeqCst);
                    }
                    if !KEEP.load(SeqCst) {
                        System.dealloc(p.sub(front((*h).align as usize)), whole((*h).size, (*h).align as usize));
                        return;
                    }
                    std::ptr::write_bytes(p, POISON, (*h).size);
                    locked(|| {
                        (*h).next = RELEASED.load(SeqCst) as *mut Head;
                        RELEASED.store(h as usize, SeqCst);
                    });
                }
                _ => {
                    crate::arcs::released(p as usize);
                    DOUBLE.fetch_add(1, SeqCst);
                }
            }
        }
    }
}

/// Gives back the blocks released since the last time; looks whether they were written to.
pub fn sweep() {
    let mut h = locked(|| RELEASED.swap(0, SeqCst)) as *mut Head;
    unsafe {
        while !h.is_null() {
            let next = (*h).next;
            let (size, align) = ((*h).size, (*h).align as usize);
            let p = (h as *mut u8).add(HEAD);
            if std::slice::from_raw_parts(p, size).iter().any(|&b| b != POISON) {
                WRITTEN.fetch_add(1, SeqCst);
            }
            System.dealloc(p.sub(front(align)), whole(size, align));
            h = next;
        }
    }
}

pub fn live() -> isize {
    LIVE.load(SeqCst)
}
