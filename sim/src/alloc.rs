//! Simulated heap: every block allocated from inside the library is tagged, surrounded by a red
//! zone, poisoned when freed and kept in quarantine until the end of the run, so that double
//! frees, writes after free, overruns and leaks of the real `BoxStorage` become deterministic,
//! reported events instead of silent corruption.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    next: *mut Header,
    prefix: usize,
}

const LIVE_LIB: u64 = 0x11B0_11B0_11B0_11B0;
const LIVE_OUT: u64 = 0x0700_0700_0700_0700;
const FREED: u64 = 0xDEAD_F4EE_DEAD_F4EE;
const POISON: u8 = 0xDE;
const RED: u8 = 0xA5;
const REDZONE: usize = 32;

thread_local! {
    /// True while the current thread executes library code (cleared inside callbacks).
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

pub static OUTSTANDING: AtomicI64 = AtomicI64::new(0);
pub static LIB_ALLOCS: AtomicU64 = AtomicU64::new(0);
static DOUBLE_FREE: AtomicBool = AtomicBool::new(false);
static BAD_FREE: AtomicBool = AtomicBool::new(false);
static OVERRUN: AtomicBool = AtomicBool::new(false);
static AFTER_FREE: AtomicBool = AtomicBool::new(false);
/// Bytes in quarantine, and how many there may be.
static HELD: AtomicUsize = AtomicUsize::new(0);
const MOST_HELD: usize = 96 << 20;
static QUARANTINE: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());

pub struct SimAlloc;

fn prefix_of(align: usize) -> usize {
    align.max(32)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let prefix = prefix_of(l.align());
        let full = Layout::from_size_align_unchecked(l.size() + prefix + REDZONE, l.align().max(16));
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let user = base.add(prefix);
        let h = user.sub(32) as *mut Header;
        let lib = IN_LIB.try_with(|c| c.get()).unwrap_or(false);
        (*h).size = l.size();
        (*h).prefix = prefix;
        (*h).next = std::ptr::null_mut();
        if lib {
            (*h).magic = LIVE_LIB;
            OUTSTANDING.fetch_add(1, SeqCst);
            LIB_ALLOCS.fetch_add(1, Relaxed);
            // fresh memory is never zero: reading an uninitialised slot shows
            std::ptr::write_bytes(user, 0xCD, l.size());
            std::ptr::write_bytes(user.add(l.size()), RED, REDZONE);
        } else {
            (*h).magic = LIVE_OUT;
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(32) as *mut Header;
        match (*h).magic {
            LIVE_LIB => {
                if (*h).size != l.size() {
                    BAD_FREE.store(true, SeqCst);
                }
                for i in 0..REDZONE {
                    if *user.add((*h).size + i) != RED {
                        OVERRUN.store(true, SeqCst);
                    }
                }
                OUTSTANDING.fetch_sub(1, SeqCst);
                (*h).magic = FREED;
                std::ptr::write_bytes(user, POISON, (*h).size);
                let mut head = QUARANTINE.load(SeqCst);
                loop {
                    (*h).next = head;
                    match QUARANTINE.compare_exchange(head, h, SeqCst, SeqCst) {
                        Ok(_) => break,
                        Err(x) => head = x,
                    }
                }
                if HELD.fetch_add((*h).size, SeqCst) > MOST_HELD {
                    flush_quarantine();
                }
            }
            LIVE_OUT => {
                (*h).magic = FREED;
                let prefix = (*h).prefix;
                let full =
                    Layout::from_size_align_unchecked(l.size() + prefix + REDZONE, l.align().max(16));
                System.dealloc(user.sub(prefix), full);
            }
            FREED => DOUBLE_FREE.store(true, SeqCst),
            _ => BAD_FREE.store(true, SeqCst),
        }
    }
}

/// First heap error noticed so far, if any.
pub fn error() -> Option<&'static str> {
    if DOUBLE_FREE.load(SeqCst) {
        Some("double free of a block allocated by the library")
    } else if BAD_FREE.load(SeqCst) {
        Some("free of an invalid block or with a wrong size")
    } else if OVERRUN.load(SeqCst) {
        Some("write past the end of a block allocated by the library")
    } else if AFTER_FREE.load(SeqCst) {
        Some("write to a block after it was freed")
    } else {
        None
    }
}

/// Checks that quarantined blocks still hold their poison, then really frees them.
pub fn flush_quarantine() -> Option<&'static str> {
    HELD.store(0, SeqCst);
    let mut h = QUARANTINE.swap(std::ptr::null_mut(), SeqCst);
    let mut bad = None;
    while !h.is_null() {
        unsafe {
            let next = (*h).next;
            let user = (h as *mut u8).add(32);
            for i in 0..(*h).size {
                if *user.add(i) != POISON {
                    AFTER_FREE.store(true, SeqCst);
                    bad = Some("write to a block after it was freed");
                    break;
                }
            }
            let prefix = (*h).prefix;
            let align = prefix_align(prefix);
            let full =
                Layout::from_size_align_unchecked((*h).size + prefix + REDZONE, align);
            System.dealloc(user.sub(prefix), full);
            h = next;
        }
    }
    bad
}

fn prefix_align(prefix: usize) -> usize {
    if prefix > 32 {
        prefix
    } else {
        16
    }
}

/// Leaves library scope until dropped: used by every callback.
pub struct Out(bool);
impl Out {
    #[inline]
    pub fn new() -> Out {
        Out(IN_LIB.with(|c| c.replace(false)))
    }
}
impl Drop for Out {
    #[inline]
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0))
    }
}

/// Enters library scope until dropped.
pub struct In(bool);
impl In {
    #[inline]
    pub fn new() -> In {
        In(IN_LIB.with(|c| c.replace(true)))
    }
}
impl Drop for In {
    #[inline]
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0))
    }
}
