//! The simulated allocator. While a run is active, every allocation comes from an arena in which nothing is ever
//! reused: small blocks are poisoned when they are freed, and blocks that have the size of one of the node types live
//! on pages of their own, which become inaccessible when they are freed. Any use of a released node therefore is a
//! segmentation fault at a known address, and releasing one twice is noticed right away.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

const ARENA: usize = 1 << 30; // virtual
const PAGES: usize = 1 << 28; // virtual, for nodes
const MAGIC_LIVE: u64 = 0x11FE_A110_C8ED_B10C;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
pub const POISON: u8 = 0xDB;

static BASE: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
static PBASE: AtomicUsize = AtomicUsize::new(0);
static PTOP: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicUsize = AtomicUsize::new(0);
static SIZES: [AtomicUsize; 32] = [const { AtomicUsize::new(0) }; 32];
pub static NODE_ALLOCS: AtomicUsize = AtomicUsize::new(0);
pub static NODE_FREES: AtomicUsize = AtomicUsize::new(0);

/// While this lives, memory comes from the usual allocator: for what the simulator does, rather than the simulated.
pub struct Aside(usize);
pub fn aside() -> Aside { Aside(ASIDE.swap(1, Relaxed)) }
impl Drop for Aside { fn drop(&mut self) { ASIDE.store(self.0, Relaxed); } }
static ASIDE: AtomicUsize = AtomicUsize::new(0);

pub fn register_node_size(size: usize) {
    for s in SIZES.iter() {
        if s.load(Relaxed) == size { return; }
        if s.load(Relaxed) == 0 { s.store(size, Relaxed); return; }
    }
}

unsafe fn map(len: usize) -> usize {
    let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { libc::_exit(90); }
    p as usize
}

/// Switches the simulated allocator on for the rest of this (forked) process.
pub fn activate() {
    unsafe {
        let b = map(ARENA);

        BASE.store(b, Relaxed);
        TOP.store(b, Relaxed);
        let p = map(PAGES);
        PBASE.store(p, Relaxed);
        PTOP.store(p, Relaxed);
        ON.store(1, Relaxed);
    }
}

/// 1: a page that held a node, 2: elsewhere in the arena, 0: neither.
pub fn classify(addr: usize) -> u32 {
    let (b, p) = (BASE.load(Relaxed), PBASE.load(Relaxed));
    if p != 0 && addr >= p && addr < p + PAGES { 1 }
    else if b != 0 && addr >= b && addr < b + ARENA { 2 }
    else { 0 }
}

fn is_node_size(size: usize) -> bool {
    for s in SIZES.iter() {
        let v = s.load(Relaxed);
        if v == 0 { return false; }
        if v == size { return true; }
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) == 0 || ASIDE.load(Relaxed) != 0 { return System.alloc(l); }
        if is_node_size(l.size()) {
            let len = (l.size() + 4095) & !4095;
            let at = PTOP.fetch_add(len, Relaxed);
            if at + len > PBASE.load(Relaxed) + PAGES { crate::sup::die(crate::sup::EXIT_OOM, 0); }
            NODE_ALLOCS.fetch_add(1, Relaxed);
            std::ptr::write_bytes(at as *mut u8, 0xA5, len);
            return ((at + len - l.size()) & !(l.align() - 1)) as *mut u8;
        }
        let align = l.align().max(16);
        let start = (TOP.load(Relaxed) + 16 + align - 1) & !(align - 1);
        let end = start + l.size();
        if end + 64 > BASE.load(Relaxed) + ARENA { crate::sup::die(crate::sup::EXIT_OOM, 0); }
        TOP.store((end + 15) & !15, Relaxed);
        *((start - 16) as *mut u64) = MAGIC_LIVE;
        *((start - 8) as *mut u64) = l.size() as u64;
        start as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match classify(p as usize) {
            1 => {
                let len = (l.size() + 4095) & !4095;
                let at = (p as usize) & !4095;
                NODE_FREES.fetch_add(1, Relaxed);
                // A page that is already inaccessible was released before.
                std::ptr::read_volatile(p);
                libc::mprotect(at as *mut _, len, libc::PROT_NONE);
            }
            2 => {
                let m = (p as usize - 16) as *mut u64;
                if *m == MAGIC_DEAD { crate::sup::die(crate::sup::EXIT_DOUBLE_FREE, p as usize); }
                if *m != MAGIC_LIVE || *m.add(1) != l.size() as u64 { crate::sup::die(crate::sup::EXIT_BAD_FREE, p as usize); }
                *m = MAGIC_DEAD;
                std::ptr::write_bytes(p, POISON, l.size());
            }
            _ => System.dealloc(p, l)
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.load(Relaxed) == 0 { return System.realloc(p, l, new); }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        self.dealloc(p, l);
        q
    }
}

/// Looks for writes to blocks that had been freed. Returns the address of the first one found.
pub fn check_poison() -> Option<usize> {
    if ON.load(Relaxed) == 0 { return None; }
    let (mut at, top) = (BASE.load(Relaxed), TOP.load(Relaxed));
    unsafe {
        // Blocks are laid out one after the other, but alignment gaps have to be skipped.
        while at + 16 < top {
            let m = *(at as *const u64);
            if m != MAGIC_LIVE && m != MAGIC_DEAD { at += 16; continue; }
            let size = *((at + 8) as *const u64) as usize;
            if size > ARENA { at += 16; continue; }
            if m == MAGIC_DEAD {
                let s = std::slice::from_raw_parts((at + 16) as *const u8, size);
                if s.iter().any(|&b| b != POISON) { return Some(at + 16); }
            }
            at = (at + 16 + size + 15) & !15;
        }
    }
    None
}
