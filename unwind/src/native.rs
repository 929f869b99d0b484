//! The primitives for native runs (replays): values come from the command line.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static mut VALUES: Vec<u8> = Vec::new();
static mut AT: usize = 0;
static mut ARMED: bool = false;
static mut THROWN: bool = false;
static mut EVER: bool = false;
static mut K: u8 = 0;
static mut POINTS: u8 = 0;

pub fn set(v: Vec<u8>, more: u8) { unsafe { VALUES = v; MORE = more } }
static mut MORE: u8 = 0;
fn next() -> u8 {
    unsafe {
        let v = VALUES.get(AT).copied().unwrap_or(0);
        AT += 1;
        v
    }
}
#[no_mangle] extern "C-unwind" fn vp_any() -> u8 { next() }
#[no_mangle] extern "C-unwind" fn vp_choose(lo: u8, hi: u8) -> u8 { next().clamp(lo, hi) }
#[no_mangle] extern "C-unwind" fn vp_more() -> u8 { unsafe { MORE } }
#[no_mangle] extern "C-unwind" fn vp_assume(c: bool) { if !c { std::process::exit(0) } }
#[no_mangle] extern "C-unwind" fn vp_check(c: bool, text: *const u8, len: usize) {
    if !c {
        let t = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(text, len)) };
        println!("FAILED: {t}");
        std::process::exit(1)
    }
}
#[no_mangle] extern "C-unwind" fn vp_arm() { unsafe { ARMED = true; THROWN = false; POINTS = 0; K = next() } }
#[no_mangle] extern "C-unwind" fn vp_disarm() { unsafe { ARMED = false } }
#[no_mangle] extern "C-unwind" fn vp_point() {
    unsafe {
        if ARMED && !THROWN {
            POINTS = POINTS.wrapping_add(1);
            if POINTS == K {
                THROWN = true;
                EVER = true;
                std::panic::resume_unwind(Box::new(()))
            }
        }
    }
}
#[no_mangle] extern "C-unwind" fn vp_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    std::panic::catch_unwind(move || f(data)).is_err()
}
#[no_mangle] extern "C-unwind" fn vp_live() -> usize { LIVE.load(Relaxed) - unsafe { BASE } }
#[no_mangle] extern "C-unwind" fn vp_thrown() -> bool { unsafe { EVER } }
#[no_mangle] extern "C-unwind" fn vp_witness(_: u8) {}

static LIVE: AtomicUsize = AtomicUsize::new(0);
static mut BASE: usize = 0;
pub fn start() { unsafe { BASE = LIVE.load(Relaxed) } }

/// counts live blocks, and remembers the layout of each in front of it (where nothing else watches what is there)
pub struct Counting;
const FRONT: bool = !cfg!(any(miri, vp_asan));
fn front(l: Layout) -> (usize, Layout) {
    let f = if FRONT { l.align().max(16) } else { 0 };
    (f, Layout::from_size_align(l.size() + f, if FRONT { l.align().max(16) } else { l.align() }).unwrap())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        let (f, m) = front(l);
        let p = System.alloc(m);
        if p.is_null() { return p }
        if FRONT { (p.add(f - 16) as *mut [usize; 2]).write([l.size(), l.align()]) }
        p.add(f)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        if FRONT {
            let [size, align] = (p.sub(16) as *const [usize; 2]).read();
            if size != l.size() || align != l.align() {
                // not println!, which may allocate
                let t = b"FAILED: a heap block is released with another layout than it was allocated with\n";
                use std::io::Write;
                let _ = std::io::stderr().write_all(t);
                std::process::exit(1)
            }
            (p.sub(16) as *mut [usize; 2]).write([usize::MAX; 2]);
        }
        let (f, m) = front(l);
        System.dealloc(p.sub(f), m)
    }
}
#[global_allocator]
static A: Counting = Counting;
