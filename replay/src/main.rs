//! Runs one harness natively on the values of a counterexample:  replay FILE.json
//! The global allocator checks what the allocator model checks: each block is given back with the
//! layout it was allocated with; and it counts live blocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

struct Tracking;
static ON: AtomicBool = AtomicBool::new(!cfg!(miri));
const SLOTS: usize = 1 << 14;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
static PTR: [AtomicUsize; SLOTS] = [Z; SLOTS];
static SIZE: [AtomicUsize; SLOTS] = [Z; SLOTS];
static ALIGN: [AtomicUsize; SLOTS] = [Z; SLOTS];

fn die(m: &str) -> ! {
    vph::vp::fail(m)
}
fn put(p: usize, l: Layout) {
    for i in 0..SLOTS {
        if PTR[i].load(SeqCst) == 0 {
            PTR[i].store(p, SeqCst);
            SIZE[i].store(l.size(), SeqCst);
            ALIGN[i].store(l.align(), SeqCst);
            vph::vp::LIVE.fetch_add(1, SeqCst);
            return;
        }
    }
}
fn take(p: usize, l: Layout) {
    for i in 0..SLOTS {
        if PTR[i].load(SeqCst) == p {
            PTR[i].store(0, SeqCst);
            vph::vp::LIVE.fetch_sub(1, SeqCst);
            if SIZE[i].load(SeqCst) != l.size() {
                die("VP: block freed with the size it was allocated with");
            }
            if ALIGN[i].load(SeqCst) != l.align() {
                die("VP: block freed or grown with the alignment it was allocated with");
            }
            return;
        }
    }
    die("VP: free of a block that is not live");
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(SeqCst) && !p.is_null() {
            put(p as usize, l);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if ON.load(SeqCst) && !p.is_null() {
            put(p as usize, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) {
            take(p as usize, l);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(SeqCst) {
            take(p as usize, l);
        }
        let q = System.realloc(p, l, n);
        if ON.load(SeqCst) && !q.is_null() {
            put(q as usize, Layout::from_size_align_unchecked(n, l.align()));
        }
        q
    }
}

#[global_allocator]
static A: Tracking = Tracking;

fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("file")).expect("readable");
    let after = |k: &str| text[text.find(k).expect(k) + k.len()..].to_string();
    let name = after("\"harness\"");
    let name = name.split('"').nth(1).unwrap().to_string();
    let vals = after("\"values\"");
    let vals = &vals[vals.find('[').unwrap() + 1..vals.find(']').unwrap()];
    let vals: Vec<u64> = vals.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let f = vph::all().into_iter().find(|h| h.0 == name).expect("harness").1;
    std::panic::set_hook(Box::new(|i| {
        ON.store(false, SeqCst);
        println!("VP-PANIC {}", i);
        vph::vp::quit(101);
    }));
    *vph::vp::VALUES.lock().unwrap() = (vals, 0);
    drop(text);
    println!("replaying {}", name);
    f();
    vph::vp::end();
}
