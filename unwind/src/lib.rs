#![allow(unexpected_cfgs)]
//! Harnesses for C16. They are compiled to LLVM IR together with dync, and executed symbolically by tools/irx.py,
//! which runs the cleanup code of a panic like any other code.
//!
//! Every callback of an element type (clone, drop, comparison, hash, format) and every closure or iterator handed to
//! dync calls `vp_point()`. Between `vp_arm()` and the end of `catch` the number of the call that panics is symbolic.
#![allow(static_mut_refs, dead_code, unused_imports, unused_must_use, non_snake_case)]

use dync::*;
use std::fmt;
use std::hash::{Hash, Hasher};

#[cfg(feature = "native")]
pub mod native;

extern "C-unwind" {
    /// a symbolic byte
    pub fn vp_any() -> u8;
    /// a symbolic byte from `lo` to `hi`; execution branches on it
    pub fn vp_choose(lo: u8, hi: u8) -> u8;
    /// how many more elements than usual
    fn vp_more() -> u8;
    pub fn vp_assume(c: bool);
    fn vp_check(c: bool, text: *const u8, len: usize);
    pub fn vp_arm();
    pub fn vp_disarm();
    /// here the code under test is in user code, which may panic
    pub fn vp_point();
    fn vp_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
    pub fn vp_live() -> usize;
    pub fn vp_thrown() -> bool;
    pub fn vp_witness(n: u8);
}

pub fn any() -> u8 { unsafe { vp_any() } }
pub fn choose(lo: u8, hi: u8) -> u8 { unsafe { vp_choose(lo, hi) } }
/// any length up to `most`, or more in the thorough tier
pub fn length(most: u8) -> u8 { unsafe { vp_choose(0, most + vp_more()) } }
/// The number of elements: any up to `most` (the quick tier goes half the way), and some higher ones.
pub fn wide_length(most: u8, higher: &[u8]) -> u8 {
    let n = choose(0, up(most) + higher.len() as u8);
    if n <= up(most) { n } else { higher[(n - up(most) - 1) as usize] }
}
fn up(most: u8) -> u8 { if unsafe { vp_more() } == 0 { (most + 1) / 2 } else { most } }
pub fn point() { unsafe { vp_point() } }
/// A writer that may panic.
pub struct Sink;
impl fmt::Write for Sink { fn write_str(&mut self, _: &str) -> fmt::Result { point(); Ok(()) } }
pub fn show<T: fmt::Debug>(x: &T) { let _ = fmt::write(&mut Sink, format_args!("{:?}", x)); }
pub fn check(c: bool, text: &str) { unsafe { vp_check(c, text.as_ptr(), text.len()) } }

/// Run `f`; whether it panicked.
pub fn catch<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn go<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { (*(p as *mut Option<F>)).take() };
        if let Some(f) = f { f() }
    }
    let mut f = Some(f);
    unsafe { vp_catch(go::<F>, &mut f as *mut Option<F> as *mut u8) }
}

/// Run `f`, in which one call of user code (which one is symbolic) may panic.
pub fn risky<F: FnOnce()>(f: F) -> bool {
    unsafe { vp_arm() };
    let p = catch(f);
    unsafe { vp_disarm() };
    p
}

// -------------------------------------------------------------------------------------------- elements

const NONE: u8 = 0x11;
const LIVE: u8 = 0x22;
const DEAD: u8 = 0x33;
static mut STATE: [u8; 250] = [NONE; 250];
static mut NEXT: u8 = 1;

fn born() -> u8 {
    unsafe {
        let id = NEXT;
        NEXT += 1;
        STATE[id as usize] = LIVE;
        id
    }
}
fn seen(id: u8) {
    let s = unsafe { if (id as usize) < 250 { STATE[id as usize] } else { NONE } };
    check(s != DEAD, "an element that has been dropped is used again");
    check(s == LIVE, "something that is no element is used as one");
}
fn died(id: u8) {
    let s = unsafe { if (id as usize) < 250 { STATE[id as usize] } else { NONE } };
    check(s != DEAD, "an element is dropped twice");
    check(s == LIVE, "something that is no element is dropped");
    unsafe { STATE[id as usize] = DEAD };
}
fn living() -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < unsafe { NEXT as usize } {
        if unsafe { STATE[i] } == LIVE { n += 1 }
        i += 1;
    }
    n
}

pub trait El: Clone + PartialEq + Hash + fmt::Debug + 'static {
    fn new(x: u8) -> Self;
    fn see(&self) -> u8;
}

macro_rules! el {
    ($name:ident $(#[$attr:meta])* { $($f:ident: $t:ty = $e:expr),* } |$x:ident| $new:expr, |$s:ident| $val:expr) => {
        $(#[$attr])*
        pub struct $name { id: u8, $($f: $t),* }
        impl El for $name {
            fn new($x: u8) -> Self { let id = born(); let _ = $new; $name { id, $($f: $e),* } }
            fn see(&self) -> u8 { seen(self.id); let $s = self; $val }
        }
        impl Clone for $name { fn clone(&self) -> Self { let x = self.see(); point(); <$name as El>::new(x) } }
        impl Drop for $name { fn drop(&mut self) { self.see(); died(self.id); point() } }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { let (a, b) = (self.see(), o.see()); point(); a == b } }
        impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { let x = self.see(); point(); h.write_u8(x) } }
        impl fmt::Debug for $name { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { self.see(); point(); Ok(()) } }
    };
}
// owns memory; size 16
el!(P { b: Box<u8> = Box::new(x) } |x| (), |s| *s.b);
// size 3, alignment 1
el!(Q3 { v: u8 = x, w: u8 = 7 } |x| (), |s| { check(s.w == 7, "an element is torn"); s.v });
// fits an inline value
el!(S8 #[repr(C)] { v: u8 = x, w: u16 = 9, z: u32 = 5 } |x| (), |s| { check(s.w == 9 && s.z == 5, "an element is torn"); s.v });
// alignment 64
el!(A64 #[repr(align(64))] { v: u8 = x } |x| (), |s| s.v);

#[dync_trait(dync_crate_name = "dync")]
pub trait All: Clone + PartialEq + std::hash::Hash + std::fmt::Debug {}
/// A table of the user's own, whose conversions can panic.
pub struct Tab(AllVTable);
impl Clone for Tab { fn clone(&self) -> Self { point(); Tab(self.0.clone()) } }
impl From<AllVTable> for Tab { fn from(t: AllVTable) -> Self { point(); Tab(t) } }
impl From<Tab> for AllVTable { fn from(t: Tab) -> Self { point(); t.0 } }
impl dync::traits::HasDrop for Tab { fn drop_fn(&self) -> &dync::traits::DropFn { self.0.drop_fn() } }
impl dync::traits::HasClone for Tab {
    fn clone_fn(&self) -> &dync::traits::CloneFn { self.0.clone_fn() }
    fn clone_from_fn(&self) -> &dync::traits::CloneFromFn { self.0.clone_from_fn() }
    fn clone_into_raw_fn(&self) -> &dync::traits::CloneIntoRawFn { self.0.clone_into_raw_fn() }
}
use dync::traits::{HasClone as _, HasDrop as _};
impl All for P {}
impl All for Q3 {}
impl All for S8 {}
impl All for A64 {}
pub trait Elt: El + All {}
impl<T: El + All> Elt for T {}

pub struct H(u8);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 as u64 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(3) ^ *x } }
}

macro_rules! harnesses {
    ($($name:ident: $f:ident<$t:ty>($n:expr);)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $f::<$t>($n) })*
        pub fn find(name: &str) -> Option<extern "C-unwind" fn()> { match name { $(stringify!($name) => Some($name),)* _ => None } }
    };
}

pub fn find(name: &str) -> Option<extern "C-unwind" fn()> { vecs::find(name).or_else(|| vals::find(name)).or_else(|| refuse::find(name)).or_else(|| hist::find(name)).or_else(|| text::find(name)).or_else(|| text::numeric::find(name)).or_else(|| more(name)).or_else(|| yet_more(name)).or_else(|| most(name)) }

pub mod vecs;
pub mod vals;
pub mod refuse;
pub mod hist;
pub mod text;
#[cfg(feature = "wide")]
pub mod wide;
#[cfg(feature = "wide")]
fn more(name: &str) -> Option<extern "C-unwind" fn()> { wide::find(name) }
#[cfg(feature = "casts")]
pub mod casts;
#[cfg(feature = "casts")]
fn most(name: &str) -> Option<extern "C-unwind" fn()> { casts::find(name) }
#[cfg(not(feature = "casts"))]
fn most(_: &str) -> Option<extern "C-unwind" fn()> { None }
#[cfg(feature = "tables")]
pub mod tables;
#[cfg(feature = "tables")]
fn yet_more(name: &str) -> Option<extern "C-unwind" fn()> { tables::find(name) }
#[cfg(not(feature = "tables"))]
fn yet_more(_: &str) -> Option<extern "C-unwind" fn()> { None }
#[cfg(not(feature = "wide"))]
fn more(_: &str) -> Option<extern "C-unwind" fn()> { None }
