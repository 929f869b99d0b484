//! The shim between a harness and what drives it: Kani's nondeterminism, or, in a native build, the
//! values of a counterexample read from a file (see bin/replay.rs).
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    extern "C" {
        fn vp_live() -> usize;
    }
    /// Its arguments are read back from the solver's trace, in call order.
    #[inline(never)]
    pub fn vp_record(v: u64) -> u64 {
        v
    }
    pub fn any_u8() -> u8 {
        let v: u8 = kani::any();
        vp_record(v as u64);
        v
    }
    pub fn any_u16() -> u16 {
        let v: u16 = kani::any();
        vp_record(v as u64);
        v
    }
    pub fn any_u32() -> u32 {
        let v: u32 = kani::any();
        vp_record(v as u64);
        v
    }
    pub fn any_u64() -> u64 {
        let v: u64 = kani::any();
        vp_record(v);
        v
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// Number of live heap blocks.
    pub fn live() -> usize {
        unsafe { vp_live() }
    }
}

#[cfg(not(kani))]
mod imp {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static VALUES: std::sync::Mutex<(Vec<u64>, usize)> = std::sync::Mutex::new((Vec::new(), 0));

    fn next() -> u64 {
        let mut g = VALUES.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        g.0.get(i).copied().unwrap_or(0)
    }
    pub fn any_u8() -> u8 {
        next() as u8
    }
    pub fn any_u16() -> u16 {
        next() as u16
    }
    pub fn any_u32() -> u32 {
        next() as u32
    }
    pub fn any_u64() -> u64 {
        next()
    }
    pub fn assume(c: bool) {
        if !c {
            // Not an execution of the harness.
            super::say("VP-ASSUME-FAILED");
            super::quit(0);
        }
    }
    pub fn live() -> usize {
        LIVE.load(SeqCst)
    }
}
pub use imp::*;

pub fn any_usize() -> usize {
    any_u64() as usize
}
pub fn any_bool() -> bool {
    let v = any_u8();
    assume(v < 2);
    v == 1
}
/// A symbolic number in `0..=max`.
pub fn upto(max: usize) -> usize {
    let v = any_u8() as usize;
    assume(v <= max);
    v
}

/// Stands in for `TypeId::eq`, whose comparison of transmuted integers the symbolic execution does
/// not evaluate. It compares the same 16 bytes, as the pointers they are stored as.
#[cfg(kani)]
pub fn type_id_eq(a: std::any::TypeId, b: std::any::TypeId) -> bool {
    let x: [*const (); 2] = unsafe { std::mem::transmute(a) };
    let y: [*const (); 2] = unsafe { std::mem::transmute(b) };
    x[0] == y[0] && x[1] == y[1]
}

/// Stand in for the element moves of a slice rotation and swap, in harnesses where none may get as far.
#[cfg(kani)]
pub unsafe fn no_rotation<T>(_left: usize, _mid: *mut T, _right: usize) {}
#[cfg(kani)]
pub unsafe fn no_swap<T>(_x: *mut T, _y: *mut T, _n: usize) {}

/// Ends the path: what follows is not explored, and does not merge with other cases of a `split!`.
pub fn end() -> ! {
    #[cfg(kani)]
    {
        kani::assume(false);
        loop {}
    }
    #[cfg(not(kani))]
    {
        say("VP-END");
        quit(0)
    }
}

/// The statement that must hold.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, concat!("VP: ", $m));
        #[cfg(not(kani))]
        {
            if !$c {
                $crate::vp::fail(concat!("VP: ", $m));
            }
        }
    }};
}

#[cfg(not(kani))]
pub fn fail(m: &str) -> ! {
    say("VP-CHECK-FAILED");
    say(m);
    quit(101)
}

/// Prints without touching the heap.
#[cfg(not(kani))]
pub fn say(m: &str) {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    unsafe {
        write(1, m.as_ptr(), m.len());
        write(1, b"\n".as_ptr(), 1);
    }
}

/// Leaves without running any cleanup.
#[cfg(not(kani))]
pub fn quit(code: i32) -> ! {
    #[cfg(not(miri))]
    {
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        unsafe { _exit(code) }
    }
    #[cfg(miri)]
    std::process::exit(code)
}

/// A reachability witness: the solver must find it reachable, or the harness says nothing.
#[macro_export]
macro_rules! witness {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::cover!($c, "VP-WITNESS");
        #[cfg(not(kani))]
        let _ = $c;
    }};
}

/// In a harness whose last operation must panic: reaching this is the violation.
#[macro_export]
macro_rules! must_not_return {
    ($m:literal) => {{
        $crate::check!(false, $m);
        $crate::vp::end();
    }};
}

/// Case split: runs `$body` once per value of `0..=$max`, with `$v` a constant in each, on the path
/// where the symbolic choice has that value. All values are covered by one solver query.
#[macro_export]
macro_rules! split {
    ($v:ident in $lo:expr, $hi:expr => $body:block) => {{
        let sym = $crate::vp::any_u8() as usize;
        let lo: usize = $lo;
        let hi: usize = $hi;
        $crate::vp::assume(lo <= sym && sym <= hi);
        let mut $v: usize = lo;
        while $v <= hi {
            if sym == $v {
                $body
                #[allow(unreachable_code)]
                $crate::vp::end();
            }
            $v += 1;
        }
    }};
}

#[macro_export]
macro_rules! harnesses_no_moves {
    ($(#[unwind($n:literal)] fn $name:ident() $body:block)* $(thorough { $(#[unwind($tn:literal)] fn $tname:ident() $tbody:block)* })?) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(::core::intrinsics::type_id_eq, $crate::vp::type_id_eq))]
            #[cfg_attr(kani, kani::stub(::core::slice::rotate::ptr_rotate, $crate::vp::no_rotation))]
            #[cfg_attr(kani, kani::stub(::core::ptr::swap_nonoverlapping, $crate::vp::no_swap))]
            #[cfg_attr(kani, kani::unwind($n))]
            pub fn $name() $body
        )*
        $($(
            #[cfg(feature = "thorough")]
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(::core::intrinsics::type_id_eq, $crate::vp::type_id_eq))]
            #[cfg_attr(kani, kani::stub(::core::slice::rotate::ptr_rotate, $crate::vp::no_rotation))]
            #[cfg_attr(kani, kani::stub(::core::ptr::swap_nonoverlapping, $crate::vp::no_swap))]
            #[cfg_attr(kani, kani::unwind($tn))]
            pub fn $tname() $tbody
        )*)?
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(all(not(kani), feature = "thorough"))]
        pub const TLIST: &[(&str, fn())] = &[$($((stringify!($tname), $tname as fn())),*)?];
    };
}

#[macro_export]
macro_rules! harnesses {
    ($(#[unwind($n:literal)] fn $name:ident() $body:block)* $(thorough { $(#[unwind($tn:literal)] fn $tname:ident() $tbody:block)* })?) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(::core::intrinsics::type_id_eq, $crate::vp::type_id_eq))]
            #[cfg_attr(kani, kani::unwind($n))]
            pub fn $name() $body
        )*
        $($(
            #[cfg(feature = "thorough")]
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(::core::intrinsics::type_id_eq, $crate::vp::type_id_eq))]
            #[cfg_attr(kani, kani::unwind($tn))]
            pub fn $tname() $tbody
        )*)?
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(all(not(kani), feature = "thorough"))]
        pub const TLIST: &[(&str, fn())] = &[$($((stringify!($tname), $tname as fn())),*)?];
    };
}

/// One case per type. `each!(f(args): A B)` or `each!(f: A B)`.
#[macro_export]
macro_rules! each {
    ($f:ident: $($t:ident)*) => { $crate::each!($f (): $($t)*) };
    ($f:ident $a:tt: $($t:ident)*) => { $crate::split!(i in 0, 15 => {
        let mut k = 0;
        $(if i == k { $f::<$t> $a; } k += 1;)*
        $crate::vp::assume(i < k);
    }) };
}
