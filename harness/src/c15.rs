//! Formatting shows exactly the elements, through their own formatting.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::fmt::{self, Debug, Write};

#[dync_trait]
pub trait All: Clone + std::fmt::Debug + PartialEq {}
impl<T: Clone + Debug + PartialEq> All for T {}

/// Records what elements write, which is made of the characters 1 to 6, and fails from a given write on.
struct Sink { seen: [u8; 4], n: usize, left: usize, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 { self.failed = true; return Err(fmt::Error); }
        self.left -= 1;
        let b = s.as_bytes();
        if b.len() == 1 && b[0] < 7 {
            if self.n == 4 { check!(false, "nothing but the elements is shown"); vp::end(); }
            self.seen[self.n] = b[0];
            self.n += 1;
        }
        Ok(())
    }
}
fn sink(left: usize) -> Sink { Sink { seen: [0; 4], n: 0, left, failed: false } }

/// What an element writes: its number and the flags it is formatted with, or it fails.
const FAILS: u8 = 7;
trait Shown: Clone + PartialEq + Debug + 'static { fn make(x: u8) -> Self; }
fn show(x: u8, f: &mut fmt::Formatter) -> fmt::Result {
    if x == FAILS { return Err(fmt::Error); }
    f.write_str(match (x, f.alternate(), f.width()) {
        (1, false, None) => "\u{1}", (_, false, None) => "\u{2}",
        (1, true, None) => "\u{3}", (_, true, None) => "\u{4}",
        (1, false, Some(5)) => "\u{5}", (_, false, Some(5)) => "\u{6}",
        _ => "x",
    })
}
macro_rules! shown { ($($t:ident ($s:ident) $get:expr;)*) => { $(
    impl Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let $s = self; show($get, f) } }
)* } }
#[derive(Copy, Clone, PartialEq)]
#[repr(C)]
struct F3(u8, u8, u8);
impl Shown for F3 { fn make(x: u8) -> F3 { F3(9, x, 8) } }
#[derive(Clone, PartialEq)]
struct FB(u64, Box<u8>, u8);
impl Shown for FB { fn make(x: u8) -> FB { FB(9, Box::new(x), 8) } }
#[derive(Clone, PartialEq)]
#[repr(C)]
struct F8(u32, u8);
impl Shown for F8 { fn make(x: u8) -> F8 { F8(9, x) } }
#[derive(Copy, Clone, PartialEq)]
#[repr(align(64))]
struct F64(u8);
impl Shown for F64 { fn make(x: u8) -> F64 { F64(x) } }
shown! { F3 (s) s.1; FB (s) *s.1; F8 (s) s.1; F64 (s) s.0; }

fn vec<T: Shown>(xs: &[u8; 3], n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(3);
    let mut i = 0;
    while i < n { v.push(T::make(xs[i])); i += 1; }
    v
}
fn one() -> u8 { let x = vp::any_u8(); vp::assume(x == 1 || x == 2 || x == FAILS); x }

/// Every element once, in order, with the flags, up to the first failure.
fn exact(s: &Sink, r: fmt::Result, xs: &[u8; 3], n: usize, off: u8) {
    let mut i = 0;
    let mut more = true;
    while i < n {
        more = more && xs[i] != FAILS;
        // The writer failed before this one, or this or an earlier one failed.
        check!(i < s.n || s.failed || !more, "every element is shown");
        check!(i >= s.n || s.seen[i] == xs[i] + off, "elements are shown in order, through their own formatting, with the flags");
        check!(i >= s.n || more, "nothing is shown after a failure");
        i += 1;
    }
    check!(s.n <= n, "every element is shown once");
    check!(r.is_err() == (s.failed || !more), "an error is passed on, and there is no other");
}
/// Lists: every way to one, with plain flags and a width.
fn list<T: Shown>(writers_fail: bool) {
    split!(op in 0, 6 => { split!(n in 0, 3 => {
        let live = vp::live();
        let xs = [one(), one(), one()];
        let left = if writers_fail { vp::upto(5) } else { 99 };
        let mut s = sink(left);
        let mut v = VecDyn::<AllVTable>::from_vec(vec::<T>(&xs, n));
        let mut off = 0;
        let r = match op {
            0 => write!(s, "{:?}", v),
            1 => write!(s, "{:?}", v.as_slice()),
            2 => write!(s, "{:?}", v.as_mut_slice()),
            3 => { let u: VecDyn<DebugVTable> = v.upcast(); let r = write!(s, "{:?}", u); v = VecDyn::from_vec(u.into_vec::<T>().unwrap()); r }
            4 => { let u = into_dyn![VecDyn<dyn HasAll>](v); let r = write!(s, "{:?}", u); v = from_dyn![VecDyn<dyn HasAll as AllVTable>](u); r }
            5 => { off = 4; write!(s, "{:5?}", v.as_slice()) }
            _ => { off = 4; write!(s, "{:5?}", v) }
        };
        exact(&s, r, &xs, n, off);
        witness!(op == 6 && n == 3);
        let w = v.into_vec::<T>().unwrap();
        check!(w == vec::<T>(&xs, n), "formatting changes nothing");
        drop(w);
        check!(vp::live() == live, "nothing leaks");
    }) });
}
/// Values.
fn value<T: Shown>() {
    split!(op in 0, 5 => { split!(flags in 0, 2 => {
        let live = vp::live();
        let xs = [one(), 1, 1];
        let off = 2 * flags as u8;
        let mut s = sink(vp::upto(2));
        macro_rules! shows { ($v:expr) => { match flags { 0 => write!(s, "{:?}", $v), 1 => write!(s, "{:#?}", $v), _ => write!(s, "{:5?}", $v) } } }
        let mut x = T::make(xs[0]);
        let r = match op {
            0 => shows!(BoxValue::<AllVTable>::new(x.clone())),
            1 => shows!(ValueRef::<AllVTable>::new(&x)),
            2 => shows!(ValueMut::<AllVTable>::new(&mut x)),
            3 => shows!(ValueRef::<DebugVTable>::new(&x).reborrow()),
            4 => shows!(BoxValue::<AllVTable>::new(x.clone()).upcast::<DebugVTable>()),
            _ => { let v = VecDyn::<AllVTable>::from_vec(vec::<T>(&[1, xs[0], 2], 3)); shows!(v.get(1)) }
        };
        exact(&s, r, &xs, 1, off);
        check!(x == T::make(xs[0]), "formatting changes nothing");
        drop(x);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 5 && flags == 2);
    }) });
}
fn small() {
    split!(flags in 0, 2 => {
        let live = vp::live();
        let xs = [one(), 1, 1];
        let mut s = sink(vp::upto(2));
        let v = SmallValue::<AllVTable>::new(F8::make(xs[0]));
        let r = match flags { 0 => write!(s, "{:?}", v), 1 => write!(s, "{:#?}", v), _ => write!(s, "{:5?}", v) };
        exact(&s, r, &xs, 1, 2 * flags as u8);
        check!(v.downcast::<F8>().unwrap() == F8::make(xs[0]), "formatting changes nothing");
        check!(vp::live() == live, "nothing leaks");
        witness!(flags == 2);
    });
}
/// Values made of bytes only.
fn copies<T: Shown + Copy>() {
    split!(op in 0, 2 => { split!(flags in 0, 2 => {
        let live = vp::live();
        let xs = [one(), 1, 1];
        let mut s = sink(vp::upto(2));
        let mut x = T::make(xs[0]);
        macro_rules! shows { ($v:expr) => { match flags { 0 => write!(s, "{:?}", $v), 1 => write!(s, "{:#?}", $v), _ => write!(s, "{:5?}", $v) } } }
        let r = match op {
            0 => shows!(CopyValueRef::<DebugVTable>::new(&x)),
            1 => { let v = VecCopy::<DebugVTable>::from_vec(vec::<T>(&[1, xs[0], 2], 3)); shows!(v.get_ref(1)) }
            _ => shows!(CopyValueMut::<DebugVTable>::new(&mut x)),
        };
        exact(&s, r, &xs, 1, 2 * flags as u8);
        check!(x == T::make(xs[0]), "formatting changes nothing");
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 2 && flags == 2);
    }) });
}

/// Records the characters of numbers.
struct Digits { seen: [u8; 16], n: usize, left: usize, failed: bool }
impl Write for Digits {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 { self.failed = true; return Err(fmt::Error); }
        self.left -= 1;
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] > b' ' {
                if self.n == 16 { check!(false, "nothing but the elements is shown"); vp::end(); }
                self.seen[self.n] = b[i];
                self.n += 1;
            }
            i += 1;
        }
        Ok(())
    }
}
trait Numeral: Sym + fmt::Display { const ALL: [Self; 3]; fn numeral() -> Self {
    let i = vp::any_u8();
    vp::assume(i < 3);
    if i == 0 { Self::ALL[0] } else if i == 1 { Self::ALL[1] } else { Self::ALL[2] }
} }
macro_rules! numerals { ($($t:ident $a:expr, $b:expr, $c:expr;)*) => { $( impl Numeral for $t { const ALL: [$t; 3] = [$a, $b, $c]; } )* } }
numerals! { u8 0, 9, 200; i8 -1, 7, 100; u16 3, 40, 65000; i16 -300, 0, 12; u32 1, 70000, 9; i32 -70000, 4, 0; u64 5, 60, 5_000_000; i64 -8, 88, 888_888; f32 0.5, 1.0, 2.25; f64 -0.5, 3.0, 8.0; }
fn display<T: Numeral>() {
    split!(n in 0, 2 => {
        let live = vp::live();
        let xs = [T::numeral(), T::numeral(), T::ALL[0]];
        let v = VecCopy::<()>::from_vec(vec_of(&xs, 2, n));
        let mut out = Digits { seen: [0; 16], n: 0, left: vp::upto(6), failed: false };
        let r = write!(out, "{}", v);
        let mut want = Digits { seen: [0; 16], n: 0, left: 99, failed: false };
        let mut i = 0;
        while i < n { check!(write!(want, "{}", xs[i]).is_ok(), "numbers can be shown"); i += 1; }
        check!(r.is_err() == out.failed, "an error is passed on, and there is no other");
        check!(out.n == want.n || out.failed && out.n < want.n, "every element is shown once, and nothing else");
        i = 0;
        while i < 16 { check!(i >= out.n || out.seen[i] == want.seen[i], "elements are shown in order, through their own formatting"); i += 1; }
        check!(v.as_slice_as::<T>().unwrap() == &xs[..n], "formatting changes nothing");
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(n == 2);
    });
}
/// Floating-point numbers, as constants.
fn display_floats<T: Numeral>() {
    split!(n in 0, 2 => { split!(k in 0, 2 => {
        let xs = [T::ALL[k], T::ALL[2 - k]];
        let v = VecCopy::<()>::from_vec(vec_of(&xs, 2, n));
        let mut out = Digits { seen: [0; 16], n: 0, left: 99, failed: false };
        check!(write!(out, "{}", v).is_ok(), "numbers can be shown");
        let mut want = Digits { seen: [0; 16], n: 0, left: 99, failed: false };
        let mut i = 0;
        while i < n { check!(write!(want, "{}", xs[i]).is_ok(), "numbers can be shown"); i += 1; }
        check!(out.n == want.n, "every element is shown once, and nothing else");
        i = 0;
        while i < 16 { check!(i >= out.n || out.seen[i] == want.seen[i], "elements are shown in order, through their own formatting"); i += 1; }
        witness!(n == 2 && k == 2);
    }) });
}
harnesses! {
    #[unwind(6)] fn fmt_list_f3() { list::<F3>(false) }
    #[unwind(6)] fn fmt_list_fb() { list::<FB>(false) }
    #[unwind(6)] fn fmt_writer_f3() { list::<F3>(true) }
    #[unwind(6)] fn fmt_value_f3() { value::<F3>() }
    #[unwind(6)] fn fmt_value_fb() { value::<FB>() }
    #[unwind(6)] fn fmt_small() { small() }
    #[unwind(6)] fn fmt_copy() { each!(copies: F3 F64) }
    #[unwind(18)] fn fmt_display_u8() { display::<u8>() }
    #[unwind(18)] fn fmt_display_i16() { display::<i16>() }
    #[unwind(18)] fn fmt_display_f32() { display_floats::<f32>() }
    thorough {
        #[unwind(6)] fn fmt_list_f8() { list::<F8>(false) }
        #[unwind(6)] fn fmt_list_f64() { list::<F64>(false) }
        #[unwind(6)] fn fmt_writer_fb() { list::<FB>(true) }
        #[unwind(6)] fn fmt_value_f64() { value::<F64>() }
        #[unwind(18)] fn fmt_display_i8() { display::<i8>() }
        #[unwind(18)] fn fmt_display_u16() { display::<u16>() }
        #[unwind(18)] fn fmt_display_u32() { display::<u32>() }
        #[unwind(18)] fn fmt_display_i32() { display::<i32>() }
        #[unwind(18)] fn fmt_display_u64() { display::<u64>() }
        #[unwind(18)] fn fmt_display_i64() { display::<i64>() }
        #[unwind(18)] fn fmt_display_f64() { display_floats::<f64>() }
    }
}
