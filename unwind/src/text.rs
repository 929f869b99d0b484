//! Formatting, through the standard library's own code: lists, indentation, flags, numbers.
use crate::*;
use std::fmt::{self, Debug, Write};

/// Keeps what is written, and fails at a symbolic call.
struct Text { text: [u8; 200], n: usize, calls: u8, fails: u8 }
impl Text { fn new(fails: u8) -> Text { Text { text: [0; 200], n: 0, calls: 0, fails } } }
impl Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls == self.fails { return Err(fmt::Error); }
        for b in s.bytes() {
            check(self.n < 200, "nothing but the elements is shown");
            self.text[self.n] = b;
            self.n += 1;
        }
        Ok(())
    }
}
fn same(a: &Text, b: &Text) -> bool {
    let mut i = 0;
    if a.n != b.n { return false; }
    while i < a.n { if a.text[i] != b.text[i] { return false; } i += 1 }
    true
}
/// `a` is what `b` starts with
fn starts(a: &Text, b: &Text) -> bool {
    let mut i = 0;
    if a.n > b.n { return false; }
    while i < a.n { if a.text[i] != b.text[i] { return false; } i += 1 }
    true
}
macro_rules! write_as { ($t:expr, $flags:expr, $x:expr) => { match $flags {
    0 => write!($t, "{:?}", $x), 1 => write!($t, "{:#?}", $x), 2 => write!($t, "{:3?}", $x), 3 => write!($t, "{:#04x?}", $x), _ => write!($t, "{:<+5.1?}", $x),
} } }

/// The letter, and a number that obeys the flags; writes several lines in the alternate form.
trait Tx: Clone + Debug + 'static { fn make(c: char, n: u8) -> Self; }
macro_rules! tx {
    ($name:ident $(#[$attr:meta])* { $($f:ident: $t:ty = $e:expr),* } |$c:ident, $n:ident|) => {
        #[derive(Clone, Debug)] $(#[$attr])* struct $name { $($f: $t),* }
        impl Tx for $name { fn make($c: char, $n: u8) -> Self { $name { $($f: $e),* } } }
    };
}
tx!(TB { c: char = c, n: Box<u8> = Box::new(n) } |c, n|);
tx!(T1 { n: u8 = n } |c, n|);
tx!(T8 #[repr(C)] { n: u8 = n, c: char = c } |c, n|);
tx!(T64 #[repr(align(64))] { n: i8 = n as i8 } |c, n|);

#[dync_trait(dync_crate_name = "dync")]
pub trait Shows: Clone + std::fmt::Debug {}
impl Shows for TB {}
impl Shows for T1 {}
impl Shows for T8 {}
impl Shows for T64 {}
trait Tel: Tx + Shows {}
impl<T: Tx + Shows> Tel for T {}
type V = VecDyn<ShowsVTable>;

/// any of a few, or with one letter only any number at all
fn some<T: Tx>() -> T { if choose(0, 1) == 0 { T::make('x', 0) } else { T::make('\n', 200) } }

fn lists<T: Tel>(most: u8) where ShowsVTable: VTable<T> {
    {
        let n = choose(0, most);
        let mut xs: Vec<T> = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n { xs.push(some()); i += 1 }
        let flags = choose(0, 4);
        let fails = choose(0, 3);
        let mut want = Text::new(0);
        check(write_as!(want, flags, xs).is_ok(), "the elements can be shown");
        let mut got = Text::new(fails);
        let mut v = V::from_vec(xs.clone());
        let r = match choose(0, 5) {
            0 => write_as!(got, flags, v),
            1 => write_as!(got, flags, v.as_slice()),
            2 => write_as!(got, flags, v.as_mut_slice()),
            3 => write_as!(got, flags, &v),
            4 => { let b: VecDyn<dync::traits::DebugVTable> = v.upcast(); let r = write_as!(got, flags, b); v = V::from_vec(b.into_vec::<T>().unwrap()); r }
            _ => { let s = Slice::<ShowsVTable>::from_slice(&xs); write_as!(got, flags, s) }
        };
        done(r, &got, &want, fails);
        let mut again = Text::new(0);
        write_as!(again, 0, v).is_ok();
        let mut is = Text::new(0);
        write_as!(is, 0, xs).is_ok();
        check(same(&again, &is), "formatting changes nothing");
    }
    vecs::end();
}
fn done(r: fmt::Result, got: &Text, want: &Text, fails: u8) {
    if fails == 0 || fails > got.calls {
        check(r.is_ok(), "there is no error but the writer's");
        check(same(got, want), "the elements are shown as a slice of them is");
    } else {
        check(r.is_err(), "an error is passed on");
        check(got.calls == fails, "nothing is written after an error");
        check(starts(got, want), "the elements are shown as a slice of them is");
    }
}

fn values<T: Tel>(_: u8) where ShowsVTable: VTable<T> {
    {
        let mut x: T = some();
        let flags = choose(0, 4);
        let fails = choose(0, 4);
        let mut want = Text::new(0);
        check(write_as!(want, flags, x).is_ok(), "the element can be shown");
        let mut got = Text::new(fails);
        let r = match choose(0, 5) {
            0 => write_as!(got, flags, BoxValue::<ShowsVTable>::new(x.clone())),
            1 => write_as!(got, flags, ValueRef::<ShowsVTable>::new(&x)),
            2 => write_as!(got, flags, ValueMut::<ShowsVTable>::new(&mut x)),
            3 => write_as!(got, flags, ValueMut::<ShowsVTable>::new(&mut x).reborrow()),
            4 => { let v = V::from_vec(vec![some(), x.clone(), some()]); write_as!(got, flags, v.get(1)) }
            _ => write_as!(got, flags, BoxValue::<ShowsVTable>::new(x.clone()).upcast::<dync::traits::DebugVTable>()),
        };
        done(r, &got, &want, fails);
    }
    vecs::end();
}

/// All that is written, however much it is.
struct Scroll(Vec<u8>);
impl Scroll { fn new() -> Scroll { Scroll(Vec::with_capacity(2000)) } }
impl Write for Scroll { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }
fn long_lists<T: Tel>(_: u8) where ShowsVTable: VTable<T> {
    {
        let n = [33, 130][choose(0, 1) as usize];
        let at = if n == 130 { 129 } else { choose(0, 1) as usize * 16 };
        let mut xs: Vec<T> = Vec::with_capacity(n);
        let mut i = 0;
        while i < n { xs.push(if i == at { T::make('\n', 200) } else { T::make('y', 7) }); i += 1 }
        let flags = if n == 130 { 0 } else { choose(0, 1) };
        let mut want = Scroll::new();
        check(write_as!(want, flags, xs).is_ok(), "the elements can be shown");
        let mut got = Scroll::new();
        let r = match choose(0, 3) {
            0 => write_as!(got, flags, V::from_vec(xs)),
            1 => write_as!(got, flags, V::from_vec(xs).as_slice()),
            2 => write_as!(got, flags, SliceMut::<ShowsVTable>::from_slice(&mut xs)),
            _ => write_as!(got, flags, V::from_vec(xs).upcast::<dync::traits::DebugVTable>()),
        };
        check(r.is_ok() && got.0 == want.0, "the elements are shown as a slice of them is");
    }
    vecs::end();
}

#[cfg(feature = "numeric")]
fn long_numbers<T: Copy + fmt::Display + 'static>(mk: fn(u8) -> T) {
    {
        let n = [33, 130][choose(0, 1) as usize];
        let at = [0, n / 2, n - 1][choose(0, 2) as usize];
        let x = mk(choose(99, 100));
        let mut v: Vec<T> = Vec::with_capacity(n);
        let mut i = 0;
        while i < n { v.push(if i == at { x } else { mk(7) }); i += 1 }
        let mut want = Scroll::new();
        for x in &v { write!(want, "{} ", x).is_ok(); }
        let mut got = Scroll::new();
        check(write!(got, "{}", VecCopy::<()>::from_vec(v)).is_ok() && got.0 == want.0, "the elements are shown in order, through their own formatting");
    }
    vecs::end();
}

#[cfg(feature = "numeric")]
fn numbers<T: Copy + fmt::Display + 'static>(mk: fn(u8) -> T) {
    {
        let n = choose(0, 2);
        let a = if n == 1 { mk(any()) } else { mk(choose(199, 200)) };
        let b = mk(10);
        let xs = [a, b];
        let mut v: Vec<T> = Vec::with_capacity(2);
        let mut i = 0;
        while i < n { v.push(xs[i as usize]); i += 1 }
        let fails = if n == 2 { choose(0, 5) } else { 0 };
        let mut want = Text::new(0);
        for x in &v { write!(want, "{} ", x).is_ok(); }
        let v = VecCopy::<()>::from_vec(v);
        let mut got = Text::new(fails);
        let r = write!(got, "{}", v);
        // Each number may end with a space or not: the last one's is not fixed.
        if fails == 0 || fails > got.calls {
            check(r.is_ok(), "there is no error but the writer's");
            check(same(&got, &want), "the elements are shown in order, through their own formatting");
        } else {
            check(r.is_err() && got.calls == fails, "an error is passed on");
            check(starts(&got, &want), "the elements are shown in order, through their own formatting");
        }
    }
    vecs::end();
}

harnesses! {
    t15_list_b: lists<TB>(2);
    t15_list_1: lists<T1>(2);
    t15_list_8: lists<T8>(2);
    t15_list_64: lists<T64>(2);
    t15_long_1: long_lists<T1>(0);
    t15_long_b: long_lists<TB>(0);
    t15_long_64: long_lists<T64>(0);
    t15_value_b: values<TB>(0);
    t15_value_1: values<T1>(0);
    t15_value_8: values<T8>(0);
    t15_value_64: values<T64>(0);
}
#[cfg(feature = "numeric")]
pub mod numeric {
    use super::*;
    harnesses! {
        t15_hundred_u8: long_numbers<u8>(|x| x);
        t15_hundred_i64: long_numbers<i64>(|x| x as i64 * -10_000_000);
        t15_numbers_u8: numbers<u8>(|x| x);
        t15_numbers_i8: numbers<i8>(|x| x as i8);
        t15_numbers_i32: numbers<i32>(|x| x as i8 as i32 * 9_000_000);
        t15_numbers_u64: numbers<u64>(|x| (x as u64) << 50);
    }
}
#[cfg(not(feature = "numeric"))]
pub mod numeric { pub fn find(_: &str) -> Option<extern "C-unwind" fn()> { None } }
