//! Element types of every shape the crate distinguishes: size equal to, a multiple of, and unrelated
//! to the alignment; over-aligned; padded; with and without drop glue.
#![allow(dead_code)]
use crate::check;
use crate::vp;

/// A value with symbolic content.
pub trait Sym: Copy + PartialEq + 'static {
    fn sym() -> Self;
}
impl Sym for u8 { fn sym() -> Self { vp::any_u8() } }
impl Sym for i8 { fn sym() -> Self { vp::any_u8() as i8 } }
impl Sym for u16 { fn sym() -> Self { vp::any_u16() } }
impl Sym for i16 { fn sym() -> Self { vp::any_u16() as i16 } }
impl Sym for u32 { fn sym() -> Self { vp::any_u32() } }
impl Sym for i32 { fn sym() -> Self { vp::any_u32() as i32 } }
impl Sym for u64 { fn sym() -> Self { vp::any_u64() } }
impl Sym for i64 { fn sym() -> Self { vp::any_u64() as i64 } }
impl Sym for u128 { fn sym() -> Self { (vp::any_u64() as u128) << 64 | vp::any_u64() as u128 } }
impl Sym for f32 { fn sym() -> Self { let x = f32::from_bits(vp::any_u32()); vp::assume(!x.is_nan()); x } }
impl Sym for f64 { fn sym() -> Self { let x = f64::from_bits(vp::any_u64()); vp::assume(!x.is_nan()); x } }
pub type B3 = [u8; 3];
pub type B4 = [u8; 4];
pub type H3 = [u16; 3];
pub type W3 = [u32; 3];
impl Sym for B3 { fn sym() -> Self { [vp::any_u8(), vp::any_u8(), vp::any_u8()] } }
impl Sym for B4 { fn sym() -> Self { [vp::any_u8(), vp::any_u8(), vp::any_u8(), vp::any_u8()] } }
impl Sym for H3 { fn sym() -> Self { [vp::any_u16(), vp::any_u16(), vp::any_u16()] } }
impl Sym for W3 { fn sym() -> Self { [vp::any_u32(), vp::any_u32(), vp::any_u32()] } }
/// Padding inside, size three times the alignment.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Pad { pub a: u8, pub b: u32, pub c: u16 }
impl Sym for Pad { fn sym() -> Self { Pad { a: vp::any_u8(), b: vp::any_u32(), c: vp::any_u16() } } }
/// Same size and alignment as `u32`, another type.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Like32(pub u32);
impl Sym for Like32 { fn sym() -> Self { Like32(vp::any_u32()) } }
macro_rules! aligned {
    ($($t:ident $n:literal)*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
        #[repr(align($n))]
        pub struct $t(pub u8);
        impl Sym for $t { fn sym() -> Self { $t(vp::any_u8()) } }
    )* };
}
aligned!(A2 2 A4 4 A8 8 A16 16 A32 32 A64 64 A128 128 A256 256 A512 512 A1K 1024 A2K 2048 A4K 4096 A8K 8192
    A16K 16384 A32K 32768 A64K 65536);
/// Over-aligned and larger than its alignment.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(C, align(32))]
pub struct Wide { pub a: u64, pub x: [u32; 8], pub b: u8 }
impl Sym for Wide {
    fn sym() -> Self {
        let mut x = [0; 8];
        x[0] = vp::any_u32();
        x[7] = vp::any_u32();
        Wide { a: vp::any_u64(), x, b: vp::any_u8() }
    }
}

/// Many alignment units large.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Huge { pub a: u16, pub x: [u16; 149], pub b: u16 }
impl Sym for Huge {
    fn sym() -> Self {
        let mut x = [0; 149];
        x[31] = vp::any_u16();
        x[127] = vp::any_u16();
        Huge { a: vp::any_u16(), x, b: vp::any_u16() }
    }
}
impl Own for Huge {
    fn own(n: u32) -> Huge {
        let mut x = [3; 149];
        x[31] = n as u16;
        x[127] = (n >> 16) as u16;
        Huge { a: n as u16, x, b: !n as u16 }
    }
    fn is(&self, n: u32) -> bool {
        self.a == n as u16 && self.b == !n as u16 && self.x[31] == n as u16 && self.x[127] == (n >> 16) as u16 && self.x[0] == 3 && self.x[148] == 3 && self.x[64] == 3
    }
}

pub fn arr<T: Sym, const N: usize>() -> [T; N] {
    let mut a = [T::sym(); N];
    let mut i = 1;
    while i < N {
        a[i] = T::sym();
        i += 1;
    }
    a
}
/// A `Vec` of this capacity (at least) and length.
pub fn vec_of<T: Clone>(xs: &[T], cap: usize, len: usize) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(cap);
    let mut i = 0;
    while i < len {
        v.push(xs[i].clone());
        i += 1;
    }
    v
}

/// A sequence of symbolic values with a fixed bound: the oracle.
#[derive(Copy, Clone)]
pub struct Model<T: Copy> {
    pub a: [T; MODEL],
    pub len: usize,
}
pub const MODEL: usize = 16;
impl<T: Copy> Model<T> {
    pub fn new(xs: &[T], len: usize) -> Self {
        let mut a = [xs[0]; MODEL];
        let mut i = 0;
        while i < len {
            a[i] = xs[i];
            i += 1;
        }
        Model { a, len }
    }
    pub fn push(&mut self, x: T) {
        self.a[self.len] = x;
        self.len += 1;
    }
    pub fn append(&mut self, o: &mut Model<T>) {
        let mut i = 0;
        while i < o.len {
            self.push(o.a[i]);
            i += 1;
        }
        o.len = 0;
    }
    pub fn resize(&mut self, n: usize, x: T) {
        while self.len < n {
            self.push(x);
        }
        self.len = n;
    }
    pub fn fill(&mut self, x: T) {
        let mut i = 0;
        while i < self.len {
            self.a[i] = x;
            i += 1;
        }
    }
    pub fn rotate_left(&mut self, k: usize) {
        let old = *self;
        let mut i = 0;
        while i < self.len {
            self.a[i] = old.a[if i + k < self.len { i + k } else { i + k - self.len }];
            i += 1;
        }
    }
    pub fn rotate_right(&mut self, k: usize) {
        let l = self.len;
        self.rotate_left(l - k)
    }
    /// The elements of `s` are the model's.
    pub fn same(&self, s: &[T]) -> bool
    where
        T: PartialEq,
    {
        if s.len() != self.len {
            return false;
        }
        let mut ok = true;
        let mut i = 0;
        while i < self.len {
            ok = ok & (s[i] == self.a[i]);
            i += 1;
        }
        ok
    }
}

/// Counts what happens to `D` values. Every value, original or clone, has its own number.
pub mod tally {
    use super::*;
    pub const MAX: usize = 40;
    // Kani merges a static with constants whose bytes are those it starts with, so a counter that
    // starts at zero would change the zeros of the program. These start like nothing else.
    const BASE: usize = 0x5a17_c0de_77e1_9b33;
    const BASE2: usize = 0x36d1_0b5e_c24f_8a95;
    const NO: u8 = 0xb7;
    const YES: u8 = 0x4e;
    static mut NEXT: usize = BASE;
    static mut LIVE: usize = BASE2;
    static mut DROPS: [u8; MAX] = [NO; MAX];

    pub fn make() -> u32 {
        unsafe {
            let id = NEXT - BASE;
            NEXT = NEXT + 1;
            LIVE = LIVE + 1;
            id as u32
        }
    }
    pub fn made() -> usize {
        unsafe { NEXT - BASE }
    }
    pub fn alive() -> usize {
        unsafe { LIVE - BASE2 }
    }
    pub fn drops(id: u32) -> u8 {
        unsafe { (DROPS[id as usize] != NO) as u8 }
    }
    pub fn dropped(id: u32) {
        unsafe {
            check!((id as usize) < made() && (id as usize) < MAX, "only values that were created are dropped");
            check!(DROPS[id as usize] == NO, "no value is dropped twice");
            DROPS[id as usize] = YES;
            LIVE = LIVE - 1;
        }
    }
}

/// Drop-counting, two alignment units large.
#[derive(Debug)]
#[repr(C)]
pub struct D {
    pub v: u32,
    pub id: u32,
}
impl D {
    pub fn new(v: u32) -> D {
        D { v, id: tally::make() }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        tally::dropped(self.id);
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        check!(tally::drops(self.id) == 0, "a dropped value is not cloned");
        D::new(self.v)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        check!(tally::drops(self.id) == 0 && tally::drops(o.id) == 0, "a dropped value is not compared");
        self.v == o.v
    }
}
impl Eq for D {}
impl std::hash::Hash for D {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u32(self.v)
    }
}
/// Drop-counting, of another type with the same layout.
#[repr(C)]
pub struct E2 {
    pub v: u32,
    pub id: u32,
}
impl Drop for E2 {
    fn drop(&mut self) {
        tally::dropped(self.id);
    }
}
impl Clone for E2 {
    fn clone(&self) -> E2 {
        E2 { v: self.v, id: tally::make() }
    }
}
/// Owns heap memory next to inline data: three words.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct H {
    pub a: u64,
    pub b: Box<u32>,
    pub c: u8,
}
impl H {
    pub fn new(x: u32) -> H {
        H { a: x as u64 + 1, b: Box::new(x), c: x as u8 }
    }
    pub fn ok(&self, x: u32) -> bool {
        self.a == x as u64 + 1 && *self.b == x && self.c == x as u8
    }
}

/// A hasher that keeps what it is fed apart: order, width and value all matter.
#[derive(Default)]
pub struct Acc(pub u64);
impl std::hash::Hasher for Acc {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = self.0.rotate_left(7) ^ b[i] as u64 ^ 0x9e37;
            i += 1;
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.0 = self.0.rotate_left(7) ^ x as u64 ^ 0x11;
    }
    fn write_u16(&mut self, x: u16) {
        self.0 = self.0.rotate_left(7) ^ x as u64 ^ 0x2200;
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = self.0.rotate_left(7) ^ x as u64 ^ 0x33_0000;
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(7) ^ x ^ 0x4400_0000;
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = self.0.rotate_left(7) ^ x as u64 ^ 0x55_0000_0000;
    }
}

/// Plain data with a `Clone` of its own: it counts the generations.
#[derive(Debug)]
#[repr(C)]
pub struct Gen {
    pub v: u16,
    pub gen: u8,
}
impl Gen {
    pub fn new(v: u16) -> Gen {
        Gen { v, gen: 0 }
    }
    /// Made from a value `v` by cloning, at least once.
    pub fn cloned(&self, v: u16) -> bool {
        self.v == v && self.gen > 0
    }
    pub fn plain(&self, v: u16) -> bool {
        self.v == v && self.gen == 0
    }
}
impl Clone for Gen {
    fn clone(&self) -> Gen {
        Gen { v: self.v, gen: self.gen + 1 }
    }
}
/// The same with the size of an inline value.
#[derive(Debug)]
#[repr(C)]
pub struct Gen8 {
    pub v: u32,
    pub gen: u32,
}
impl Clone for Gen8 {
    fn clone(&self) -> Gen8 {
        Gen8 { v: self.v, gen: self.gen + 1 }
    }
}

/// A type with drop glue made from, and read back as, a number.
pub trait Own: Clone + 'static {
    fn own(x: u32) -> Self;
    fn is(&self, x: u32) -> bool;
    fn set(&mut self, x: u32) {
        *self = Self::own(x);
    }
}
impl Own for D {
    fn own(x: u32) -> D { D::new(x) }
    fn is(&self, x: u32) -> bool { tally::drops(self.id) == 0 && self.v == x }
}
impl Own for Box<u32> {
    fn own(x: u32) -> Self { Box::new(x) }
    fn is(&self, x: u32) -> bool { **self == x }
}
impl Own for H {
    fn own(x: u32) -> H { H::new(x) }
    fn is(&self, x: u32) -> bool { self.ok(x) }
}
impl Own for (u8, Box<u32>, u8) {
    fn own(x: u32) -> Self { (x as u8, Box::new(x), !x as u8) }
    fn is(&self, x: u32) -> bool { self.0 == x as u8 && *self.1 == x && self.2 == !x as u8 }
}
impl Own for B3 {
    fn own(x: u32) -> B3 { [x as u8, (x >> 8) as u8, (x >> 16) as u8] }
    fn is(&self, x: u32) -> bool { *self == Self::own(x) }
}
impl Own for W3 {
    fn own(x: u32) -> W3 { [x, !x, x.rotate_left(9)] }
    fn is(&self, x: u32) -> bool { *self == Self::own(x) }
}
impl Own for u64 {
    fn own(x: u32) -> u64 { (x as u64) << 32 | !x as u64 }
    fn is(&self, x: u32) -> bool { *self == Self::own(x) }
}
impl Own for Wide {
    fn own(x: u32) -> Wide { Wide { a: x as u64, x: [x, 1, 2, 3, 4, 5, 6, !x], b: x as u8 } }
    fn is(&self, x: u32) -> bool { *self == Self::own(x) }
}
macro_rules! own_aligned { ($($t:ident)*) => { $(
    impl Own for $t {
        fn own(x: u32) -> $t { $t(x as u8) }
        fn is(&self, x: u32) -> bool { self.0 == x as u8 }
    }
)* } }
own_aligned!(A2 A4 A64);
impl Own for E2 {
    fn own(x: u32) -> E2 { E2 { v: x, id: tally::make() } }
    fn is(&self, x: u32) -> bool { tally::drops(self.id) == 0 && self.v == x }
}
impl Own for Gen8 {
    fn own(x: u32) -> Gen8 { Gen8 { v: x, gen: 0 } }
    fn is(&self, x: u32) -> bool { self.v == x }
}
