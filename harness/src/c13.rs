//! Numeric conversion converts each number or yields zero.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

/// A number with any bits, NaN included.
pub trait Num: Copy + 'static {
    fn any() -> Self;
    /// The same number, down to the sign of zero; all NaN are one.
    fn same(self, o: Self) -> bool;
}
macro_rules! ints { ($($t:ident $a:ident $u:ident)*) => { $(
    impl Num for $t {
        fn any() -> $t { vp::$a() as $t }
        fn same(self, o: $t) -> bool { self == o }
    }
)* } }
ints!(u8 any_u8 u8 i8 any_u8 u8 u16 any_u16 u16 i16 any_u16 u16 u32 any_u32 u32 i32 any_u32 u32 u64 any_u64 u64 i64 any_u64 u64);
impl Num for f32 {
    fn any() -> f32 { f32::from_bits(vp::any_u32()) }
    fn same(self, o: f32) -> bool { self.to_bits() == o.to_bits() || (self != self && o != o) }
}
impl Num for f64 {
    fn any() -> f64 { f64::from_bits(vp::any_u64()) }
    fn same(self, o: f64) -> bool { self.to_bits() == o.to_bits() || (self != self && o != o) }
}

/// What converting a number of type `Self` to an `O` must give: the language's conversion where the
/// (truncated) number is one of `O`, and zero where it is not.
pub trait To<O> { fn to(self) -> O; }
macro_rules! int_int { ($($s:ident)* => $o:tt) => { $( int_int!(@ $s $o); )* };
    (@ $s:ident ($($o:ident)*)) => { $( impl To<$o> for $s {
        fn to(self) -> $o { let r = self as $o; if r as i128 == self as i128 && (r < 0 as $o) == (self < 0 as $s) { r } else { 0 } }
    } )* } }
int_int!(u8 i8 u16 i16 u32 i32 u64 i64 => (u8 i8 u16 i16 u32 i32 u64 i64 i128 u128));
macro_rules! any_float { ($($s:ident)* => $o:ident) => { $( impl To<$o> for $s { fn to(self) -> $o { self as $o } } )* } }
any_float!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 => f32);
any_float!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 => f64);
// Open bounds: every number strictly between truncates to one of the type.
macro_rules! float_int { ($($o:ident $above:literal $below:literal)*) => { $(
    impl To<$o> for f64 { fn to(self) -> $o { if self > $above && self < $below { self as $o } else { 0 } } }
    impl To<$o> for f32 { fn to(self) -> $o { (self as f64).to() } }
)* } }
float_int!(u8 -1.0 256.0 i8 -129.0 128.0 u16 -1.0 65536.0 i16 -32769.0 32768.0 u32 -1.0 4294967296.0 i32 -2147483649.0 2147483648.0
    u64 -1.0 18446744073709551616.0 i64 -9223372036854777856.0 9223372036854775808.0);

macro_rules! each_target { ($v:ident $a:ident $k:ident: $($o:ident)*) => {{
    let mut i = 0;
    $( if i == $k {
        let c = VecCopy::<()>::from_vec(vec_of(&$a, 2, 2));
        let w: Vec<$o> = c.cast_into_vec();
        check!(w.len() == 2, "every element is converted");
        check!(w[0].same($a[0].to()) && w[1].same($a[1].to()), "each number is converted, or zero");
        check!(c.len() == 2 && c.as_slice_as::<T>().unwrap()[0].same($a[0]) && c.as_slice_as::<T>().unwrap()[1].same($a[1]), "the source is unchanged");
        let d = VecDyn::<DropVTable>::from_vec(vec_of(&$a, 2, 2));
        let w: Vec<$o> = d.cast_into_vec().unwrap();
        check!(w.len() == 2, "every element is converted");
        check!(w[0].same($a[0].to()) && w[1].same($a[1].to()), "each number is converted, or zero");
        check!(d.len() == 2 && d.as_slice_as::<T>().unwrap()[0].same($a[0]) && d.as_slice_as::<T>().unwrap()[1].same($a[1]), "the source is unchanged");
        witness!(true);
    } i += 1; )*
}} }
impl Num for u128 { fn any() -> u128 { 0 } fn same(self, o: u128) -> bool { self == o } }
impl Num for i128 { fn any() -> i128 { 0 } fn same(self, o: i128) -> bool { self == o } }
fn from<T>(lo: usize, hi: usize)
where T: Num + CopyElem + To<u8> + To<i8> + To<u16> + To<i16> + To<u32> + To<i32> + To<u64> + To<i64> + To<f32> + To<f64> {
    split!(k in lo, hi => {
        let a = [T::any(), T::any()];
        each_target!(v a k: u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
    });
}
/// Every length, in order.
fn lengths() {
    split!(n in 0, 4 => {
        let a = arr::<u16, 4>();
        let c = VecCopy::<()>::from_vec(vec_of(&a, 4, n));
        let w: Vec<u8> = c.cast_into_vec();
        let d = VecDyn::<DropVTable>::from_vec(vec_of(&a, 4, n));
        let x: Vec<u8> = d.cast_into_vec().unwrap();
        check!(w.len() == n && x.len() == n, "every element is converted");
        let mut i = 0;
        while i < n {
            check!(w[i] == if a[i] < 256 { a[i] as u8 } else { 0 }, "each number is converted, in order");
            check!(x[i] == w[i], "each number is converted, in order");
            i += 1;
        }
        witness!(n == 4 && w[3] == 200);
    });
}
/// Elements that are not numbers.
fn others<T: Sym>() {
    let xs = arr::<T, 2>();
    let c = VecCopy::<()>::from_vec(vec_of(&xs, 2, 2));
    check!(c.cast_into_vec::<u32>().len() == 0, "what is not a number is not converted");
    check!(c.as_slice_as::<T>().unwrap()[1] == xs[1], "the source is unchanged");
    let d = VecDyn::<DropVTable>::from_vec(vec_of(&xs, 2, 2));
    check!(d.cast_into_vec::<u32>().is_none(), "what is not a number is not converted");
    check!(d.as_slice_as::<T>().unwrap()[1] == xs[1], "the source is unchanged");
    witness!(true);
}
fn owned() {
    let live = vp::live();
    let d = VecDyn::<DropVTable>::from_vec(vec![D::new(1), D::new(2)]);
    check!(d.cast_into_vec::<u32>().is_none(), "what is not a number is not converted");
    check!(tally::alive() == 2 && tally::made() == 2, "the source is unchanged");
    drop(d);
    check!(tally::alive() == 0 && vp::live() == live, "nothing leaks");
    witness!(true);
}

/// The dispatch macro calls the function of the element's own type.
unsafe fn which<T: 'static>(_: &VecCopy) -> Option<TypeId> { Some(TypeId::of::<T>()) }
struct Wrap(VecCopy);
impl Wrap {
    fn element_type_id(&self) -> TypeId { self.0.element_type_id() }
    unsafe fn which<T: 'static>(&self, k: u32) -> Option<(TypeId, u32)> { Some((TypeId::of::<T>(), k)) }
}
fn dispatch_one<T: CopyElem>(x: T, known: bool) {
    let v = VecCopy::<()>::from_vec(vec![x]);
    let got = call_numeric_buffer_fn!(which::<_>(&v) or { None });
    check!(got == if known { Some(TypeId::of::<T>()) } else { None }, "the function of the element's type is called");
    let w = Wrap(v);
    let k = vp::any_u32();
    let got = call_numeric_buffer_fn!(w.which::<_>(k) or { None });
    check!(got == if known { Some((TypeId::of::<T>(), k)) } else { None }, "the function of the element's type is called");
}
fn dispatch() {
    split!(k in 0, 12 => {
        match k {
            0 => dispatch_one(1u8, true), 1 => dispatch_one(1i8, true), 2 => dispatch_one(1u16, true), 3 => dispatch_one(1i16, true),
            4 => dispatch_one(1u32, true), 5 => dispatch_one(1i32, true), 6 => dispatch_one(1u64, true), 7 => dispatch_one(1i64, true),
            8 => dispatch_one(1f32, true), 9 => dispatch_one(1f64, true), 10 => dispatch_one(Like32(1), false), 11 => dispatch_one(true, false),
            _ => dispatch_one('a', false),
        }
        witness!(k == 12);
    });
}

harnesses! {
#[unwind(20)] fn num_u8() { from::<u8>(0, 9) }
#[unwind(20)] fn num_i8() { from::<i8>(0, 9) }
#[unwind(20)] fn num_u16() { from::<u16>(0, 9) }
#[unwind(20)] fn num_i16() { from::<i16>(0, 9) }
#[unwind(20)] fn num_u32() { from::<u32>(0, 9) }
#[unwind(20)] fn num_i32() { from::<i32>(0, 9) }
#[unwind(20)] fn num_u64() { from::<u64>(0, 9) }
#[unwind(20)] fn num_i64() { from::<i64>(0, 9) }
#[unwind(20)] fn num_f32() { from::<f32>(0, 9) }
#[unwind(20)] fn num_f64() { from::<f64>(0, 9) }
#[unwind(20)] fn num_len() { lengths() }
#[unwind(20)] fn num_other() { each!(others: Like32 B4 Pad u128) }
#[unwind(20)] fn num_owned() { owned() }
#[unwind(20)] fn num_dispatch() { dispatch() }
}
