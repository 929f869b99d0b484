//! Numeric conversion at many lengths.
use crate::wide_length as length;
use crate::*;
use dync::traits::*;
use std::convert::TryFrom;

pub trait Num: CopyElem + PartialEq { fn any() -> Self; }
macro_rules! nums { ($($t:ident $n:literal)*) => { $( impl Num for $t { fn any() -> $t { let mut b = [0; $n]; let mut i = 0; while i < $n { b[i] = crate::any(); i += 1 } $t::from_le_bytes(b) } } )* } }
nums!(u8 1 i8 1 u16 2 i16 2 u32 4 i32 4 u64 8 i64 8);

/// One direction; `T::try_from` says what the conversion is.
macro_rules! each { ($name:ident: $($i:ident => $o:ident)*) => {
    fn $name<X>(most: u8) {
        {
            let n = length(most, &[17, 64, 129]) as usize;
            let k = choose(0, [$(stringify!($i)),*].len() as u8 - 1);
            let mut j = 0;
            $( if k == j {
                let mut xs: Vec<$i> = Vec::with_capacity(n + 1);
                // in a long one, the first, the last and one between are of any value
                for i in 0..n { xs.push(if i < 2 || i == n / 2 || i == n - 1 { <$i as Num>::any() } else { (i & 0x7f) as $i }) }
                let expect = |w: &[$o]| {
                    check(w.len() == n, "every element is converted");
                    for i in 0..n {
                        let x = xs[i];
                        let r = x as $o;
                        let fits = r as i128 == x as i128;
                        check(if fits { w[i] == r } else { w[i] == 0 }, "each number is converted, in order, or zero");
                    }
                };
                let c = VecCopy::<()>::from_slice(&xs);
                let w: Vec<$o> = c.cast_into_vec();
                expect(&w);
                check(c.as_slice_as::<$i>().map(|s| s == &xs[..]) == Some(true), "the source is unchanged");
                let d = VecDyn::<DropVTable>::from_vec(xs.clone());
                let w: Option<Vec<$o>> = d.cast_into_vec();
                check(w.is_some(), "numbers are converted");
                expect(&w.unwrap());
                check(d.as_slice_as::<$i>().map(|s| s == &xs[..]) == Some(true), "the source is unchanged");
            }
            j += 1; )*
            check(j > k, "");
        }
        check(unsafe { vp_live() } == 0, "all memory is released");
        unsafe { vp_witness(1) }
    }
} }
each!(narrow: u64 => u8 i32 => i8 u16 => i8 i64 => u32);
each!(widen: u8 => i64 i8 => u64 u32 => u64 i16 => i32);
each!(same: u8 => i8 i8 => u8 i32 => u32 u64 => i64 u16 => u16 i64 => i64);

/// What is not a number, at any length.
fn others<T: El>(most: u8) {
    {
        let n = length(most, &[17]) as usize;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n { v.push(T::new(any())) }
        let d = VecDyn::<DropVTable>::from_vec(v);
        check(d.cast_into_vec::<u32>().is_none(), "what is not a number is not converted");
        check(d.len() == n, "the source is unchanged");
        for x in d.iter_as::<T>().unwrap() { x.see(); }
        let xs = vec![[1u8, 2, 3]; n];
        let c = VecCopy::<()>::from_slice(&xs);
        check(c.cast_into_vec::<i64>().len() == 0, "what is not a number is not converted");
        check(c.as_slice_as::<[u8; 3]>() == Some(&xs[..]), "the source is unchanged");
        let cs = vec!['a'; n];
        check(VecCopy::<()>::from_slice(&cs).cast_into_vec::<u32>().len() == 0, "what is not a number is not converted");
    }
    check(living() == 0, "every element is dropped");
    check(unsafe { vp_live() } == 0, "all memory is released");
    unsafe { vp_witness(1) }
}
harnesses! {
    w13_narrow: narrow<()>(5);
    w13_widen: widen<()>(5);
    w13_same: same<()>(5);
    w13_other: others<P>(3);
}
