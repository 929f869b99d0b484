//! Owned and borrowed dynamic values keep their value.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

type B = BoxValue<CloneVTable>;
type S = SmallValue<CloneVTable>;
type R<'a> = ValueRef<'a, CloneVTable>;
type M<'a> = ValueMut<'a, CloneVTable>;

macro_rules! facts {
    ($v:expr, $t:ty) => {
        check!($v.value_type_id() == TypeId::of::<$t>(), "the type of a value");
        check!($v.value_alignment() == core::mem::align_of::<$t>(), "the alignment of a value");
        check!($v.is::<$t>() && !$v.is::<Odd>(), "is");
    };
}
macro_rules! sized {
    ($v:expr, $t:ty) => {
        facts!($v, $t);
        check!($v.size() == core::mem::size_of::<$t>(), "the size of a value");
    };
}
struct Odd;

/// A boxed value: wrapped, looked at, changed, cloned, unwrapped, next to others of its kind.
fn boxed<T: Own>() {
    split!(how in 0, 9 => {
        let (x, y) = (vp::any_u32(), vp::any_u32());
        let live = vp::live();
        let alive = tally::alive();
        let mut v = B::new(T::own(x));
        let other = B::new(T::own(y));
        let mut want = x;
        sized!(v, T);
        match how {
            0 => {}
            1 => {
                let r = v.as_ref();
                sized!(r, T);
                check!(r.downcast::<T>().unwrap().is(x), "a borrowed value is the value");
            }
            2 => {
                let m = v.as_mut();
                sized!(m, T);
                let t = m.downcast::<T>().unwrap();
                check!(t.is(x), "a borrowed value is the value");
                t.set(y);
                want = y;
            }
            3 => {
                let w = v.clone();
                sized!(w, T);
                drop(core::mem::replace(&mut v, w));
            }
            4 => {
                let mut w = v.clone();
                w.as_mut().downcast::<T>().unwrap().set(y);
                check!(w.downcast::<T>().unwrap().is(y), "a changed clone");
            }
            5 => {
                let w = v.as_ref().clone_value();
                sized!(w, T);
                check!(w.downcast::<T>().unwrap().is(x), "a clone of a borrowed value");
            }
            6 => {
                let r = R::from(&v);
                sized!(r, T);
                let r2 = r.reborrow();
                sized!(r2, T);
                let r3 = r2.clone();
                check!(r3.downcast::<T>().unwrap().is(x) && r2.downcast::<T>().unwrap().is(x), "a reborrowed value is the value");
            }
            7 => {
                let mut m = v.as_mut();
                {
                    let r = m.reborrow();
                    sized!(r, T);
                    check!(r.downcast::<T>().unwrap().is(x), "a reborrowed value is the value");
                }
                {
                    let n = m.reborrow_mut();
                    sized!(n, T);
                    n.downcast::<T>().unwrap().set(y);
                }
                let r: R = m.into();
                sized!(r, T);
                check!(r.downcast::<T>().unwrap().is(y), "a changed value");
                want = y;
            }
            8 => {
                let w = v.as_mut().clone_value();
                sized!(w, T);
                drop(core::mem::replace(&mut v, w));
            }
            _ => {
                let w = v.clone();
                check!(v.downcast::<T>().unwrap().is(x), "unwrapping gives the value back");
                v = w;
                witness!(true);
            }
        }
        check!(other.downcast::<T>().unwrap().is(y), "another value is left alone");
        let o = v.downcast::<T>().unwrap();
        check!(o.is(want), "unwrapping gives the value back");
        drop(o);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks");
    });
}
/// The same, inline.
fn small<T: Own>() {
    split!(how in 0, 8 => {
        let (x, y) = (vp::any_u32(), vp::any_u32());
        let live = vp::live();
        let alive = tally::alive();
        let mut v = if how == 0 { S::try_new(T::own(x)).unwrap() } else { S::new(T::own(x)) };
        let other = S::new(T::own(y));
        let mut want = x;
        facts!(v, T);
        match how {
            0 => {}
            1 => {
                let r = v.as_ref();
                sized!(r, T);
                check!(r.downcast::<T>().unwrap().is(x), "a borrowed value is the value");
            }
            2 => {
                let t = v.as_mut().downcast::<T>().unwrap();
                check!(t.is(x), "a borrowed value is the value");
                t.set(y);
                want = y;
            }
            3 => {
                let w = v.clone();
                facts!(w, T);
                drop(core::mem::replace(&mut v, w));
            }
            4 => {
                let mut w = v.clone();
                w.as_mut().downcast::<T>().unwrap().set(y);
                check!(w.downcast::<T>().unwrap().is(y), "a changed clone");
            }
            5 => {
                let w = v.as_ref().clone_value();
                sized!(w, T);
                check!(w.downcast::<T>().unwrap().is(x), "a boxed clone of an inline value");
            }
            6 => {
                let w = v.as_ref().clone_small_value();
                facts!(w, T);
                check!(w.downcast::<T>().unwrap().is(x), "an inline clone of an inline value");
            }
            7 => {
                let b = B::new(T::own(y));
                let w = b.as_ref().clone_small_value();
                check!(b.downcast::<T>().unwrap().is(y), "a cloned value is left alone");
                drop(core::mem::replace(&mut v, w));
                want = y;
            }
            _ => {
                let w = v.as_mut().clone_small_value();
                check!(v.downcast::<T>().unwrap().is(x), "unwrapping gives the value back");
                v = w;
                witness!(true);
            }
        }
        check!(other.downcast::<T>().unwrap().is(y), "another value is left alone");
        let o = v.downcast::<T>().unwrap();
        check!(o.is(want), "unwrapping gives the value back");
        drop(o);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks");
    });
}
/// A type that is not one word is refused, and dropped.
fn unfit<T: Own>() {
    let alive = tally::alive();
    let live = vp::live();
    check!(core::mem::size_of::<T>() != 8, "the harness is about other sizes");
    check!(S::try_new(T::own(vp::any_u32())).is_none(), "what does not fit an inline value is refused");
    check!(tally::alive() == alive && vp::live() == live, "a refused value is dropped");
    witness!(true);
}
fn unfit_new_mp<T: Own>() {
    let _v = S::new(T::own(vp::any_u32()));
    must_not_return!("what does not fit an inline value is refused");
}
fn unfit_clone_mp<T: Own>() {
    let t = T::own(vp::any_u32());
    let w = R::new(&t).clone_small_value();
    core::mem::forget(w);
    must_not_return!("what does not fit an inline value is not cloned into one");
}

/// Two values, wherever they live, are exchanged or replaced whole; their neighbours are not touched.
fn pair<T: Own>(from: usize) {
    split!(op in 0, 6 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y, z) = (vp::any_u32(), vp::any_u32(), vp::any_u32());
        // The three elements of these are T(z), the value, T(z).
        let mut va = VecDyn::<CloneVTable>::with_type::<T>();
        let mut tri = Vec::with_capacity(3);
        let mut bx = B::new(T::own(x));
        let mut one = T::own(x);
        let fill = |v: &mut Vec<T>| { v.push(T::own(z)); v.push(T::own(x)); v.push(T::own(z)); };
        match from {
            1 => { fill(&mut tri); va = VecDyn::from_vec(core::mem::take(&mut tri)); }
            2 => fill(&mut tri),
            _ => {}
        }
        let mut other = T::own(y);
        {
            let mut slice: SliceMut<CloneVTable> = SliceMut::from_slice(&mut tri[..]);
            let mut m: M = match from {
                0 => M::new(&mut one),
                1 => va.get_mut(1),
                2 => slice.get_mut(1),
                _ => bx.as_mut(),
            };
            let mut n = m.reborrow_mut();
            match op {
                0 => n.swap(&mut M::new(&mut other)),
                1 => M::new(&mut other).swap(&mut n),
                2 => n.assign(B::new(T::own(y))),
                3 => check!(n.clone_from_other(R::new(&other)).is_ok(), "clone_from_other takes the same type"),
                4 => { let b = B::new(T::own(y)); check!(n.clone_from_other(&b).is_ok(), "clone_from_other takes the same type"); check!(b.downcast::<T>().unwrap().is(y), "a cloned value is left alone"); }
                5 => check!(n.clone_from_other(M::new(&mut other)).is_ok(), "clone_from_other takes the same type"),
                _ => { n.swap(&mut M::new(&mut other)); n.swap(&mut M::new(&mut other)); }
            }
        }
        let want = if op == 6 { x } else { y };
        check!(other.is(if op <= 1 { x } else { y }), "the other value is exchanged, or left alone");
        match from {
            0 => check!(one.is(want), "the value is replaced whole"),
            1 => check!(va.get_ref_as::<T>(1).unwrap().is(want) && va.get_ref_as::<T>(0).unwrap().is(z) && va.get_ref_as::<T>(2).unwrap().is(z), "one element of a vector is replaced whole"),
            2 => check!(tri[1].is(want) && tri[0].is(z) && tri[2].is(z), "one element of a slice is replaced whole"),
            _ => check!(bx.as_ref().downcast::<T>().unwrap().is(want), "a boxed value is replaced whole"),
        }
        witness!(op == 6);
        drop(va); drop(tri); drop(bx); drop(one); drop(other);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
    });
}
/// Inline values as source of an assignment and place of an exchange.
fn small_pair<T: Own>() {
    split!(op in 0, 3 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y) = (vp::any_u32(), vp::any_u32());
        let mut a = S::new(T::own(x));
        let mut b = S::new(T::own(y));
        let mut t = T::own(y);
        match op {
            0 => a.as_mut().swap(&mut b.as_mut()),
            1 => a.as_mut().swap(&mut M::new(&mut t)),
            2 => { let c = S::new(T::own(y)); a.as_mut().assign(c); }
            _ => check!(a.as_mut().clone_from_other(&b).is_ok(), "clone_from_other takes the same type"),
        }
        check!(t.is(if op == 1 { x } else { y }), "the other value is exchanged, or left alone");
        check!(b.downcast::<T>().unwrap().is(if op == 0 { x } else { y }), "the other value is exchanged, or left alone");
        check!(a.downcast::<T>().unwrap().is(y), "the value is replaced whole");
        drop(t);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 3);
    });
}

/// Borrowed values of Copy types.
fn copies<T: Sym>(from: usize) {
    split!(op in 0, 7 => {
        let (x, y, z) = (T::sym(), T::sym(), T::sym());
        let mut one = x;
        let mut va: VecCopy = VecCopy::from_vec(vec![z, x, z]);
        let mut tri = [z, x, z];
        let mut other = y;
        {
            let mut slice: SliceCopyMut = SliceCopyMut::from(&mut tri[..]);
            let mut m: CopyValueMut = match from {
                0 => CopyValueMut::new(&mut one),
                1 => va.get_mut(1),
                _ => slice.get_mut(1),
            };
            sized!(m, T);
            match op {
                0 => m.swap(&mut CopyValueMut::new(&mut other)),
                1 => CopyValueMut::new(&mut other).swap(&mut m),
                2 => check!(m.copy(CopyValueRef::new(&other)).is_some(), "copy takes the same type"),
                3 => check!(m.copy(CopyValueMut::new(&mut other).into()).unwrap().downcast::<T>().is_some(), "copy takes the same type"),
                4 => *m.downcast::<T>().unwrap() = other,
                5 => { let mut u: CopyValueMut<()> = m.upcast(); sized!(u, T); u.swap(&mut CopyValueMut::new(&mut other)); }
                6 => {
                    let mut u: ValueMut<(DropFn, ())> = m.into();
                    sized!(u, T);
                    u.swap(&mut CopyValueMut::new(&mut other).into());
                }
                _ => {
                    let r: CopyValueRef = m.into();
                    sized!(r, T);
                    let s: CopyValueRef<()> = r.upcast_ref();
                    sized!(s, T);
                    check!(s.downcast::<T>().map(|t| *t == x).unwrap(), "a borrowed value is the value");
                    let s: CopyValueRef<()> = r.upcast();
                    sized!(s, T);
                    let s: ValueRef<(DropFn, ())> = s.into();
                    sized!(s, T);
                    check!(s.downcast::<T>().map(|t| *t == x).unwrap(), "a borrowed value is the value");
                    other = y;
                }
            }
        }
        let want = if op == 7 { x } else { y };
        check!(other == if op <= 1 || op == 5 || op == 6 { x } else { y }, "the other value is exchanged, or left alone");
        match from {
            0 => check!(one == want, "the value is replaced whole"),
            1 => {
                let s = va.as_slice_as::<T>().unwrap();
                check!(s[1] == want && s[0] == z && s[2] == z, "one element of a vector is replaced whole");
            }
            _ => check!(tri[1] == want && tri[0] == z && tri[2] == z, "one element of a slice is replaced whole"),
        }
        witness!(op == 7);
    });
}

harnesses! {
#[unwind(48)] fn val_box_d() { boxed::<D>() }
#[unwind(48)] fn val_box_h() { boxed::<H>() }
#[unwind(48)] fn val_box_b3() { boxed::<B3>() }
#[unwind(48)] fn val_small_d() { small::<D>() }
#[unwind(48)] fn val_small_p() { small::<Box<u32>>() }
#[unwind(48)] fn val_small_no() { each!(unfit: H B3 W3 A4) }
#[unwind(48)] fn val_small_h_mp() { unfit_new_mp::<H>() }
#[unwind(48)] fn val_small_b3_mp() { unfit_new_mp::<B3>() }
#[unwind(48)] fn val_clone_w3_mp() { unfit_clone_mp::<W3>() }
#[unwind(48)] fn val_clone_b3_mp() { unfit_clone_mp::<B3>() }
#[unwind(48)] fn val_pair_one_h() { pair::<H>(0) }
#[unwind(48)] fn val_pair_vec_b3() { pair::<B3>(1) }
#[unwind(48)] fn val_pair_slice_d() { pair::<D>(2) }
#[unwind(48)] fn val_pair_box_h() { pair::<H>(3) }
#[unwind(48)] fn val_smallpair_d() { small_pair::<D>() }
#[unwind(48)] fn val_copy_one_h3() { copies::<H3>(0) }
#[unwind(48)] fn val_copy_vec_b3() { copies::<B3>(1) }
#[unwind(48)] fn val_copy_slice_pad() { copies::<Pad>(2) }
#[unwind(80)] fn val_box_a64() { boxed::<A64>() }
#[unwind(48)] fn val_pair_vec_w3() { pair::<W3>(1) }
#[unwind(48)] fn val_copy_vec_u128() { copies::<u128>(1) }
#[unwind(48)] fn val_smallpair_p() { small_pair::<Box<u32>>() }
#[unwind(48)] fn val_pair_one_tuple() { pair::<(u8, Box<u32>, u8)>(0) }
#[unwind(170)] fn val_pair_slice_huge() { pair::<Huge>(2) }
thorough {
#[unwind(170)] fn val_box_huge() { boxed::<Huge>() }
#[unwind(170)] fn val_pair_vec_huge() { pair::<Huge>(1) }
#[unwind(48)] fn val_box_w3() { boxed::<W3>() }
#[unwind(80)] fn val_box_wide() { boxed::<Wide>() }
#[unwind(48)] fn val_box_box() { boxed::<Box<u32>>() }
#[unwind(48)] fn val_box_tuple() { boxed::<(u8, Box<u32>, u8)>() }
#[unwind(48)] fn val_small_u64() { small::<u64>() }
#[unwind(48)] fn val_small_no2() { each!(unfit: Wide A64 A2) }
#[unwind(48)] fn val_small_a4_mp() { unfit_new_mp::<A4>() }
#[unwind(48)] fn val_clone_h_mp() { unfit_clone_mp::<H>() }
#[unwind(48)] fn val_pair_one_d() { pair::<D>(0) }
#[unwind(48)] fn val_pair_vec_h() { pair::<H>(1) }
#[unwind(48)] fn val_pair_slice_b3() { pair::<B3>(2) }
#[unwind(48)] fn val_pair_slice_h() { pair::<H>(2) }
#[unwind(48)] fn val_pair_box_d() { pair::<D>(3) }
#[unwind(80)] fn val_pair_box_wide() { pair::<Wide>(3) }
#[unwind(48)] fn val_smallpair_u64() { small_pair::<u64>() }
#[unwind(48)] fn val_copy_one_w3() { copies::<W3>(0) }
#[unwind(80)] fn val_copy_one_wide() { copies::<Wide>(0) }
#[unwind(48)] fn val_copy_vec_u8() { copies::<u8>(1) }
#[unwind(48)] fn val_copy_vec_h3() { copies::<H3>(1) }
#[unwind(48)] fn val_copy_slice_b3() { copies::<B3>(2) }
#[unwind(48)] fn val_copy_slice_w3() { copies::<W3>(2) }
}
}
