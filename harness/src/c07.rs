//! Out-of-bounds access panics or yields nothing, whatever the index.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::mem::size_of;

/// A position no element has. With `wrap`, one whose byte offset, computed with wrapping, would be
/// that of an element after all.
fn bad<T>(n: usize, wrap: bool) -> usize {
    let i = vp::any_usize();
    vp::assume(i >= n);
    if wrap {
        let o = i.wrapping_mul(size_of::<T>());
        vp::assume(o <= n * size_of::<T>() - size_of::<T>());
    }
    i
}
/// Past the end; the end itself is not.
fn past<T>(n: usize, wrap: bool) -> usize {
    let i = vp::any_usize();
    vp::assume(i > n);
    if wrap {
        vp::assume(i.wrapping_mul(size_of::<T>()) <= n * size_of::<T>());
    }
    i
}
fn bad_range<T>(n: usize, wrap: bool) -> (usize, usize) {
    let (a, b) = (vp::any_usize(), vp::any_usize());
    vp::assume(!(a <= b && b <= n));
    if wrap {
        let (x, y) = (a.wrapping_mul(size_of::<T>()), b.wrapping_mul(size_of::<T>()));
        vp::assume(x <= y && y <= n * size_of::<T>());
    }
    (a, b)
}
fn bad_closed<T>(n: usize, wrap: bool) -> (usize, usize) {
    let (a, b) = (vp::any_usize(), vp::any_usize());
    vp::assume(!(b < n && a <= b + 1));
    if wrap {
        let (x, y) = (a.wrapping_mul(size_of::<T>()), b.wrapping_add(1).wrapping_mul(size_of::<T>()));
        vp::assume(x <= y && y <= n * size_of::<T>());
    }
    (a, b)
}
fn bad_closed_end<T>(n: usize, wrap: bool) -> usize {
    let b = vp::any_usize();
    vp::assume(b >= n);
    if wrap {
        vp::assume(b.wrapping_add(1).wrapping_mul(size_of::<T>()) <= n * size_of::<T>());
    }
    b
}
macro_rules! bad_sub {
    ($s:expr, $T:ty, $how:expr, $n:expr, $w:expr, $f:ident) => {{
        match $how {
            0 => { let (a, b) = bad_range::<$T>($n, $w); let _ = $s.$f(a..b); }
            1 => { let b = past::<$T>($n, $w); let _ = $s.$f(..b); }
            2 => { let a = past::<$T>($n, $w); let _ = $s.$f(a..); }
            3 => { let (a, b) = bad_closed::<$T>($n, $w); let _ = $s.$f(a..=b); }
            _ => { let b = bad_closed_end::<$T>($n, $w); let _ = $s.$f(..=b); }
        }
        must_not_return!("a range past the end is refused");
    }};
}
fn two_bad<T>(n: usize, wrap: bool) -> (usize, usize) {
    let (i, j) = (vp::any_usize(), vp::any_usize());
    vp::assume(i != j && (i >= n || j >= n));
    if wrap {
        vp::assume(i.wrapping_mul(size_of::<T>()) <= n * size_of::<T>() - size_of::<T>());
        vp::assume(j.wrapping_mul(size_of::<T>()) <= n * size_of::<T>() - size_of::<T>());
    }
    (i, j)
}

fn vec_copy<T: Sym>(w: bool) {
    split!(op in 0, 8 => { split!(n in w as usize, 2 => {
        let xs = arr::<T, 2>();
        let mut v: VecCopy = VecCopy::from_vec(vec_of(&xs, n + op % 2, n));
        match op {
            0 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_as::<T>(i); }
            1 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_ref_as::<T>(i); }
            2 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_mut_as::<T>(i); }
            3 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_ref(i); }
            4 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_mut(i); }
            5 => { let i = past::<T>(n, w); witness!(n == 2); v.rotate_left(i); }
            6 => { let i = past::<T>(n, w); witness!(n == 2); v.rotate_right(i); }
            7 => { let i = bad::<T>(n, w); witness!(n == 2); let (d, _) = v.into_raw_parts(); let _ = d.get_bytes(i); }
            _ => { let i = bad::<T>(n, w); witness!(n == 2); let (mut d, _) = v.into_raw_parts(); let _ = unsafe { d.get_bytes_mut(i) }; }
        }
        must_not_return!("an index past the end is refused");
    }) });
}
fn vec_dyn<T: Sym>(w: bool) {
    split!(op in 0, 5 => { split!(n in w as usize, 2 => {
        let xs = arr::<T, 2>();
        let mut v: VecDrop = VecDyn::from_vec(vec_of(&xs, n + op % 2, n));
        match op {
            0 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_ref_as::<T>(i); }
            1 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_mut_as::<T>(i); }
            2 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get(i); }
            3 => { let i = bad::<T>(n, w); witness!(n == 2); let _ = v.get_mut(i); }
            4 => { let i = past::<T>(n, w); witness!(n == 2); v.rotate_left(i); }
            _ => { let i = past::<T>(n, w); witness!(n == 2); v.rotate_right(i); }
        }
        must_not_return!("an index past the end is refused");
    }) });
}
macro_rules! shared {
    ($f:ident, $S:ident, $V:ty) => {
        fn $f<T: Sym>(w: bool) {
            split!(op in 0, 12 => {
                let xs = arr::<T, 3>();
                // The view ends before its memory does.
                let n = vp::upto(2);
                vp::assume(n > 0 || !w);
                let s: $S<$V> = $S::from_slice(&xs[..n]);
                witness!(n == 2);
                match op {
                    0 => { let i = bad::<T>(n, w); let _ = s.get(i); }
                    1 => { let i = bad::<T>(n, w); let _ = s.get_as::<T>(i); }
                    2 => { let i = past::<T>(n, w); let _ = s.split_at(i); }
                    3..=7 => { bad_sub!(s, T, op - 3, n, w, subslice); }
                    _ => { bad_sub!(s, T, op - 8, n, w, into_subslice); }
                }
                must_not_return!("an index past the end is refused");
            });
        }
    };
}
shared!(slice_copy, SliceCopy, ());
shared!(slice, Slice, DropVTable);
macro_rules! mutable {
    ($f:ident, $S:ident, $V:ty, $copy:ident) => {
        fn $f<T: Sym>(w: bool) {
            split!(op in 0, 22 => {
                let mut xs = arr::<T, 3>();
                let ys = arr::<T, 3>();
                let n = vp::upto(2);
                vp::assume(n > 0 || !w);
                let mut s: $S<$V> = $S::from_slice(&mut xs[..n]);
                witness!(n == 2);
                match op {
                    0 => { let i = bad::<T>(n, w); let _ = s.get(i); }
                    1 => { let i = bad::<T>(n, w); let _ = s.get_mut(i); }
                    2 => { let i = bad::<T>(n, w); let _ = s.get_as::<T>(i); }
                    3 => { let i = past::<T>(n, w); let _ = s.split_at(i); }
                    4 => { let i = past::<T>(n, w); s.rotate_left(i); }
                    5 => { let i = past::<T>(n, w); s.rotate_right(i); }
                    6 => { let (i, j) = two_bad::<T>(n, w); s.swap(i, j); }
                    7 => { let k = vp::upto(3); vp::assume(k != n); let _ = s.$copy(&ys[..k]); }
                    8..=12 => { bad_sub!(s, T, op - 8, n, w, subslice); }
                    13..=17 => { bad_sub!(s, T, op - 13, n, w, subslice_mut); }
                    _ => { bad_sub!(s, T, op - 18, n, w, into_subslice); }
                }
                must_not_return!("an index past the end is refused");
            });
        }
    };
}
mutable!(slice_copy_mut, SliceCopyMut, (), copy_from_slice);
mutable!(slice_mut, SliceMut, CloneVTable, clone_from_slice);

/// Nothing in bounds is refused, whatever the size of the element; the element is the one named.
fn in_bounds<T: Sym>() {
    split!(op in 0, 13 => { split!(n in 1, 3 => {
        let mut xs = arr::<T, 3>();
        let ys = xs;
        let i = vp::any_usize();
        vp::assume(i < n);
        witness!(n == 3 && i == 2);
        match op {
            0..=6 => {
                let mut v: VecCopy = VecCopy::from_vec(vec_of(&xs, n, n));
                match op {
                    0 => check!(v.get_as::<T>(i).unwrap() == ys[i], "get_as"),
                    1 => check!(*v.get_ref_as::<T>(i).unwrap() == ys[i], "get_ref_as"),
                    2 => check!(*v.get_mut_as::<T>(i).unwrap() == ys[i], "get_mut_as"),
                    3 => check!(*v.get_ref(i).downcast::<T>().unwrap() == ys[i], "get_ref"),
                    4 => check!(*v.get_mut(i).downcast::<T>().unwrap() == ys[i], "get_mut"),
                    5 => check!(*v.as_slice().get(i).downcast::<T>().unwrap() == ys[i], "get"),
                    _ => { let p = v.as_slice_as::<T>().unwrap().as_ptr(); let (d, _) = v.into_raw_parts();
                           check!(d.get_bytes(i).as_ptr() as *const T == unsafe { p.add(i) } && d.get_bytes(i).len() == size_of::<T>(), "get_bytes"); }
                }
            }
            7..=10 => {
                let mut v: VecDrop = VecDyn::from_vec(vec_of(&xs, n, n));
                match op {
                    7 => check!(*v.get_ref_as::<T>(i).unwrap() == ys[i], "get_ref_as"),
                    8 => check!(*v.get_mut_as::<T>(i).unwrap() == ys[i], "get_mut_as"),
                    9 => check!(*v.get(i).downcast::<T>().unwrap() == ys[i], "get"),
                    _ => check!(*v.get_mut(i).downcast::<T>().unwrap() == ys[i], "get_mut"),
                }
            }
            11 => { let s: SliceCopy = SliceCopy::from_slice(&xs[..n]); check!(*s.get(i).downcast::<T>().unwrap() == ys[i] && *s.get_as::<T>(i).unwrap() == ys[i], "get"); }
            12 => { let mut s: SliceCopyMut<()> = SliceCopyMut::from_slice(&mut xs[..n]); check!(*s.get_mut(i).downcast::<T>().unwrap() == ys[i] && *s.get_as::<T>(i).unwrap() == ys[i], "get"); }
            _ => { let mut s: SliceMut<DropVTable> = SliceMut::from_slice(&mut xs[..n]); check!(*s.get_mut(i).downcast::<T>().unwrap() == ys[i] && *s.get_as::<T>(i).unwrap() == ys[i], "get"); }
        }
    }) });
}
/// Chunks longer than the slice: none.
fn chunks<T: Sym>() {
    split!(op in 0, 5 => {
        let mut xs = arr::<T, 3>();
        let n = vp::upto(3);
        let k = vp::any_usize();
        vp::assume(k > n);
        witness!(n == 2 && k == usize::MAX);
        let none = match op {
            0 => SliceCopy::<()>::from_slice(&xs[..n]).chunks_exact(k).next().is_none(),
            1 => Slice::<DropVTable>::from_slice(&xs[..n]).chunks_exact(k).next().is_none(),
            2 => SliceCopyMut::<()>::from_slice(&mut xs[..n]).chunks_exact(k).next().is_none(),
            3 => SliceMut::<DropVTable>::from_slice(&mut xs[..n]).chunks_exact(k).next().is_none(),
            4 => SliceCopyMut::<()>::from_slice(&mut xs[..n]).chunks_exact_mut(k).next().is_none(),
            _ => SliceMut::<DropVTable>::from_slice(&mut xs[..n]).chunks_exact_mut(k).next().is_none(),
        };
        check!(none, "no chunk is longer than the slice");
    });
}
/// Typed requests beyond what memory can hold are refused.
fn too_many<T: Sym>() {
    split!(op in 0, 2 => {
        let n = vp::any_usize();
        vp::assume(n > isize::MAX as usize / size_of::<T>());
        witness!(n.wrapping_mul(size_of::<T>()) == 0 || size_of::<T>() % 2 == 1);
        match op {
            0 => { let _: VecCopy = VecCopy::with_capacity::<T>(n); }
            1 => { let _: VecDrop = VecDyn::with_capacity::<T>(n); }
            _ => { let mut v: VecCopy = VecCopy::with_type::<T>(); v.reserve(n); }
        }
        must_not_return!("more elements than memory can hold are refused");
    });
}

harnesses_no_moves! {
#[unwind(20)] fn oob_vc_b3_mp() { vec_copy::<B3>(false) }
#[unwind(20)] fn oob_vc_b3_wrap_mp() { vec_copy::<B3>(true) }
#[unwind(20)] fn oob_vc_u32_wrap_mp() { vec_copy::<u32>(true) }
#[unwind(20)] fn oob_vd_h3_mp() { vec_dyn::<H3>(false) }
#[unwind(20)] fn oob_vd_h3_wrap_mp() { vec_dyn::<H3>(true) }
#[unwind(20)] fn oob_sc_b3_mp() { slice_copy::<B3>(false) }
#[unwind(20)] fn oob_sc_u32_wrap_mp() { slice_copy::<u32>(true) }
#[unwind(20)] fn oob_s_h3_mp() { slice::<H3>(false) }
#[unwind(20)] fn oob_s_b3_wrap_mp() { slice::<B3>(true) }
#[unwind(20)] fn oob_scm_h3_mp() { slice_copy_mut::<H3>(false) }
#[unwind(20)] fn oob_scm_b3_wrap_mp() { slice_copy_mut::<B3>(true) }
#[unwind(20)] fn oob_sm_b3_mp() { slice_mut::<B3>(false) }
#[unwind(20)] fn oob_sm_u32_wrap_mp() { slice_mut::<u32>(true) }
#[unwind(20)] fn inb_b3() { in_bounds::<B3>() }
#[unwind(20)] fn inb_chunks_h3() { chunks::<H3>() }
#[unwind(20)] fn oob_many_h3_mp() { too_many::<H3>() }
thorough {
#[unwind(20)] fn oob_vc_u8_mp() { vec_copy::<u8>(false) }
#[unwind(70)] fn oob_vc_wide_mp() { vec_copy::<Wide>(false) }
#[unwind(70)] fn oob_vc_wide_wrap_mp() { vec_copy::<Wide>(true) }
#[unwind(20)] fn oob_vd_u64_mp() { vec_dyn::<u64>(false) }
#[unwind(20)] fn oob_vd_u64_wrap_mp() { vec_dyn::<u64>(true) }
#[unwind(20)] fn oob_sc_u8_mp() { slice_copy::<u8>(false) }
#[unwind(70)] fn oob_sc_wide_wrap_mp() { slice_copy::<Wide>(true) }
#[unwind(20)] fn oob_s_u64_wrap_mp() { slice::<u64>(true) }
#[unwind(20)] fn oob_s_w3_wrap_mp() { slice::<W3>(true) }
#[unwind(20)] fn oob_scm_w3_wrap_mp() { slice_copy_mut::<W3>(true) }
#[unwind(20)] fn oob_scm_u64_mp() { slice_copy_mut::<u64>(false) }
#[unwind(20)] fn oob_sm_h3_wrap_mp() { slice_mut::<H3>(true) }
#[unwind(70)] fn oob_sm_wide_mp() { slice_mut::<Wide>(false) }
#[unwind(20)] fn inb_u8() { in_bounds::<u8>() }
#[unwind(70)] fn inb_wide() { in_bounds::<Wide>() }
#[unwind(20)] fn inb_u64() { in_bounds::<u64>() }
#[unwind(20)] fn inb_chunks_b3() { chunks::<B3>() }
#[unwind(20)] fn inb_chunks_u64() { chunks::<u64>() }
#[unwind(20)] fn oob_many_b3_mp() { too_many::<B3>() }
#[unwind(20)] fn oob_many_u64_mp() { too_many::<u64>() }
}
}
