//! Slice views address exactly the elements they name.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

/// More elements than any view names: what lies before and after must not be touched.
const N: usize = 6;
type DV = CloneVTable;

/// The range `a..b` of the view, by every kind of range, is the typed `a..b`.
macro_rules! take {
    ($s:expr, $how:ident, $n:expr, $sub:ident) => {{
        let (mut a, mut b) = (vp::any_u8() as usize, vp::any_u8() as usize);
        let n = $n;
        let t = match $how {
            0 => { vp::assume(a <= b && b <= n); $s.$sub(a..b) }
            1 => { a = 0; vp::assume(b <= n); $s.$sub(..b) }
            2 => { b = n; vp::assume(a <= n); $s.$sub(a..) }
            3 => { a = 0; b = n; $s.$sub(..) }
            4 => { vp::assume(a <= b + 1 && b < n); b += 1; $s.$sub(a..=b - 1) }
            _ => { a = 0; vp::assume(b < n); b += 1; $s.$sub(..=b - 1) }
        };
        (t, a, b)
    }};
}
macro_rules! is_view {
    ($t:expr, $T:ty, $base:expr, $a:expr, $len:expr) => {{
        check!($t.len() == $len, "the view has the number of elements it names");
        check!($t.is_empty() == ($len == 0), "is_empty");
        check!($t.element_type_id() == TypeId::of::<$T>(), "the view has the element type of its source");
        let s = $t.as_slice::<$T>().unwrap();
        check!(s.len() == $len && ($len == 0 || s.as_ptr() == unsafe { $base.add($a) }), "the view addresses the elements it names");
    }};
}

macro_rules! readonly {
    ($m:ident, $S:ident, $V:ty) => { mod $m { use super::*;
        /// Ranges, splits and elements, at symbolic positions.
        pub fn parts<T: Sym>() {
            split!(how in 0, 11 => {
                let xs = arr::<T, N>();
                let n = vp::upto(N - 1);
                let base = xs.as_ptr();
                let s: $S<$V> = $S::from_slice(&xs[..n]);
                is_view!(s, T, base, 0, n);
                match how {
                    0..=5 => {
                        let (t, a, b) = take!(s, how, n, subslice);
                        is_view!(t, T, base, a, b - a);
                        check!(t.element_size() == core::mem::size_of::<T>(), "element size");
                        witness!(n == N - 1 && (how == 3 || b - a == 2 || b - a == 3));
                        let u = t.subslice(..);
                        is_view!(u, T, base, a, b - a);
                        is_view!(t, T, base, a, b - a);
                    }
                    6 => {
                        let h = vp::upto(5);
                        split!(k in 0, 5 => { vp::assume(h == k);
                            let s: $S<$V> = $S::from_slice(&xs[..n]);
                            let (t, a, b) = take!(s, k, n, into_subslice);
                            is_view!(t, T, base, a, b - a);
                            // A view of a view.
                            let m = b - a;
                            let c = vp::upto(N);
                            vp::assume(c <= m);
                            let u = t.into_subslice(c..);
                            is_view!(u, T, base, a + c, m - c);
                        });
                    }
                    7 => {
                        let mid = vp::upto(N);
                        vp::assume(mid <= n);
                        let (l, r) = s.split_at(mid);
                        is_view!(l, T, base, 0, mid);
                        is_view!(r, T, base, mid, n - mid);
                        witness!(n == 3 && mid == 1);
                    }
                    8 => {
                        let i = vp::upto(N);
                        vp::assume(i < n);
                        let x: &T = s.get(i).downcast::<T>().unwrap();
                        check!(x as *const T == unsafe { base.add(i) }, "get");
                        check!(s.get(i).size() == core::mem::size_of::<T>() && s.get(i).value_type_id() == TypeId::of::<T>(), "an element's size and type");
                        check!(s.get(i).value_alignment() == core::mem::align_of::<T>(), "an element's alignment");
                        witness!(i == 2);
                    }
                    9 => {
                        let i = vp::upto(N);
                        vp::assume(i < n);
                        check!(s.get_as::<T>(i).unwrap() as *const T == unsafe { base.add(i) }, "get_as");
                    }
                    10 => {
                        let t = s.reborrow();
                        is_view!(t, T, base, 0, n);
                        let c = s.clone();
                        is_view!(c, T, base, 0, n);
                        check!(s.check::<T>().is_some(), "check");
                    }
                    _ => {
                        let t: $S<$V> = $S::from(&xs[..n]);
                        is_view!(t, T, base, 0, n);
                    }
                }
            });
        }
        /// Iteration, one element or chunk at a time.
        pub fn iterates<T: Sym>() {
            split!(n in 0, 4 => { split!(how in 0, 6 => {
                let xs = arr::<T, N>();
                let base = xs.as_ptr();
                let s: $S<$V> = $S::from_slice(&xs[..n]);
                let mut i = 0;
                match how {
                    0 => for x in s.iter() {
                        check!(i < n && x.downcast::<T>().unwrap() as *const T == unsafe { base.add(i) }, "iter");
                        i += 1;
                    },
                    1 => for x in s.into_iter() {
                        check!(i < n && x.downcast::<T>().unwrap() as *const T == unsafe { base.add(i) }, "into_iter");
                        i += 1;
                    },
                    2 => {
                        let it = s.iter_as::<T>().unwrap();
                        check!(it.len() == n, "length of iter_as");
                        for x in it {
                            check!(i < n && x as *const T == unsafe { base.add(i) }, "iter_as");
                            i += 1;
                        }
                    }
                    k => {
                        let k = k - 2;
                        let mut c = 0;
                        for t in s.chunks_exact(k) {
                            check!(c < n / k, "the number of chunks");
                            is_view!(t, T, base, c * k, k);
                            c += 1;
                        }
                        check!(c == n / k, "the number of chunks");
                        i = n;
                    }
                }
                check!(i == n, "every element is visited");
                witness!(n == 4 && how == 4);
            }) });
        }
    } };
}
readonly!(sc, SliceCopy, ());
readonly!(sd, Slice, DV);

macro_rules! mutable {
    ($m:ident, $S:ident, $RO:ident, $V:ty) => { mod $m { use super::*;
        pub fn parts<T: Sym>() {
            split!(how in 0, 15 => {
                let mut xs = arr::<T, N>();
                let n = vp::upto(N - 1);
                let base = xs.as_ptr();
                let mut s: $S<$V> = $S::from_slice(&mut xs[..n]);
                is_view!(s, T, base, 0, n);
                match how {
                    0..=5 => {
                        let (mut t, a, b) = take!(s, how, n, subslice_mut);
                        is_view!(t, T, base, a, b - a);
                        witness!(n == N - 1 && (how == 3 || b - a == 2 || b - a == 3));
                        let c = vp::upto(N);
                        vp::assume(c <= b - a);
                        let mut u = t.subslice_mut(..c);
                        is_view!(u, T, base, a, c);
                        is_view!(t, T, base, a, b - a);
                    }
                    6..=11 => {
                        let k = how - 6;
                        let (t, a, b) = take!(s, k, n, subslice);
                        is_view!(t, T, base, a, b - a);
                        let (mut t, a, b) = take!(s, k, n, into_subslice);
                        is_view!(t, T, base, a, b - a);
                    }
                    12 => {
                        let mid = vp::upto(N);
                        vp::assume(mid <= n);
                        let (mut l, mut r) = s.split_at(mid);
                        is_view!(l, T, base, 0, mid);
                        is_view!(r, T, base, mid, n - mid);
                    }
                    13 => {
                        let i = vp::upto(N);
                        vp::assume(i < n);
                        check!(s.get(i).downcast::<T>().unwrap() as *const T == unsafe { base.add(i) }, "get");
                        check!(s.get_mut(i).downcast::<T>().unwrap() as *const T == unsafe { base.add(i) }, "get_mut");
                        check!(s.get_as::<T>(i).unwrap() as *const T == unsafe { base.add(i) }, "get_as");
                        let v = s.get_mut(i);
                        check!(v.size() == core::mem::size_of::<T>() && v.value_alignment() == core::mem::align_of::<T>(), "an element's size and alignment");
                        check!(v.value_type_id() == TypeId::of::<T>() && v.is::<T>(), "an element's type");
                    }
                    14 => {
                        check!(s.check::<T>().is_some(), "check");
                        let t = s.reborrow();
                        is_view!(t, T, base, 0, n);
                        let mut t = s.reborrow_mut();
                        is_view!(t, T, base, 0, n);
                        let t = $RO::from(&s);
                        is_view!(t, T, base, 0, n);
                        let t = $RO::from(s);
                        is_view!(t, T, base, 0, n);
                    }
                    _ => {
                        let mut ys = arr::<T, 2>();
                        let base = ys.as_ptr();
                        let mut t: $S<$V> = $S::from(&mut ys[..]);
                        is_view!(t, T, base, 0, 2);
                    }
                }
            });
        }
        pub fn iterates<T: Sym>() {
            split!(n in 0, 4 => { split!(how in 0, 8 => {
                let mut xs = arr::<T, N>();
                let mut m = Model::new(&xs, N);
                let x = T::sym();
                let base = xs.as_ptr();
                let mut s: $S<$V> = $S::from_slice(&mut xs[..n]);
                let mut i = 0;
                match how {
                    0 => for y in s.iter() {
                        let y = y.downcast::<T>().unwrap();
                        check!(i < n && y as *const T == unsafe { base.add(i) }, "iter");
                        *y = x;
                        m.a[i] = x;
                        i += 1;
                    },
                    1 => for y in s.into_iter() {
                        let y = y.downcast::<T>().unwrap();
                        check!(i < n && y as *const T == unsafe { base.add(i) }, "into_iter");
                        *y = x;
                        m.a[i] = x;
                        i += 1;
                    },
                    2 => for y in s.iter_as::<T>().unwrap() {
                        check!(i < n && y as *const T == unsafe { base.add(i) }, "iter_as");
                        *y = x;
                        m.a[i] = x;
                        i += 1;
                    },
                    3..=5 => {
                        let k = how - 2;
                        for t in s.chunks_exact(k) {
                            check!(i < n / k, "the number of chunks");
                            is_view!(t, T, base, i * k, k);
                            i += 1;
                        }
                        check!(i == n / k, "the number of chunks");
                        i = n;
                    }
                    _ => {
                        let k = how - 5;
                        for mut t in s.chunks_exact_mut(k) {
                            check!(i < n / k, "the number of chunks");
                            is_view!(t, T, base, i * k, k);
                            *t.get_as::<T>(k - 1).unwrap() = x;
                            m.a[i * k + k - 1] = x;
                            i += 1;
                        }
                        check!(i == n / k, "the number of chunks");
                        i = n;
                    }
                }
                check!(i == n, "every element is visited");
                check!(m.same(&xs[..]), "only the named elements are written");
                witness!(n == 4 && how == 7);
            }) });
        }
        /// Writes through a view of the elements `1..n+1` of six.
        pub fn writes<T: Sym>(fill: fn(&mut $S<$V>, &[T])) {
            split!(n in 0, 4 => { split!(how in 0, 4 => {
                let mut xs = arr::<T, N>();
                let old = xs;
                let mut m = Model::new(&xs, N);
                let mut all: $S<$V> = $S::from_slice(&mut xs[..]);
                let mut s = all.subslice_mut(1..n + 1);
                match how {
                    0 => {
                        vp::assume(n > 0);
                        split!(i in 0, n - 1 => { split!(j in 0, n - 1 => {
                            let mut xs = old;
                            let mut all: $S<$V> = $S::from_slice(&mut xs[..]);
                            let mut s = all.subslice_mut(1..n + 1);
                            s.swap(i, j);
                            m.a[1 + i] = old[1 + j];
                            m.a[1 + j] = old[1 + i];
                            check!(m.same(&xs[..]), "swap");
                            witness!(i == n - 1);
                        }) });
                    }
                    1 | 2 => {
                        split!(k in 0, n => {
                            let mut xs = old;
                            let mut all: $S<$V> = $S::from_slice(&mut xs[..]);
                            let mut s = all.subslice_mut(1..n + 1);
                            if how == 1 { s.rotate_left(k); } else { s.rotate_right(k); }
                            let mut i = 0;
                            while i < n {
                                m.a[1 + i] = old[1 + if how == 1 { (i + k) % n } else { (i + n - k) % n }];
                                i += 1;
                            }
                            check!(m.same(&xs[..]), "rotation");
                            witness!(k == n);
                        });
                    }
                    3 => {
                        let ys = arr::<T, N>();
                        fill(&mut s, &ys[..n]);
                        let mut i = 0;
                        while i < n { m.a[1 + i] = ys[i]; i += 1; }
                    }
                    _ => {
                        let x = T::sym();
                        for y in s.as_slice::<T>().unwrap().iter_mut() { *y = x; }
                        let mut i = 0;
                        while i < n { m.a[1 + i] = x; i += 1; }
                    }
                }
                check!(m.same(&xs[..]), "only the named elements are written");
                witness!(n == 4 && how == 4);
            }) });
        }
    } };
}
mutable!(mc, SliceCopyMut, SliceCopy, ());
mutable!(md, SliceMut, Slice, DV);

fn fill_c<T: Sym>(s: &mut SliceCopyMut<()>, ys: &[T]) {
    check!(s.copy_from_slice(ys).is_some(), "copy_from_slice takes the right type");
}
fn fill_d<T: Sym>(s: &mut SliceMut<DV>, ys: &[T]) {
    check!(s.clone_from_slice(ys).is_some(), "clone_from_slice takes the right type");
}

/// The views and iterators of a vector.
macro_rules! of_vec {
    ($f:ident, $V:ty) => {
        fn $f<T: Sym>() {
            split!(n in 0, 3 => { split!(how in 0, 5 => {
                let xs = arr::<T, 4>();
                let mut v: $V = <$V>::from_vec(vec_of(&xs, 4, n));
                let base = v.as_slice_as::<T>().unwrap().as_ptr();
                let x = T::sym();
                let mut m = Model::new(&xs, n);
                let mut i = 0;
                match how {
                    0 => { let s = v.as_slice(); is_view!(s, T, base, 0, n); let s = s.into_subslice(..); is_view!(s, T, base, 0, n); }
                    1 => { let mut s = v.as_mut_slice(); is_view!(s, T, base, 0, n); s.rotate_left(n / 2); m.rotate_left(n / 2); }
                    2 => for y in v.iter() {
                        check!(i < n && y.downcast::<T>().unwrap() as *const T == unsafe { base.add(i) }, "iter");
                        i += 1;
                    },
                    3 => for y in v.iter_mut() {
                        let y = y.downcast::<T>().unwrap();
                        check!(i < n && y as *const T == unsafe { base.add(i) }, "iter_mut");
                        *y = x;
                        m.a[i] = x;
                        i += 1;
                    },
                    4 => {
                        vp::assume(n > 0);
                        let k = vp::upto(3);
                        vp::assume(k < n);
                        let y = v.get_mut(k);
                        check!(y.size() == core::mem::size_of::<T>() && y.value_alignment() == core::mem::align_of::<T>(), "an element's size and alignment");
                        check!(y.downcast::<T>().unwrap() as *const T == unsafe { base.add(k) }, "get_mut");
                        check!(unsafe { v.get_unchecked_ref::<T>(k) } as *const T == unsafe { base.add(k) }, "get_unchecked_ref");
                        check!(unsafe { v.get_unchecked_mut::<T>(k) } as *const T == unsafe { base.add(k) }, "get_unchecked_mut");
                        check!(v.get_mut_as::<T>(k).unwrap() as *const T == unsafe { base.add(k) }, "get_mut_as");
                        check!(v.get_ref_as::<T>(k).unwrap() as *const T == unsafe { base.add(k) }, "get_ref_as");
                    }
                    _ => {
                        vp::assume(n >= 2);
                        let mut s = v.as_mut_slice();
                        s.swap(0, n - 1);
                        let t = m.a[0];
                        m.a[0] = m.a[n - 1];
                        m.a[n - 1] = t;
                    }
                }
                check!(i == if how == 2 || how == 3 { n } else { 0 }, "every element is visited");
                check!(m.same(v.as_slice_as::<T>().unwrap()), "only the named elements are written");
                witness!(n == 3 && how == 5);
            }) });
        }
    };
}
of_vec!(vec_c, VecCopy);
of_vec!(vec_d, VecDyn<DV>);

/// Views of elements with drop glue: nothing is dropped or duplicated by looking, swapping, rotating.
fn owned() {
    split!(n in 1, 4 => { split!(how in 0, 6 => {
        let alive = tally::alive();
        let vals = arr::<u32, 4>();
        let mut xs = Vec::with_capacity(n);
        let mut i = 0;
        while i < n { xs.push(D::new(vals[i])); i += 1; }
        let mut m = Model::new(&vals, n);
        {
            let mut s: SliceMut<DV> = SliceMut::from_slice(&mut xs[..]);
            match how {
                0 => { s.swap(0, n - 1); let t = m.a[0]; m.a[0] = m.a[n - 1]; m.a[n - 1] = t; }
                1 => { s.rotate_left(n / 2); m.rotate_left(n / 2); }
                2 => { s.rotate_right(n / 2); m.rotate_right(n / 2); }
                3 => { let x = vp::any_u32(); let ys = [D::new(x)]; let mut t = s.subslice_mut(n - 1..); check!(t.clone_from_slice(&ys).is_some(), "clone_from_slice"); m.a[n - 1] = x; }
                4 => { let v = s.reborrow().clone_into_vec::<D>().unwrap(); check!(v.len() == n && v[n - 1].v == m.a[n - 1], "clone_into_vec"); drop(v); }
                5 => { for x in s.iter() { let d = x.downcast::<D>().unwrap(); d.v = d.v ^ 1; } let mut i = 0; while i < n { m.a[i] ^= 1; i += 1; } }
                _ => { for t in s.chunks_exact_mut(1) { drop(t); } let (a, b) = s.split_at(n / 2); drop(a); drop(b); drop(s); }
            }
        }
        check!(tally::alive() == alive + n, "views drop nothing and copy nothing");
        let mut i = 0;
        while i < n { check!(xs[i].v == m.a[i], "only the named elements are written"); i += 1; }
        witness!(n == 3 && how == 6);
        drop(xs);
        check!(tally::alive() == alive, "every element is dropped once");
    }) });
}

/// Many elements.
fn long<T: Sym>(lo: usize, hi: usize) {
    const N: usize = 17;
    split!(how in lo, hi => {
        let xs = arr::<T, N>();
        let mut ys = xs;
        let (a, b, i) = (vp::upto(N), vp::upto(N), vp::upto(N));
        vp::assume(a <= b);
        let mut v = VecDyn::<DropVTable>::from_vec(vec_of(&xs, N, N));
        match how {
            0 => {
                let s: Slice<DropVTable> = Slice::from_slice(&xs[..]);
                let t = s.subslice(a..b);
                check!(t.len() == b - a, "the length of a part");
                if i < b - a { check!(*t.get_as::<T>(i).unwrap() == xs[a + i], "the elements of a part"); }
            }
            1 => {
                let s = SliceCopy::<()>::from_slice(&xs[..]);
                let t = s.into_subslice(a..b);
                check!(t.len() == b - a, "the length of a part");
                if i < b - a { check!(t.get(i).downcast::<T>().map(|x| *x == xs[a + i]).unwrap(), "the elements of a part"); }
            }
            2 => {
                let s = v.as_slice();
                let (l, r) = s.split_at(a);
                check!(l.len() == a && r.len() == N - a, "the lengths of parts");
                if i < a { check!(*l.get_as::<T>(i).unwrap() == xs[i], "the elements of a part"); }
                else if i < N { check!(*r.get_as::<T>(i - a).unwrap() == xs[i], "the elements of a part"); }
            }
            3 => {
                let s = v.as_slice();
                let mut k = 0;
                for e in s.iter() { check!(k < N && *e.downcast::<T>().unwrap() == xs[k], "iter"); k += 1; }
                check!(k == N, "iter visits every element");
            }
            4 => {
                let s = v.as_slice();
                let mut k = 0;
                for c in s.chunks_exact(5) { check!(k < 3 && c.len() == 5 && c.as_slice::<T>().unwrap() == &xs[k * 5..k * 5 + 5], "chunks_exact"); k += 1; }
                check!(k == 3, "chunks_exact visits every whole chunk");
            }
            5 => {
                vp::assume(a < N && b < N);
                v.as_mut_slice().swap(a, b);
                ys.swap(a, b);
                check!(i == N || *v.get_ref_as::<T>(i).unwrap() == ys[i], "swap");
            }
            6 => {
                let mut s: SliceMut<DropVTable> = SliceMut::from_slice(&mut ys[..]);
                s.rotate_left(6);
                let mut k = 0;
                while k < N { check!(ys[k] == xs[(k + 6) % N], "rotate_left"); k += 1; }
            }
            _ => {
                let mut s = SliceCopyMut::<()>::from_slice(&mut ys[..]);
                s.rotate_right(4);
                let mut k = 0;
                while k < N { check!(ys[(k + 4) % N] == xs[k], "rotate_right"); k += 1; }
            }
        }
        witness!(how == hi);
    });
}

harnesses! {
#[unwind(40)] fn view_long_h3() { long::<H3>(0, 4) }
#[unwind(40)] fn view_long_turn_h3() { long::<H3>(6, 7) }
#[unwind(40)] fn view_sc_parts_b3() { sc::parts::<B3>() }
#[unwind(40)] fn view_sd_parts_pad() { sd::parts::<Pad>() }
#[unwind(40)] fn view_mc_parts_pad() { mc::parts::<Pad>() }
#[unwind(40)] fn view_md_parts_b3() { md::parts::<B3>() }
#[unwind(40)] fn view_sc_iter_pad() { sc::iterates::<Pad>() }
#[unwind(40)] fn view_sd_iter_b3() { sd::iterates::<B3>() }
#[unwind(40)] fn view_mc_iter_b3() { mc::iterates::<B3>() }
#[unwind(40)] fn view_md_iter_pad() { md::iterates::<Pad>() }
#[unwind(40)] fn view_mc_write_b3() { mc::writes::<B3>(fill_c) }
#[unwind(40)] fn view_md_write_pad() { md::writes::<Pad>(fill_d) }
#[unwind(40)] fn view_vec_c_b3() { vec_c::<B3>() }
#[unwind(40)] fn view_vec_d_pad() { vec_d::<Pad>() }
#[unwind(40)] fn view_owned() { owned() }
thorough {
#[unwind(40)] fn view_long_swap_h3() { long::<H3>(5, 5) }
#[unwind(100)] fn view_long_wide() { long::<Wide>(0, 7) }
#[unwind(40)] fn view_long_u8() { long::<u8>(0, 7) }
#[unwind(40)] fn view_sc_parts_wide() { sc::parts::<Wide>() }
}
}
