//! Longer vectors, and more element types, than elsewhere: one operation on a container of any of these lengths.
use crate::hist::{agrees, copy_step, same, vec_step, Cp, Other, COPY_OPS, VEC_OPS, W32};
use crate::vecs::V;
use crate::wide_length as length;
use crate::*;
use dync::traits::{CloneVTable, DropVTable, HashVTable, PartialEqVTable};
use std::any::TypeId;

type C = VecCopy<()>;

fn vec_of<T: Cp>(n: u8, spare: u8) -> Vec<T> {
    let mut v = Vec::with_capacity((n + spare) as usize);
    let mut i = 0;
    while i < n { v.push(T::of(any())); i += 1 }
    v
}
/// elements, and what they show
fn els<T: El>(n: u8, spare: u8) -> (Vec<T>, Vec<u8>) {
    let mut v = Vec::with_capacity((n + spare) as usize);
    let mut m = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n { let x = any(); v.push(T::new(x)); m.push(x); i += 1 }
    (v, m)
}
/// A position: any in a short container, some in a long one.
fn at(n: u8) -> u8 {
    if n < 14 { return choose(0, n) }
    match choose(0, 5) { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 8, 4 => n - 1, _ => n }
}
fn all_gone() {
    check(living() == 0, "every element is dropped");
    check(unsafe { vp_live() } == 0, "all memory is released");
    unsafe { vp_witness(1) }
}
fn model<T: El>(v: &[T], m: &[u8]) {
    check(v.len() == m.len(), "length");
    let mut i = 0;
    for x in v { check(x.see() == m[i], "an element differs from the Vec's"); i += 1 }
}

/// One operation on a vector of up to `most` elements, and one of two.
fn copies<T: Cp>(most: u8) {
    {
        let n = length(most, &[17, 33, 129]);
        let xs = vec_of::<T>(n, 3 * choose(0, 1));
        let (mut m, mut v) = (xs.clone(), C::from_vec(xs));
        let ys = vec_of::<T>(2, 0);
        let (mut w, mut k) = (C::from_slice(&ys), ys);
        let (op, i) = (choose(0, COPY_OPS + 7), n as usize);
        let x = T::of(any());
        if op <= COPY_OPS { copy_step::<T>(op, &mut v, &mut m, &mut w, &mut k) } else { match op - COPY_OPS {
            1 => { let d = at(n) as usize; v.rotate_left(d); m.rotate_left(d) }
            2 => { let d = at(n) as usize; v.rotate_right(d); m.rotate_right(d) }
            3 => { let d = at(n + 4) as usize; check(v.resize(d, x).is_some(), "resize"); m.resize(d, x) }
            4 => if n > 0 { let d = at(n - 1) as usize; v.as_mut_slice().swap(d, i - 1); m.swap(d, i - 1) },
            5 => if n > 0 { let d = at(n - 1) as usize; *v.get_mut_as::<T>(d).unwrap() = x; m[d] = x },
            6 => { check(w.append(&mut v).is_some(), "append"); k.append(&mut m) }
            _ => {
                v.reserve(choose(0, 9) as usize);
                let (c, p) = (v.capacity(), v.as_slice_as::<T>().unwrap().as_ptr());
                check(c >= v.len(), "capacity");
                while v.len() < c { v.push_as(x); m.push(x) }
                check(p == v.as_slice_as::<T>().unwrap().as_ptr(), "filling up to the capacity does not move the elements");
            }
        } }
        same::<T>(&v, &m);
        same::<T>(&w, &k);
        let mut j = 0;
        for e in v.iter() { check(e.downcast::<T>() == Some(&m[j]), "an element by iteration"); j += 1 }
        check(j == m.len(), "iteration yields every element");
        check(v.copy_into_vec::<T>().as_deref() == Some(&m[..]), "copied out");
        check(w.into_vec::<T>().as_deref() == Some(&k[..]), "converted back");
    }
    all_gone();
}

/// The same with owned elements.
fn vectors<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most, &[17, 33, 60]);
        let (xs, mut m) = els::<T>(n, 3 * choose(0, 1));
        let mut v = V::from_vec(xs);
        let (ys, mut k) = els::<T>(2, 0);
        let mut w = V::from_vec(ys);
        let (op, i, x) = (choose(0, VEC_OPS + 9), n as usize, any());
        if op <= VEC_OPS { vec_step::<T>(op, &mut v, &mut m, &mut w, &mut k) } else { match op - VEC_OPS {
            1 => { let d = at(n) as usize; v.rotate_left(d); m.rotate_left(d) }
            2 => { let d = at(n) as usize; v.rotate_right(d); m.rotate_right(d) }
            3 => { let d = at(n + 4) as usize; check(v.resize(d, T::new(x)).is_some(), "resize"); m.resize(d, x) }
            4 => if n > 0 { let d = at(n - 1) as usize; v.as_mut_slice().swap(d, i - 1); m.swap(d, i - 1) },
            5 => if n > 0 { let d = at(n - 1) as usize; v.get_mut(d).assign(BoxValue::new(T::new(x))); m[d] = x },
            6 => { check(w.append(&mut v).is_some(), "append"); k.append(&mut m) }
            7 => { let mut t = els::<T>(1, 0).0; check(v.append_cloned_to_vec(&mut t).is_some(), "append_cloned_to_vec"); model(&t[1..], &m) }
            8 => { for mut e in v.iter_mut() { e.assign(BoxValue::new(T::new(x))) } for e in m.iter_mut() { *e = x } }
            _ => {
                let (t, p) = els::<T>(n, 0);
                check(v.as_mut_slice().clone_from_slice(&t).is_some(), "clone_from_slice");
                model(&t, &p);
                m = p
            }
        } }
        agrees::<T>(&v, &m);
        agrees::<T>(&w, &k);
        let mut j = 0;
        for e in v.iter() { check(e.downcast::<T>().unwrap().see() == m[j], "an element by iteration"); j += 1 }
        check(j == m.len(), "iteration yields every element");
        let end = (i + op as usize) % 3;
        if end == 0 { model(&v.into_vec::<T>().unwrap(), &m) }
        else if end == 1 { v.clear(); check(v.len() == 0, "clear") }
    }
    all_gone();
}

/// Refusals, with containers of up to `most` elements.
fn refused<T: Elt, U: Elt>(most: u8) where AllVTable: VTable<T> + VTable<U> {
    {
        let n = length(most, &[33]);
        let (mut xs, m) = els::<T>(n, 2 * choose(0, 1));
        let (mut ys, k) = els::<U>(choose(0, 2), 0);
        let i = n as usize;
        let op = choose(0, 26);
        if op < 16 {
            let mut v = V::from_vec(xs);
            let no = match op {
                0 => v.push_as(U::new(1)).is_none(),
                1 => v.push(BoxValue::<AllVTable>::new(U::new(1))).is_none(),
                2 => { let u = U::new(2); let no = v.push_cloned(ValueRef::new(&u)).is_none(); check(u.see() == 2, "what was offered is unchanged"); no }
                3 => v.resize(at(n + 2) as usize, U::new(3)).is_none(),
                4 => v.fill(U::new(3)).is_none(),
                5 => { let mut w = V::from_vec(ys); let no = v.append(&mut w).is_none(); agrees::<U>(&w, &k); no }
                6 => v.iter_as::<U>().is_none() && v.iter_mut_as::<U>().is_none(),
                7 => v.as_slice_as::<U>().is_none() && v.as_mut_slice_as::<U>().is_none(),
                8 => { let no = v.append_cloned_to_vec(&mut ys).is_none(); model(&ys, &k); no }
                9 => v.clone_into_vec::<U>().is_none(),
                10 => v.check_ref::<U>().is_none() && v.check_mut::<U>().is_none(),
                11 => n == 0 || v.get_ref_as::<U>(i - 1).is_none() && v.get_mut_as::<U>(0).is_none() && v.get(0).downcast::<U>().is_none(),
                12 => { let no = v.into_vec::<U>().is_none(); v = V::with_type::<T>(); if no { drop(v); model(&ys, &k); drop(ys); drop((m, k)); return all_gone() } no }
                13 => { let no = v.check::<U>().is_none(); if no { drop(ys); drop((m, k)); return all_gone() } return check(no, "an operation with another type is refused") }
                14 => { let no: Option<Vec<U>> = v.into(); if no.is_none() { drop(ys); drop((m, k)); return all_gone() } return check(false, "an operation with another type is refused") }
                _ => n == 0 || { let mut u = U::new(4); let r = v.get_mut(i - 1).clone_from_other(ValueRef::new(&u)).is_err(); v.get_mut(0).swap(&mut ValueMut::new(&mut u)); v.get_mut(0).assign(BoxValue::new(U::new(5))); check(u.see() == 4, "what was offered is unchanged"); r }
            };
            check(no, "an operation with another type is refused");
            agrees::<T>(&v, &m);
        } else {
            let mut out: Vec<U> = Vec::new();
            {
                let no = if op < 21 {
                    let s = Slice::<AllVTable>::from_slice(&xs);
                    match op {
                        16 => s.iter_as::<U>().is_none() && s.check::<U>().is_none(),
                        17 => s.as_slice::<U>().is_none(),
                        18 => s.append_clone_to_vec(&mut out).is_none(),
                        19 => s.clone_into_vec::<U>().is_none(),
                        _ => n == 0 || s.get_as::<U>(i - 1).is_none() && s.get(0).downcast::<U>().is_none(),
                    }
                } else {
                    let mut s = SliceMut::<AllVTable>::from_slice(&mut xs);
                    match op {
                        21 => s.iter_as::<U>().is_none() && s.check::<U>().is_none(),
                        22 => s.as_slice::<U>().is_none(),
                        23 => s.append_clone_to_vec(&mut out).is_none(),
                        24 => s.clone_into_vec::<U>().is_none(),
                        25 => { let t = els::<U>(n, 0).0; s.clone_from_slice(&t).is_none() }
                        _ => n == 0 || s.get_as::<U>(i - 1).is_none() && s.get_mut(0).downcast::<U>().is_none(),
                    }
                };
                check(no, "an operation with another type is refused");
            }
            check(out.len() == 0, "nothing is appended");
            model(&xs, &m);
        }
    }
    all_gone();
}

/// Cloning containers of up to `most` elements, and changing one side.
fn clones<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most, &[17, 60]);
        let (xs, m) = els::<T>(n, choose(0, 1));
        let v = V::from_vec(xs);
        let k = choose(0, 2);
        let mut c = match choose(0, 4) {
            0 => v.clone(),
            1 => V::from_vec(v.clone_into_vec::<T>().unwrap()),
            2 => V::from_vec(v.as_slice().clone_into_vec::<T>().unwrap()),
            3 => { let mut c = V::from_vec(els::<T>(k, 0).0); c.clone_from(&v); c }
            _ => { let mut c = V::with_type_from(&v); for e in v.iter() { check(c.push_cloned(e).is_some(), "push_cloned") } c }
        };
        agrees::<T>(&c, &m);
        match choose(0, 4) {
            0 => drop(c),
            1 => { c.clear(); }
            2 => { c.fill(T::new(3)); }
            3 => { c.push_as(T::new(1)); c.rotate_right(1) }
            _ => {
                let (mut a, mut b) = (v, c);
                a.clear();
                drop(a);
                agrees::<T>(&b, &m);
                b.resize(1, T::new(7));
                drop((b, m));
                return all_gone();
            }
        }
        agrees::<T>(&v, &m);
    }
    all_gone();
}

/// Indices and ranges out of bounds.
fn bounds<T: Cp>(most: u8) {
    let size = std::mem::size_of::<T>();
    {
        let n = length(most, &[33]);
        let xs = vec_of::<T>(n, choose(0, 1) * 4);
        let mut m = xs.clone();
        let mut v = C::from_vec(xs);
        let i = n as usize;
        // Far ones, too: some whose offset in bytes is within the vector when it wraps around.
        let far = match choose(0, 7) {
            0 => i, 1 => i + 1, 2 => i + 3, 3 => usize::MAX, 4 => usize::MAX / size + 1, 5 => 1 << 63, 6 => (1 << 63) / size + 1, _ => usize::MAX - i,
        };
        let op = choose(0, 27);
        // swapping an element with itself and rotating by the length are fine
        let stopped = catch(|| {
            let mut s = SliceCopyMut::<()>::from_slice(&mut m);
            match op {
                0 => { v.get_ref(far); }
                1 => { v.get_mut(far); }
                2 => { v.get_as::<T>(far).map(|_| ()).unwrap(); }
                3 => { v.get_ref_as::<T>(far).unwrap(); }
                4 => { v.get_mut_as::<T>(far).unwrap(); }
                5 => { v.as_slice().get(far); }
                6 => { v.as_mut_slice().get_mut(far); }
                7 => { v.as_slice().get_as::<T>(far).unwrap(); }
                8 => { s.get(far); }
                9 => { s.get_mut(far); }
                10 => { s.get_as::<T>(far).unwrap(); }
                11 => { v.rotate_left(far + (far == i) as usize); }
                12 => { v.rotate_right(far + (far == i) as usize); }
                13 => { s.rotate_left(far + (far == i) as usize); }
                14 => { s.rotate_right(far + (far == i) as usize); }
                15 => { s.swap(far, if far == 0 { 1 } else { 0 }); }
                16 => { s.swap(far / 2 + (far == 0) as usize, far); }
                17 => { v.as_slice().split_at(far + (far == i) as usize); }
                18 => { s.split_at(far + (far == i) as usize); }
                19 => { s.subslice(far + (far == i) as usize..); }
                20 => { s.subslice_mut(..far + (far == i) as usize); }
                21 => { s.subslice(..=far); }
                22 => { s.subslice_mut(far / 2..=far); }
                23 => { v.as_slice().subslice(far / 2..far + (far == i) as usize); }
                24 => { v.as_slice().into_subslice(far..far - 1); }
                25 => { s.into_subslice(1..far + (far == i) as usize); }
                26 => { v.as_slice().reborrow().into_subslice(far / 2..far + (far == i) as usize); }
                _ => { let (raw, _) = v.clone().into_raw_parts(); raw.get_bytes(far); }
            }
        });
        check(stopped || (op == 24 && far == 0), "an access out of bounds panics");
        check(v.as_slice_as::<T>() == Some(&m[..]), "and changes nothing");
    }
    all_gone();
}

struct Hint<I>(I, usize);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, None) }
}
/// Whole elements from one container to another.
fn transfers<T: Cp>(most: u8) {
    {
        let n = length(most, &[17, 65]);
        let k = if n > most { at(n) } else { choose(0, up(most)) };
        let (xs, ys) = (vec_of::<T>(n, 2 * choose(0, 1)), vec_of::<T>(k, 1));
        let mut m = xs.clone();
        m.extend_from_slice(&ys);
        let (mut v, mut w) = (C::from_vec(xs.clone()), C::from_vec(ys.clone()));
        let mut left = true;
        match choose(0, 11) {
            // iterators that promise nothing, too little or too much
            8 => { v.extend(w.iter().filter(|_| true)) }
            9 => { let mut i = 0; v.extend(std::iter::from_fn(|| { i += 1; ys.get(i - 1).map(|e| CopyValueRef::<()>::new(e)) })) }
            10 => { let lower = match choose(0, 2) { 0 => 1, 1 => k as usize / 2, _ => k as usize + 3 }; v.extend(Hint(w.iter(), lower)) }
            11 => { if n + k > 0 { v = xs.iter().chain(ys.iter()).map(|e| CopyValueRef::<()>::new(e)).filter(|_| true).collect() } }
            0 => { v.extend(w.iter()) }
            1 => { for e in w.iter() { check(v.push(e).is_some(), "push"); } }
            2 => { check(v.append(&mut w).is_some(), "append"); left = false }
            3 => { v.extend(w.as_slice().iter()) }
            4 => { for e in &ys { check(v.push(CopyValueRef::<()>::new(e)).is_some(), "push"); } }
            5 => { let mut t = xs.clone(); check(w.append_copy_to_vec(&mut t).is_some(), "append_copy_to_vec"); v = C::from_vec(t) }
            6 => { if n + k > 0 { v = xs.iter().chain(ys.iter()).map(|e| CopyValueRef::<()>::new(e)).collect() } }
            _ => { let mut t = xs.clone(); check(w.as_slice().append_copy_to_vec(&mut t).is_some(), "append_copy_to_vec"); v = t.into() }
        }
        same::<T>(&v, &m);
        same::<T>(&w, if left { &ys } else { &[] });
        let (mut j, width) = (0, std::mem::size_of::<T>());
        let (raw, table) = v.into_raw_parts();
        for b in raw.byte_chunks() {
            check(b.len() == width, "a chunk is an element");
            check(unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) } == m[j], "the bytes of an element");
            j += 1
        }
        check(j == m.len(), "a chunk for each element");
        if m.len() > 0 { check(unsafe { std::ptr::read_unaligned(raw.get_bytes(m.len() - 1).as_ptr() as *const T) } == m[m.len() - 1], "the bytes of an element") }
        drop(unsafe { C::from_raw_parts(raw, table) });
        check(w.push_as(T::of(1)).is_some(), "a drained vector is usable");
    }
    all_gone();
}

/// Every range of a slice of `n` elements, and what is done through it.
macro_rules! slicing { ($name:ident, $T:ident: $El:ident, $S:ident<$X:ty>, $M:ident, $make:expr, $val:expr, $swap:expr) => {
    fn $name<$T: $El>(most: u8) where AllVTable: VTable<$T> {
        {
            let n = length(most, &[33]);
            let mut xs: Vec<$T> = Vec::with_capacity(n as usize);
            let mut i = 0;
            while i < n { xs.push($make(any())); i += 1 }
            let mut m: Vec<u8> = Vec::with_capacity(n as usize);
            for x in &xs { m.push($val(x)) }
            let (a, b) = { let a = at(n); (a as usize, (a + at(n - a)) as usize) };
            let op = choose(0, 13);
            {
                let mut s = $M::<$X>::from_slice(&mut xs);
                let len = b - a;
                match op {
                    0 => { let r = s.subslice(a..b); eqs(r.iter().map(|e| $val(e.downcast::<$T>().unwrap())), &m[a..b]); check(r.len() == len && r.is_empty() == (len == 0), "length") }
                    1 => { let mut r = s.subslice_mut(a..b); check(r.len() == len, "length"); eqs(r.iter().map(|e| $val(e.downcast::<$T>().unwrap())), &m[a..b]) }
                    2 => { let r = s.into_subslice(a..b); eqs(r.into_iter().map(|e| $val(e.downcast::<$T>().unwrap())), &m[a..b]) }
                    3 => { let r = s.subslice(..b); let q = r.subslice(a..); eqs(q.iter_as::<$T>().unwrap().map($val), &m[..b][a..]) }
                    4 => if b > a { let r = s.subslice(a..=b - 1); eqs(r.as_slice::<$T>().unwrap().iter().map($val), &m[a..b]); let q = s.subslice(..=b - 1); eqs(q.iter_as::<$T>().unwrap().map($val), &m[..b]) },
                    5 => { let (l, r) = s.split_at(a); eqs(l.reborrow().iter_as::<$T>().unwrap().map($val), &m[..a]); eqs(r.reborrow().iter_as::<$T>().unwrap().map($val), &m[a..]) }
                    6 => { let r = s.reborrow(); let (l, r) = r.split_at(b); eqs(l.iter_as::<$T>().unwrap().map($val), &m[..b]); eqs(r.iter_as::<$T>().unwrap().map($val), &m[b..]) }
                    7 => if len > 0 {
                        let (mut at, whole) = (0, n as usize / len);
                        for c in s.chunks_exact(len) { eqs(c.iter_as::<$T>().unwrap().map($val), &m[at * len..(at + 1) * len]); at += 1 }
                        check(at == whole, "as many chunks as fit")
                    },
                    8 => if len > 0 {
                        let mut at = 0;
                        for mut c in s.chunks_exact_mut(len) { eqs(c.as_slice::<$T>().unwrap().iter().map($val), &m[at * len..(at + 1) * len]); c.swap(0, len - 1); at += 1 }
                        check(at == n as usize / len, "as many chunks as fit");
                        for c in m.chunks_exact_mut(len) { c.swap(0, len - 1) }
                    },
                    9 => { let mut r = s.subslice_mut(a..); r.rotate_left(len); m[a..].rotate_left(len) }
                    10 => { let mut r = s.subslice_mut(..b); r.rotate_right(a); m[..b].rotate_right(a) }
                    11 => if len > 0 { let mut r = s.subslice_mut(a..b); r.swap(0, len - 1); m[a..b].swap(0, len - 1) },
                    12 => if len > 0 && a > 0 { let (mut l, mut r) = s.split_at(a); $swap(l.get_mut(a - 1), r.get_mut(len - 1)); m.swap(a - 1, b - 1) },
                    _ => if a < b { check($val(s.get(a).downcast::<$T>().unwrap()) == m[a], "an element"); check($val(s.get_mut(b - 1).downcast::<$T>().unwrap()) == m[b - 1], "an element"); check($val(s.get_as::<$T>(a).unwrap()) == m[a], "an element") },
                }
            }
            eqs(xs.iter().map($val), &m);
        }
        all_gone();
    }
} }
fn eqs(mut i: impl Iterator<Item = u8>, m: &[u8]) {
    let mut j = 0;
    while let Some(x) = i.next() { check(j < m.len() && x == m[j], "other elements than the typed slice's"); j += 1 }
    check(j == m.len(), "as many elements as the typed slice's")
}
slicing!(slices, T: Elt, Slice<AllVTable>, SliceMut, T::new, |x: &T| x.see(), |mut a: ValueMut<_>, mut b: ValueMut<_>| a.swap(&mut b));
pub trait Cel: Cp { fn get(&self) -> u8; }
impl Cel for u8 { fn get(&self) -> u8 { *self } }
impl Cel for [u8; 3] { fn get(&self) -> u8 { self[0] } }
impl Cel for u64 { fn get(&self) -> u8 { *self as u8 } }
mod copies_sliced {
    use super::*;
    // Elements that are Copy need no vtable.
    struct AllVTable;
    trait NoTable<T> {}
    impl<T> NoTable<T> for AllVTable {}
    use NoTable as VTable;
    slicing!(slices, T: Cel, SliceCopy<()>, SliceCopyMut, T::of, |x: &T| x.get(), |mut a: CopyValueMut<_>, mut b: CopyValueMut<_>| a.swap(&mut b));
    pub fn copy_slices<T: Cel>(most: u8) { slices::<T>(most) }
}
use copies_sliced::copy_slices;

/// Comparing and hashing containers of up to `most` elements.
fn equality<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most, &[17, 121]);
        let long = n > 100;
        let k = match if long { 0 } else { choose(0, 2) } { 0 => n, 1 => n + 1, _ => n / 2 };
        let (xs, m) = els::<T>(n, if long { 3 } else { 3 * choose(0, 1) });
        let mut ys: Vec<T> = Vec::with_capacity(k as usize);
        let mut p: Vec<u8> = Vec::new();
        // Equal but for one place, if at all.
        let at = if long { n - 1 } else { at(n) } as usize;
        let mut i = 0;
        while i < k as usize { let x = if i == at || i >= m.len() { any() } else { m[i] }; ys.push(T::new(x)); p.push(x); i += 1 }
        let equal = m == p;
        match choose(0, 3) {
            0 => {
                let (v, w) = (V::from_vec(xs), V::from_vec(ys));
                check((v == w) == equal, "vectors are equal if their elements are");
                check((w == v) == equal, "equality is symmetric");
                let (h, k) = (hashes(&v, &m), hashes(&w, &p));
                check(!equal || h == k, "equal vectors hash equally");
            }
            1 => {
                let mut ys = ys;
                { let (v, w) = (Slice::<AllVTable>::from_slice(&xs), Slice::<AllVTable>::from_slice(&ys)); check((v == w) == equal, "slices are equal if their elements are"); }
                let mut xs = xs;
                { let (v, w) = (SliceMut::<AllVTable>::from_slice(&mut xs), SliceMut::<AllVTable>::from_slice(&mut ys)); check((v == w) == equal, "slices are equal if their elements are"); }
            }
            2 => {
                let (v, w) = (V::from_vec(xs), V::from_vec(ys));
                let (v, w): (VecDyn<PartialEqVTable>, VecDyn<PartialEqVTable>) = (v.upcast(), w.upcast());
                check((v == w) == equal, "vectors are equal if their elements are");
                check((v.as_slice() == w.as_slice()) == equal, "slices are equal if their elements are");
            }
            _ => {
                let v: VecDyn<HashVTable> = V::from_vec(xs).upcast();
                hashes(&v, &m);
                if n > 0 { hashes(&v.get(n as usize - 1), &m[n as usize - 1..]); }
            }
        }
    }
    all_gone();
}
/// of the elements, and of everything
struct Sum(u64, u64);
fn with(s: u64, b: u8) -> u64 { s.wrapping_mul(31).wrapping_add(b as u64 + 1) }
impl Hasher for Sum {
    fn finish(&self) -> u64 { self.1 }
    fn write(&mut self, b: &[u8]) { for x in b { self.1 = with(self.1, *x) } }
    fn write_u8(&mut self, b: u8) { self.0 = with(self.0, b); self.1 = with(self.1, b) }
}
fn hash_of<X: Hash>(v: &X) -> Sum { let mut h = Sum(1, 1); v.hash(&mut h); h }
fn hashes<X: Hash>(v: &X, m: &[u8]) -> u64 {
    let h = hash_of(v);
    let mut s = 1;
    for x in m { s = with(s, *x) }
    check(h.0 == s, "each element is hashed as itself, in order");
    h.1
}

/// Any size and alignment: storage, and values.
fn layout<T: Cp>(_: u8) {
    {
        let (x, y) = (T::of(any()), T::of(any()));
        let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
        match choose(0, 9) {
            0 => {
                let mut v = C::with_type::<T>();
                let mut m = Vec::new();
                let n = choose(0, 9);
                let mut i = 0;
                while i < n { let e = T::of(i ^ 0x5a); if i % 4 == 1 { v.push_as(e); } else { v.push(CopyValueRef::<()>::new(&e)); } m.push(e); i += 1 }
                same::<T>(&v, &m);
                check(v.as_slice_as::<T>().unwrap().as_ptr() as usize % align == 0, "elements are aligned");
                let t = v.into_vec::<T>().unwrap();
                check(t == m, "converted back");
            }
            1 => {
                let mut t: Vec<T> = Vec::with_capacity(3);
                t.push(x);
                let (p, c) = (t.as_ptr(), t.capacity());
                let v = C::from_vec(t);
                check(v.capacity() == c, "the capacity is kept");
                check(v.as_slice_as::<T>().unwrap().as_ptr() == p, "the storage is kept");
                let t = v.into_vec::<T>().unwrap();
                check(t.as_ptr() == p && t.capacity() == c && t.len() == 1 && t[0] == x, "the storage is given back");
            }
            2 => {
                let mut v = C::from_slice(&[x, y]);
                v.reserve(1 + choose(0, 2) as usize);
                let c = v.capacity();
                let p = v.as_slice_as::<T>().unwrap().as_ptr();
                while v.len() < c { v.push(CopyValueRef::<()>::new(&y)); }
                check(v.as_slice_as::<T>().unwrap().as_ptr() == p, "filling up to the capacity does not move the elements");
                check(v.as_slice_as::<T>().unwrap()[0] == x && v.as_slice_as::<T>().unwrap()[c - 1] == y, "elements");
                let w = v.clone();
                drop(v);
                check(w.as_slice_as::<T>().unwrap()[0] == x && w.as_slice_as::<T>().unwrap()[c - 1] == y, "elements of the clone");
            }
            3 => {
                let mut v = C::from_slice(&[x, y, x]);
                v.rotate_left(1);
                same::<T>(&v, &[y, x, x]);
                v.as_mut_slice().swap(0, 2);
                same::<T>(&v, &[x, x, y]);
                let mut w = C::with_capacity::<T>(1);
                w.push_as(y);
                w.append(&mut v);
                same::<T>(&w, &[y, x, x, y]);
                w.resize(1, x);
                same::<T>(&w, &[y]);
                same::<T>(&v, &[]);
            }
            4 => {
                let b = BoxValue::<DropVTable>::new(x);
                check(b.as_ref().downcast::<T>() == Some(&x), "a boxed value");
                check(b.as_ref().downcast::<T>().unwrap() as *const T as usize % align == 0, "a boxed value is aligned");
                let t = b.downcast::<T>().unwrap();
                check(*t == x, "a boxed value is given back");
            }
            5 => {
                let mut b = BoxValue::<CloneVTable>::new(x);
                let mut c = b.clone();
                c.as_mut().assign(BoxValue::new(y));
                check(b.as_ref().downcast::<T>() == Some(&x) && c.as_ref().downcast::<T>() == Some(&y), "a clone is independent");
                b.as_mut().swap(&mut c.as_mut());
                check(b.as_ref().downcast::<T>() == Some(&y) && c.as_ref().downcast::<T>() == Some(&x), "swapped");
                b.as_mut().clone_from_other(c.as_ref()).unwrap();
                check(b.downcast::<T>().map(|t| *t) == Some(x), "cloned");
            }
            6 => {
                let s = SmallValue::<CloneVTable>::try_new(x);
                check(s.is_some() == (size == 8), "an inline value is one word");
                if let Some(s) = s { let t = s.clone(); drop(s); check(t.downcast::<T>() == Some(x), "an inline value") }
            }
            7 => {
                let mut v = VecDyn::<CloneVTable>::with_type::<T>();
                v.push_as(x);
                v.push(BoxValue::<CloneVTable>::new(y));
                v.push_cloned(ValueRef::new(&x));
                check(v.as_slice_as::<T>() == Some(&[x, y, x][..]), "elements");
                check(v.element_size() == size && v.as_slice().element_size() == size, "element size");
                let w = v.clone();
                v.clear();
                drop(v);
                check(w.into_vec::<T>().as_deref() == Some(&[x, y, x][..]), "converted back");
            }
            8 => {
                let (mut a, mut b) = (x, y);
                { let (mut p, mut q) = (CopyValueMut::<()>::new(&mut a), CopyValueMut::<()>::new(&mut b)); check(p.size() == size && p.value_alignment() == align && p.is::<T>(), "a value's layout"); p.swap(&mut q); }
                check(a == y && b == x, "swapped");
                { let p = CopyValueMut::<()>::new(&mut a); check(p.copy(CopyValueRef::new(&b)).is_some(), "copied"); }
                check(a == x, "copied");
            }
            _ => {
                let v = C::from_slice(&[x, y]);
                let e: C = C::with_type_from(&v);
                check(e.len() == 0 && e.element_type_id() == TypeId::of::<T>(), "an empty vector of the same type");
                let (raw, t) = v.into_raw_parts();
                let v = unsafe { C::from_raw_parts(raw, t) };
                same::<T>(&v, &[x, y]);
                let mut w: C = v.iter().collect();
                drop(v);
                w.extend(e.iter());
                same::<T>(&w, &[x, y]);
            }
        }
    }
    all_gone();
}
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Bs<const N: usize>([u8; N]);
impl<const N: usize> Cp for Bs<N> { fn of(x: u8) -> Self { let mut b = [7; N]; b[N / 2] = x ^ 0x5a; b[N - 1] = !x; b[0] = x; Bs(b) } }
macro_rules! aligned { ($($name:ident $a:literal)*) => { $(
    #[derive(Copy, Clone, PartialEq, Debug)]
    #[repr(align($a))]
    pub struct $name(u8, [u8; 3]);
    impl Cp for $name { fn of(x: u8) -> Self { $name(x, [x, 9, !x]) } }
)* } }
aligned! { G8 8 G16 16 G64 64 G128 128 G256 256 G512 512 G1K 1024 G2K 2048 G4K 4096 G8K 8192 }
#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(C, align(16))]
pub struct Z48([u64; 5], u8);
impl Cp for Z48 { fn of(x: u8) -> Self { Z48([x as u64, 2, 3, 4, !(x as u64)], x) } }
impl Cp for u16 { fn of(x: u8) -> Self { x as u16 * 257 } }
impl Cp for u128 { fn of(x: u8) -> Self { x as u128 * 0x0101_0101_0101_0101_0101_0101_0101_0101 } }
impl Cp for [u16; 5] { fn of(x: u8) -> Self { [x as u16, 1, 2, 3, !(x as u16)] } }
impl Cp for [u32; 7] { fn of(x: u8) -> Self { let y = x as u32; [y, 1, 2, 3, 4, 5, !y] } }
impl Cp for (u64, u8) { fn of(x: u8) -> Self { (!(x as u64), x) } }
impl Cp for char { fn of(x: u8) -> Self { x as char } }
impl Cp for bool { fn of(x: u8) -> Self { x & 1 == 1 } }

macro_rules! sweep { ($name:ident: $($t:ty),*) => {
    fn $name<T>(_: u8) {
        let fs: &[fn(u8)] = &[$(layout::<$t>),*];
        let i = choose(0, fs.len() as u8 - 1);
        fs[i as usize](0)
    }
} }
sweep!(sizes: Bs<1>, Bs<2>, Bs<3>, Bs<4>, Bs<5>, Bs<7>, Bs<8>, Bs<9>, Bs<11>, Bs<12>, Bs<15>, Bs<16>, Bs<17>, Bs<24>, Bs<31>, Bs<32>, Bs<33>, Bs<48>, Bs<63>, Bs<64>, Bs<65>, Bs<100>, Bs<128>, Bs<129>, Bs<255>, Bs<256>, Bs<257>, Bs<1000>, Bs<1025>);
sweep!(aligns: u16, [u16; 5], [u32; 7], u64, (u64, u8), u128, Z48, char, bool, W32, G8, G16, G64, G128, G256, G512, G1K, G2K, G4K, G8K);

/// Owned elements of any size and alignment, in containers.
fn owned<T: Elt>(_: u8) where AllVTable: VTable<T> {
    {
        let (x, y, z) = (any(), any(), any());
        let mut v = V::from_vec(els2::<T>(x, y));
        match choose(0, 9) {
            0 => {
                let mut c = v.clone();
                agrees::<T>(&c, &[x, y]);
                check(v == c, "a clone is equal");
                check(v.as_slice() == c.as_slice(), "a clone is equal");
                c.push_as(T::new(z));
                c.get_mut(0).assign(BoxValue::new(T::new(z)));
                agrees::<T>(&v, &[x, y]);
                drop(v);
                agrees::<T>(&c, &[z, y, z]);
            }
            1 => {
                check(v.resize(5, T::new(z)).is_some(), "resize");
                agrees::<T>(&v, &[x, y, z, z, z]);
                check(v.resize(1, T::new(z)).is_some(), "resize");
                agrees::<T>(&v, &[x]);
                v.clear();
                agrees::<T>(&v, &[]);
                v.push_as(T::new(z));
                agrees::<T>(&v, &[z]);
            }
            2 => {
                let u = T::new(z);
                check(v.push_cloned(ValueRef::new(&u)).is_some(), "push_cloned");
                check(v.push(BoxValue::<AllVTable>::new(u)).is_some(), "push");
                agrees::<T>(&v, &[x, y, z, z]);
                v.rotate_left(1);
                v.as_mut_slice().swap(0, 3);
                agrees::<T>(&v, &[x, z, z, y]);
            }
            3 => {
                let u = T::new(z);
                v.get_mut(1).clone_from_other(ValueRef::new(&u)).unwrap();
                agrees::<T>(&v, &[x, z]);
                let mut s = v.as_mut_slice();
                { let (mut a, mut b) = s.split_at(1); a.get_mut(0).swap(&mut b.get_mut(0)); }
                agrees::<T>(&v, &[z, x]);
                check(v.fill(u).is_some(), "fill");
                agrees::<T>(&v, &[z, z]);
            }
            4 => {
                let w = V::from_vec(els2::<T>(x, z));
                check((v == w) == (y == z), "vectors are equal if their elements are");
                let (h, k) = (hashes(&v, &[x, y]), hashes(&w, &[x, z]));
                check(y != z || h == k, "equal vectors hash equally");
                check((v.get(1) == w.get(0)) == (y == x), "elements are equal if their type says so");
            }
            5 => {
                let mut t = els2::<T>(z, z);
                check(v.append_cloned_to_vec(&mut t).is_some(), "append_cloned_to_vec");
                model(&t, &[z, z, x, y]);
                model(&v.as_slice().clone_into_vec::<T>().unwrap(), &[x, y]);
                model(&v.into_vec::<T>().unwrap(), &[x, y]);
            }
            6 => {
                let mut w: VecDyn<CloneVTable> = v.upcast();
                let c = w.clone();
                w.append(&mut { c }).unwrap();
                w.push(BoxValue::<CloneVTable>::new(T::new(z))).unwrap();
                model(&w.into_vec::<T>().unwrap(), &[x, y, x, y, z]);
            }
            7 => {
                let mut w = V::with_type_from(&v);
                for e in v.iter() { w.push(e.clone_value()).unwrap(); }
                w.clone_from(&v);
                let (raw, t) = v.into_raw_parts();
                let v = unsafe { V::from_raw_parts(raw, t) };
                agrees::<T>(&v, &[x, y]);
                agrees::<T>(&w, &[x, y]);
                check(w.into_vec::<Other>().is_none(), "a wrong type is refused");
            }
            8 => {
                let mut t = els2::<T>(x, z);
                let mut s = SliceMut::<AllVTable>::from_slice(&mut t);
                s.rotate_right(1);
                check(s.clone_from_slice(v.as_slice_as::<T>().unwrap()).is_some(), "clone_from_slice");
                for i in 0..s.len() { s.get_mut(i).assign(BoxValue::new(T::new(y))) }
                model(&t, &[y, y]);
                check(v.as_slice() != Slice::<AllVTable>::from_slice(&t) || x == y, "slices are equal if their elements are");
            }
            _ => {
                let mut w = V::with_capacity::<T>(choose(0, 2) as usize);
                w.append(&mut v).unwrap();
                check(v.len() == 0 && w.len() == 2, "append");
                v.push_as(T::new(z));
                v.append(&mut w).unwrap();
                agrees::<T>(&v, &[z, x, y]);
            }
        }
    }
    all_gone();
}
fn els2<T: El>(x: u8, y: u8) -> Vec<T> { let mut v = Vec::with_capacity(2); v.push(T::new(x)); v.push(T::new(y)); v }

/// Owned values of any size and alignment.
fn single<T: Elt>(_: u8) where AllVTable: VTable<T> {
    type B = BoxValue<AllVTable>;
    fn is<T: Elt>(v: ValueRef<AllVTable>, x: u8) where AllVTable: VTable<T> {
        check(v.size() == std::mem::size_of::<T>() && v.value_type_id() == TypeId::of::<T>() && v.is::<T>(), "a value is of its type");
        let t = v.downcast::<T>();
        check(t.is_some() && t.unwrap().see() == x, "a value keeps its content")
    }
    {
        let (x, y) = (any(), any());
        match choose(0, 9) {
            0 => {
                let mut b = B::new(T::new(x));
                let mut c = b.clone();
                is::<T>(c.as_ref(), x);
                check(b == c, "a clone is equal");
                c.as_mut().assign(B::new(T::new(y)));
                is::<T>(b.as_ref(), x);
                is::<T>(c.as_ref(), y);
                check((b == c) == (x == y), "values are equal if their type says so");
                b.as_mut().swap(&mut c.as_mut());
                is::<T>(b.as_ref(), y);
                is::<T>(c.as_ref(), x);
            }
            1 => {
                let mut b = B::new(T::new(x));
                let t = T::new(y);
                b.as_mut().clone_from_other(ValueRef::new(&t)).unwrap();
                drop(t);
                is::<T>(b.as_ref(), y);
                let t = b.downcast::<T>();
                check(t.is_some() && t.unwrap().see() == y, "a value is given back");
            }
            2 => {
                let mut t = T::new(x);
                { let mut m = ValueMut::<AllVTable>::new(&mut t); is::<T>(m.reborrow(), x); m.assign(B::new(T::new(y))); is::<T>(m.reborrow(), y); }
                check(t.see() == y, "assigned");
                let c = { let r = ValueRef::<AllVTable>::new(&t); r.clone_value() };
                drop(t);
                is::<T>(c.as_ref(), y);
            }
            3 => { check(B::new(T::new(x)).downcast::<Other>().is_none(), "a wrong type is refused") }
            4 => {
                let (mut s, mut t) = (T::new(x), T::new(y));
                { let (mut a, mut b) = (ValueMut::<AllVTable>::new(&mut s), ValueMut::<AllVTable>::new(&mut t)); check((a == b) == (x == y), "values are equal if their type says so"); a.swap(&mut b); b.swap(&mut B::new(T::new(x)).as_mut()); }
                check(s.see() == y && t.see() == x, "swapped");
            }
            5 => {
                let b = B::new(T::new(x));
                hashes(&b, &[x]);
                hashes(&b.as_ref(), &[x]);
                let c: BoxValue<CloneVTable> = b.clone().upcast();
                let d = c.clone();
                drop(c);
                let b: BoxValue<DropVTable> = b.upcast();
                check(b.downcast::<T>().map(|t| t.see()) == Some(x), "a value is given back");
                check(d.as_ref().downcast::<T>().map(|t| t.see()) == Some(x), "a value keeps its content");
            }
            6 => {
                let s = SmallValue::<AllVTable>::try_new(T::new(x));
                check(s.is_none() || std::mem::size_of::<T>() == 8, "only a value of the size of a word is stored inline");
                if let Some(mut s) = s {
                    is::<T>(s.as_ref(), x);
                    let c = s.clone();
                    s.as_mut().assign(SmallValue::new(T::new(y)));
                    is::<T>(c.as_ref(), x);
                    is::<T>(s.as_ref(), y);
                    check((s == c) == (x == y), "values are equal if their type says so");
                    let d = s.as_ref().clone_small_value();
                    let u: SmallValue<CloneVTable> = c.upcast();
                    let t = u.downcast::<T>();
                    check(t.is_some() && t.unwrap().see() == x, "a value is given back");
                    check(s.downcast::<Other>().is_none(), "a wrong type is refused");
                    is::<T>(d.as_ref(), y);
                }
            }
            7 => {
                let mut v = V::with_type::<T>();
                v.push(B::new(T::new(x))).unwrap();
                let b = v.get(0).clone_value();
                v.get_mut(0).swap(&mut B::new(T::new(y)).as_mut());
                is::<T>(b.as_ref(), x);
                is::<T>(v.get(0), y);
                let mut b = b;
                v.get_mut(0).clone_from_other(b.as_ref()).unwrap();
                b.as_mut().assign(v.get(0).clone_value());
                is::<T>(b.as_ref(), x);
            }
            8 => {
                let t = T::new(x);
                let r = ValueRef::<AllVTable>::new(&t);
                let q = r.reborrow();
                let c = q.upcast::<CloneVTable>().clone_value();
                check(c.downcast::<T>().map(|t| t.see()) == Some(x), "a clone of a reference");
                let mut u = T::new(y);
                { let mut m = ValueMut::<AllVTable>::new(&mut u); m.clone_from_other(r).unwrap(); let mut n = m.upcast::<CloneVTable>(); n.clone_from_other(ValueRef::new(&t)).unwrap(); }
                check(u.see() == x && t.see() == x, "cloned");
            }
            _ => {
                let b = B::new(T::new(x));
                let (mut bytes, id, align, table) = b.into_raw_parts();
                check(id == TypeId::of::<T>() && align == std::mem::align_of::<T>() && bytes.len() == std::mem::size_of::<T>(), "the parts of a value");
                check(bytes.as_ptr() as usize % align == 0, "a boxed value is aligned");
                let t = unsafe { std::ptr::read(bytes.as_ptr() as *const T) };
                check(t.see() == x, "the bytes of a value");
                drop(table);
                dync::DropAsAligned::drop_as_aligned(&mut bytes, align);
            }
        }
    }
    all_gone();
}
/// `N` + 2 bytes
pub struct Own<const N: usize> { id: u8, v: u8, w: [u8; N] }
impl<const N: usize> El for Own<N> {
    fn new(x: u8) -> Self { let mut w = [x ^ 0x33; N]; w[N - 1] = !x; w[N / 2] = x; Own { id: born(), v: x, w } }
    fn see(&self) -> u8 {
        seen(self.id);
        check(self.w[N / 2] == self.v && (N == 1 || self.w[N - 1] == !self.v || N / 2 == N - 1) && (N < 3 || self.w[0] == self.v ^ 0x33), "an element is torn");
        self.v
    }
}
impl<const N: usize> Clone for Own<N> { fn clone(&self) -> Self { let x = self.see(); Self::new(x) } }
impl<const N: usize> Drop for Own<N> { fn drop(&mut self) { self.see(); died(self.id) } }
impl<const N: usize> PartialEq for Own<N> { fn eq(&self, o: &Self) -> bool { self.see() == o.see() } }
impl<const N: usize> Hash for Own<N> { fn hash<X: Hasher>(&self, h: &mut X) { h.write_u8(self.see()) } }
impl<const N: usize> fmt::Debug for Own<N> { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { self.see(); Ok(()) } }
impl<const N: usize> All for Own<N> {}
el!(O2 { v: u8 = x } |x| (), |s| s.v);
el!(O4 #[repr(align(4))] { v: u8 = x } |x| (), |s| s.v);
el!(O8 #[repr(align(8))] { v: u8 = x } |x| (), |s| s.v);
el!(O24 #[repr(align(8))] { v: u8 = x, b: Box<u8> = Box::new(x), w: u32 = 77 } |x| (), |s| { check(s.w == 77 && *s.b == s.v, "an element is torn"); s.v });
el!(O16 #[repr(align(16))] { v: u8 = x } |x| (), |s| s.v);
el!(O48 #[repr(align(16))] { b: Box<u8> = Box::new(x), w: [u8; 30] = [5; 30] } |x| (), |s| { check(s.w[29] == 5, "an element is torn"); *s.b });
el!(O32 #[repr(align(32))] { b: Box<u8> = Box::new(x) } |x| (), |s| *s.b);
el!(O128 #[repr(align(128))] { v: u8 = x } |x| (), |s| s.v);
el!(O512 #[repr(align(512))] { v: u8 = x } |x| (), |s| s.v);
el!(O4K #[repr(align(4096))] { v: u8 = x } |x| (), |s| s.v);
el!(OV { t: Vec<u8> = { let mut t = Vec::with_capacity(2); t.push(x); t } } |x| (), |s| s.t[0]);
el!(OS { t: String = String::from("xy"), v: u8 = x } |x| (), |s| { check(s.t.len() == 2, "an element is torn"); s.v });
el!(OA { r: std::rc::Rc<u8> = std::rc::Rc::new(x), n: Option<Box<u8>> = None } |x| (), |s| { check(s.n.is_none(), "an element is torn"); *s.r });
impl All for O2 {} impl All for O4 {} impl All for O8 {} impl All for O24 {} impl All for O16 {} impl All for O48 {} impl All for O32 {}
impl All for O128 {} impl All for O512 {} impl All for O4K {} impl All for OV {} impl All for OS {} impl All for OA {}

/// Taking apart and putting together.
fn parts<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most, &[17, 60]);
        let spare = choose(0, 1) * 5;
        let (mut xs, m) = els::<T>(n, spare);
        macro_rules! elem { ($e:expr) => { check($e.num_bytes() == std::mem::size_of::<T>(), "the size of an element") } }
        match choose(0, 5) {
            0 => {
                let (p, c) = (xs.as_ptr(), xs.capacity());
                let v = V::from_vec(xs);
                let (raw, table) = v.into_raw_parts();
                let v = unsafe { V::from_raw_parts(raw, table) };
                agrees::<T>(&v, &m);
                let t = v.into_vec::<T>().unwrap();
                check(c == 0 || t.as_ptr() == p && t.capacity() == c, "the storage is kept");
                model(&t, &m);
            }
            1 => {
                let v = V::from_vec(xs);
                let mut k = 0;
                {
                    let (bytes, e, t) = v.as_slice().into_raw_parts();
                    elem!(e);
                    check(bytes.len() == n as usize * std::mem::size_of::<T>(), "the bytes of a slice");
                    let s = unsafe { Slice::<AllVTable>::from_raw_parts(bytes, e, t) };
                    check(s.len() == m.len(), "length");
                    for x in s.iter_as::<T>().unwrap() { check(x.see() == m[k], "an element"); k += 1 }
                }
                check(k == m.len(), "as many elements");
            }
            2 => {
                {
                    let (bytes, e, t) = SliceMut::<AllVTable>::from_slice(&mut xs).into_raw_parts();
                    elem!(e);
                    let mut s = unsafe { SliceMut::<AllVTable>::from_raw_parts(bytes, e, t) };
                    if n > 1 { s.swap(0, n as usize - 1); s.swap(n as usize - 1, 0) }
                }
                model(&xs, &m);
            }
            3 => {
                let mut v = V::from_vec(xs);
                let (mut raw, table) = std::mem::replace(&mut v, V::with_type::<Other>()).into_raw_parts();
                let mut j = 0;
                for b in unsafe { raw.byte_chunks_mut() } { check(b.len() == std::mem::size_of::<T>(), "a chunk is an element"); j += 1 }
                check(j == m.len(), "a chunk for each element");
                let w = unsafe { V::from_raw_parts(raw, table) };
                drop(v);
                agrees::<T>(&w, &m);
            }
            4 => {
                let v = V::from_vec(xs);
                let mut w = V::with_type_from(&v);
                w.append(&mut { v }).unwrap();
                let (raw, t) = w.into_raw_parts();
                let mut w = unsafe { V::from_raw_parts(raw, t) };
                w.push_as(T::new(1));
                check(w.len() == m.len() + 1, "length");
                w.resize(m.len(), T::new(2));
                model(&w.into_vec::<T>().unwrap(), &m);
            }
            _ => {
                let v: VecDyn<CloneVTable> = V::from_vec(xs).upcast();
                let (raw, t) = v.into_raw_parts();
                let v = unsafe { VecDyn::<CloneVTable>::from_raw_parts(raw, t) };
                let c = v.clone();
                let d = v.clone();
                model(&d.into_vec::<T>().unwrap(), &m);
                model(&c.into_vec::<T>().unwrap(), &m);
            }
        }
    }
    all_gone();
}

/// The same of elements that are copied.
fn copy_parts<T: Cp>(most: u8) {
    {
        let size = std::mem::size_of::<T>();
        let n = length(most, &[17, 60, 129]);
        let mut xs = vec_of::<T>(n, choose(0, 1) * 5);
        let m = xs.clone();
        let n = n as usize;
        macro_rules! elem { ($e:expr) => { check($e.num_bytes() == size, "the size of an element") } }
        match choose(0, 6) {
            0 => {
                let (p, c) = (xs.as_ptr(), xs.capacity());
                let (raw, table) = C::from_vec(xs).into_raw_parts();
                let mut v = unsafe { C::from_raw_parts(raw, table) };
                same::<T>(&v, &m);
                check(c == 0 || v.capacity() == c, "the storage is kept");
                let x = T::of(any());
                v.push_as(x);
                v.rotate_right(1);
                check(v.get_as::<T>(0) == Some(x) && v.len() == n + 1, "the vector is usable");
                v.rotate_left(1);
                v.resize(n, x);
                let t = v.into_vec::<T>().unwrap();
                check(t == m && (c == 0 || c == n || t.as_ptr() == p), "the storage is kept");
            }
            1 => {
                let v = C::from_vec(xs);
                let (bytes, e, t) = v.as_slice().into_raw_parts();
                elem!(e);
                check(bytes.len() == n * size, "the bytes of a slice");
                let s = unsafe { SliceCopy::<()>::from_raw_parts(bytes, e, t) };
                check(s.as_slice::<T>() == Some(&m[..]) && s.len() == n && s.element_size() == size, "elements");
                let (bytes, e, t) = s.into_subslice(n / 3..n).into_raw_parts();
                elem!(e);
                let s = unsafe { SliceCopy::<()>::from_raw_parts(bytes, e, t) };
                check(s.copy_into_vec::<T>().as_deref() == Some(&m[n / 3..]), "elements");
            }
            2 => {
                let x = T::of(any());
                {
                    let (bytes, e, t) = SliceCopyMut::<()>::from_slice(&mut xs).into_raw_parts();
                    elem!(e);
                    check(bytes.len() == n * size, "the bytes of a slice");
                    let mut s = unsafe { SliceCopyMut::<()>::from_raw_parts(bytes, e, t) };
                    if n > 0 { check(s.get_mut(n - 1).copy(CopyValueRef::new(&x)).is_some(), "copy"); s.swap(0, n - 1) }
                }
                let mut m = m;
                if n > 0 { m[n - 1] = x; m.swap(0, n - 1) }
                check(xs == m, "elements");
            }
            3 => {
                let (mut v, t) = C::from_vec(xs).into_raw_parts();
                let mut j = 0;
                for b in v.byte_chunks() { check(b.len() == size && unsafe { std::ptr::read(b.as_ptr() as *const T) } == m[j], "a chunk is an element"); j += 1 }
                check(j == n, "a chunk for each element");
                for b in unsafe { v.byte_chunks_mut() } { check(b.len() == size, "a chunk is an element"); j -= 1 }
                check(j == 0, "a chunk for each element");
                while j < n { check(unsafe { std::ptr::read(v.get_bytes(j).as_ptr() as *const T) } == m[j] && unsafe { v.get_bytes_mut(j) }.len() == size, "the bytes of an element"); j += 1 }
                same::<T>(&unsafe { C::from_raw_parts(v, t) }, &m);
            }
            4 => {
                // storage alone can be cloned; it is the elements' bytes
                let (raw, table) = C::from_vec(xs).into_raw_parts();
                let (a, b) = (raw.clone(), table.clone());
                let v = unsafe { C::from_raw_parts(raw, table) };
                let w = unsafe { C::from_raw_parts(a, b) };
                drop(v);
                same::<T>(&w, &m);
            }
            5 => {
                let (raw, table) = VecCopy::<u32>::from_vec_with(xs, n as u32).into_raw_parts();
                check(*table == n as u32, "the table is kept");
                let v = unsafe { VecCopy::<u32>::from_raw_parts(raw, table) };
                let (_, _, t) = v.as_slice().into_raw_parts();
                check(*t == n as u32, "the table is kept");
                check(t.take() == n as u32, "the table is kept");
                let w = v.upcast_with(|t| (t, 3u8));
                check(w.as_slice().into_raw_parts().2.1 == 3, "the new table");
                check(w.into_vec::<T>().as_deref() == Some(&m[..]), "elements");
            }
            _ => {
                let (raw, table) = C::with_size(n, T::of(9)).into_raw_parts();
                let mut v = unsafe { C::from_raw_parts(raw, table) };
                check(v.copy_from_slice(&m).is_some(), "copy_from_slice");
                let (a, b) = C::with_type::<T>().into_raw_parts();
                let mut w = unsafe { C::from_raw_parts(a, b) };
                w.append(&mut v);
                same::<T>(&w, &m);
                same::<T>(&v, &[]);
            }
        }
    }
    all_gone();
}
trait With<T, V> { fn from_vec_with(xs: Vec<T>, t: V) -> Self; }
impl<T: Cp> With<T, u32> for VecCopy<u32> { fn from_vec_with(xs: Vec<T>, t: u32) -> Self { C::from_vec(xs).upcast_with(|_| t) } }

macro_rules! sweep_owned { ($name:ident $f:ident: $($t:ty),*) => {
    fn $name<T>(_: u8) {
        let fs: &[fn(u8)] = &[$($f::<$t>),*];
        let i = choose(0, fs.len() as u8 - 1);
        fs[i as usize](0)
    }
} }
macro_rules! both { ($a:ident $b:ident: $($t:ty),*) => { sweep_owned!($a owned: $($t),*); sweep_owned!($b single: $($t),*); } }
both!(owned_sizes single_sizes: O2, Own<1>, Own<2>, Own<3>, Own<4>, Own<5>, Own<6>, Own<7>, Own<8>, Own<10>, Own<13>, Own<14>, Own<15>, Own<22>, Own<30>, Own<31>, Own<46>, Own<62>, Own<63>, Own<100>, Own<126>, Own<127>, Own<254>, Own<255>, Own<1023>);
both!(owned_kinds single_kinds: P, S8, O4, O8, O24, O16, O48, O32, A64, O128, O512, O4K, OV, OS, OA);

harnesses! {
    w01_b3: copies<[u8; 3]>(20);
    w01_u64: copies<u64>(20);
    w01_w32: copies<W32>(16);
    w02_p: vectors<P>(20);
    w02_q: vectors<Q3>(20);
    w02_a: vectors<A64>(16);
    w03_ps: refused_ps<()>(9);
    w03_sp: refused_sp<()>(9);
    w06_p: clones<P>(20);
    w06_q: clones<Q3>(20);
    w07_b3: bounds<[u8; 3]>(9);
    w07_u64: bounds<u64>(9);
    w08_b3: transfers<[u8; 3]>(7);
    w08_w32: transfers<W32>(7);
    w08_u8: transfers<u8>(7);
    w09_p: slices<P>(7);
    w09_q: slices<Q3>(7);
    w09_b3: copy_slices<[u8; 3]>(7);
    w09_u64: copy_slices<u64>(7);
    w10_p: equality<P>(9);
    w10_q: equality<Q3>(9);
    w04_sizes: owned_sizes<()>(0);
    w04_kinds: owned_kinds<()>(0);
    w11_sizes: single_sizes<()>(0);
    w11_kinds: single_kinds<()>(0);
    w14_p: parts<P>(9);
    w14_q: parts<Q3>(9);
    w14_a: parts<A64>(9);
    w14_b3: copy_parts<[u8; 3]>(9);
    w14_u64: copy_parts<u64>(9);
    w14_w32: copy_parts<W32>(9);
    w05_sizes: sizes<()>(0);
    w05_aligns: aligns<()>(0);
}
fn refused_ps<X>(most: u8) { refused::<P, Y16>(most) }
fn refused_sp<X>(most: u8) { refused::<S8, Y8>(most) }
// of the layouts of P and S8
el!(Y16 { v: Box<u8> = Box::new(x) } |x| (), |s| *s.v);
el!(Y8 #[repr(C)] { v: u8 = x, w: u16 = 9, z: u32 = 6 } |x| (), |s| { check(s.w == 9 && s.z == 6, "an element is torn"); s.v });
impl All for Y16 {}
impl All for Y8 {}
