//! Taking apart and reassembling is the identity.
use crate::types::*;
use crate::vp;
use crate::*;
use core::mem::{align_of, size_of, MaybeUninit};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::hash::{Hash, Hasher};

/// The behaviours used, with a table that is not zero-sized.
#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash {}
impl<T: Clone + Eq + Hash> All for T {}
pub trait Elt: Own + Eq + Hash {}
impl<T: Own + Eq + Hash> Elt for T {}

fn number() -> u32 {
    let x = vp::any_u32();
    vp::assume(x & 0xff_ffff == x);
    x
}
fn make<T: Own>(xs: &[u32; 3], cap: usize, len: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < len { v.push(T::own(xs[i])); i += 1; }
    v
}
fn at(b: &[MaybeUninit<u8>]) -> usize { b.as_ptr() as usize }

/// A vector that does not own more than bytes: its parts, the parts' view of the bytes, copies of the
/// untyped part, and back.
fn copies<T: Sym>() {
    split!(op in 0, 5 => { split!(n in 0, 3 => {
        let live = vp::live();
        let xs = arr::<T, 3>();
        let v = VecCopy::<(CloneFn, u32)>::from_vec_with_vtable(&xs, n);
        let (start, cap) = (v.as_slice_as::<T>().unwrap().as_ptr() as usize, v.capacity());
        let (mut data, table) = v.into_raw_parts();
        match op {
            0 => {
                let mut seen = 0;
                for (i, b) in data.byte_chunks().enumerate() { check!(b.len() == size_of::<T>() && at(b) == start + i * size_of::<T>(), "the chunks are the elements"); seen += 1; }
                check!(seen == n, "one chunk per element");
            }
            1 => {
                let mut seen = 0;
                for (i, b) in unsafe { data.byte_chunks_mut() }.enumerate() { check!(b.len() == size_of::<T>() && at(b) == start + i * size_of::<T>(), "the chunks are the elements"); seen += 1; }
                check!(seen == n, "one chunk per element");
            }
            2 => { let mut i = 0; while i < n {
                { let b = data.get_bytes(i); check!(b.len() == size_of::<T>() && at(b) == start + i * size_of::<T>(), "the bytes are the element's"); }
                let b = unsafe { data.get_bytes_mut(i) };
                check!(b.len() == size_of::<T>() && at(b) == start + i * size_of::<T>(), "the bytes are the element's");
                i += 1;
            } }
            _ => {}
        }
        if op == 3 || op == 4 {
            // A copy of the untyped part is a vector of its own.
            let other = data.clone();
            let other = if op == 3 { other } else {
                let (mut o, _) = VecCopy::<()>::from_vec(vec_of(&xs, 1, 1)).into_raw_parts();
                o.clone_from(&other);
                o
            };
            let mut w = unsafe { VecCopy::<(CloneFn, u32)>::from_raw_parts(other, table.clone()) };
            check!(w.element_type_id() == TypeId::of::<T>() && w.len() == n && w.capacity() >= n, "a copy has the type and the length");
            check!(same(&w, &xs, n), "a copy has the contents");
            check!(w.as_slice_as::<T>().unwrap().as_ptr() as usize != start, "a copy has its own storage");
            check!(w.push_as(xs[0]).is_some() && w.push_as(xs[1]).is_some() && w.len() == n + 2 && same(&w, &xs, n), "a copy is usable");
        }
        let mut v = unsafe { VecCopy::from_raw_parts(data, table) };
        check!(v.element_type_id() == TypeId::of::<T>() && v.len() == n && v.capacity() == cap, "the type, the length and the capacity are kept");
        check!(v.as_slice_as::<T>().unwrap().as_ptr() as usize == start && same(&v, &xs, n), "the contents are kept, in place");
        check!(v.table() == 77, "the table is kept");
        if op == 5 { check!(v.push_as(xs[2]).is_some() && v.len() == n + 1 && same(&v, &xs, n), "the vector is usable"); }
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 5 && n == 3);
    }) });
}
fn same<T: Sym, V>(v: &VecCopy<V>, xs: &[T; 3], n: usize) -> bool {
    let s = v.as_slice_as::<T>().unwrap();
    let mut ok = s.len() >= n;
    let mut i = 0;
    while i < n { ok = ok & (s[i] == xs[i]); i += 1; }
    ok
}
/// A table with something of its own in it.
#[derive(Clone)]
pub struct CloneFn;
impl<T: Copy> VTable<T> for CloneFn { fn build_vtable() -> Self { CloneFn } }
trait Tabled { fn table(&self) -> u32; }
impl Tabled for VecCopy<(CloneFn, u32)> {
    fn table(&self) -> u32 { let s = self.as_slice(); let (_, _, t) = s.into_raw_parts(); t.1 }
}
trait FromVec<T: Sym> { fn from_vec_with_vtable(xs: &[T; 3], n: usize) -> Self; }
impl<T: Sym> FromVec<T> for VecCopy<(CloneFn, u32)> {
    fn from_vec_with_vtable(xs: &[T; 3], n: usize) -> Self {
        VecCopy::<CloneFn>::from_vec(vec_of(xs, n, n)).upcast_with(|c| (c, 77u32))
    }
}

/// A vector of a type with drop glue.
fn vectors<T: Elt>() {
    split!(op in 0, 3 => { split!(n in 0, 3 => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = [number(), number(), number()];
        let v = VecDyn::<AllVTable>::from_vec(make::<T>(&xs, n, n));
        let cap = v.as_slice_as::<T>().unwrap().as_ptr() as usize;
        let (data, table) = v.into_raw_parts();
        let mut v = unsafe { VecDyn::from_raw_parts(data, table) };
        check!(v.element_type_id() == TypeId::of::<T>() && v.element_size() == size_of::<T>() && v.len() == n, "the type, the size and the length are kept");
        {
            let s = v.as_slice_as::<T>().unwrap();
            check!(s.as_ptr() as usize == cap, "the contents stay in place");
            let mut i = 0;
            while i < n { check!(s[i].is(xs[i]), "the contents are kept"); i += 1; }
        }
        match op {
            0 => { let w = v.clone(); check!(w == v, "the behaviours are kept"); }
            1 => { check!(v.push_as(T::own(xs[0])).is_some() && v.len() == n + 1, "the vector is usable"); }
            2 => { let w = v.into_vec::<T>().unwrap(); check!(w.len() == n, "the vector is usable"); v = VecDyn::from_vec(w); }
            _ => { v.clear(); }
        }
        drop(v);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 3 && n == 3);
    }) });
}
/// Parts that are only dropped give the storage and the table back, and drop no element.
fn parts<T: Own + Copy + Eq + Hash>() {
    split!(n in 0, 3 => {
        let live = vp::live();
        let xs = [number(), number(), number()];
        let (data, table) = VecDyn::<AllVTable>::from_vec(make::<T>(&xs, 3, n)).into_raw_parts();
        drop(data);
        drop(table);
        check!(vp::live() == live, "nothing leaks");
        witness!(n == 3);
    });
}

fn slices<T: Elt>() {
    split!(op in 0, 4 => { split!(n in 0, 3 => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = [number(), number(), number()];
        let mut a = make::<T>(&xs, 3, n);
        let start = a.as_ptr() as usize;
        match op {
            0 | 1 => {
                let s = Slice::<AllVTable>::from_slice(&a[..]);
                // Through a table it owns, and through one it borrows.
                let t = if op == 0 { s.reborrow() } else { Slice::<AllVTable>::from_slice(&a[..]) };
                let (d, e, table) = t.into_raw_parts();
                check!(at(d) == start && d.len() == n * size_of::<T>() && e.num_bytes() == size_of::<T>(), "the parts are the bytes of the elements");
                let t = unsafe { Slice::from_raw_parts(d, e, table) };
                check!(t.element_type_id() == TypeId::of::<T>() && t.element_size() == size_of::<T>() && t.len() == n, "the type, the size and the length are kept");
                check!(t == s, "the behaviours are kept");
                let b = t.as_slice::<T>().unwrap();
                check!(b.as_ptr() as usize == start, "the slice stays in place");
                let mut i = 0;
                while i < n { check!(b[i].is(xs[i]), "the contents are kept"); i += 1; }
            }
            2 | 3 => {
                let mut s = SliceMut::<AllVTable>::from_slice(&mut a[..]);
                let t = if op == 2 { s.reborrow_mut() } else { s };
                let (d, e, table) = t.into_raw_parts();
                check!(at(&d[..]) == start && d.len() == n * size_of::<T>() && e.num_bytes() == size_of::<T>(), "the parts are the bytes of the elements");
                let mut t = unsafe { SliceMut::from_raw_parts(d, e, table) };
                check!(t.element_type_id() == TypeId::of::<T>() && t.element_size() == size_of::<T>() && t.len() == n, "the type, the size and the length are kept");
                if n > 0 { check!(t.get_mut(0).clone_from_other(ValueRef::new(&T::own(xs[2]))).is_ok(), "the behaviours are kept"); }
                drop(t);
                let mut i = 0;
                while i < n { check!(a[i].is(if i == 0 { xs[2] } else { xs[i] }), "the contents are those of the slice"); i += 1; }
            }
            _ => {
                // A view of a vector.
                let v = VecDyn::<AllVTable>::from_vec(a);
                let (d, e, table) = v.as_slice().into_raw_parts();
                let t = unsafe { Slice::from_raw_parts(d, e, table) };
                check!(at(d) == start || n == 0, "the parts are the bytes of the elements");
                check!(d.len() == n * size_of::<T>() && t.len() == n && t == v.as_slice(), "the length and the contents are kept");
                a = v.into_vec::<T>().unwrap();
            }
        }
        drop(a);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 4 && n == 3);
    }) });
}
fn copy_slices<T: Sym>() {
    split!(op in 0, 3 => { split!(n in 0, 3 => {
        let live = vp::live();
        let xs = arr::<T, 3>();
        let mut ys = xs;
        let start = ys.as_ptr() as usize;
        match op {
            0 => {
                let (d, e, t) = SliceCopy::<CloneFn>::from_slice(&ys[..n]).into_raw_parts();
                check!(at(d) == start && d.len() == n * size_of::<T>() && e.num_bytes() == size_of::<T>(), "the parts are the bytes of the elements");
                let s = unsafe { SliceCopy::from_raw_parts(d, e, t) };
                check!(s.element_type_id() == TypeId::of::<T>() && s.element_size() == size_of::<T>() && s.len() == n, "the type, the size and the length are kept");
                let s = s.as_slice::<T>().unwrap();
                let mut i = 0;
                while i < n { check!(s[i] == xs[i], "the contents are kept"); i += 1; }
            }
            1 => {
                let (d, e, t) = SliceCopyMut::<CloneFn>::from_slice(&mut ys[..n]).into_raw_parts();
                check!(at(&d[..]) == start && d.len() == n * size_of::<T>() && e.num_bytes() == size_of::<T>(), "the parts are the bytes of the elements");
                let mut s = unsafe { SliceCopyMut::from_raw_parts(d, e, t) };
                check!(s.element_type_id() == TypeId::of::<T>() && s.len() == n, "the type, the size and the length are kept");
                if n > 1 { s.rotate_left(1); }
                drop(s);
                let mut i = 0;
                while i < 3 { check!(ys[i] == if i < n { xs[(i + if n > 1 { 1 } else { 0 }) % n] } else { xs[i] }, "the contents are those of the slice"); i += 1; }
            }
            2 => {
                // Parts of a part.
                let (d, e, t) = SliceCopy::<CloneFn>::from_slice(&ys[..]).into_subslice(n..).into_raw_parts();
                check!(at(d) == start + n * size_of::<T>() && d.len() == (3 - n) * size_of::<T>(), "the parts are the bytes of the elements");
                let s = unsafe { SliceCopy::from_raw_parts(d, e, t) };
                check!(s.len() == 3 - n && (n == 3 || s.get(0).downcast::<T>().map(|x| *x == xs[n]).unwrap()), "the contents are kept");
            }
            _ => {
                let v = VecCopy::<CloneFn>::from_vec(vec_of(&xs, 3, n));
                let (d, e, t) = v.as_slice().into_raw_parts();
                let s = unsafe { SliceCopy::from_raw_parts(d, e, t) };
                check!(s.len() == n && s.element_type_id() == TypeId::of::<T>(), "the type and the length are kept");
                let s = s.as_slice::<T>().unwrap();
                let mut i = 0;
                while i < n { check!(s[i] == xs[i], "the contents are kept"); i += 1; }
            }
        }
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 3 && n == 3);
    }) });
}

/// The parts of an owned value: what they say, and who owns it.
fn values<T: Elt>() {
    split!(op in 0, 2 => {
        let (live, alive) = (vp::live(), tally::alive());
        let x = number();
        let boxed = BoxValue::<AllVTable>::new(T::own(x));
        let boxed = match op { 0 => boxed, 1 => { let c = boxed.clone(); drop(boxed); c } _ => { drop(boxed); ValueRef::<AllVTable>::new(&T::own(x)).clone_value() } };
        let (bytes, id, align, _table) = boxed.into_raw_parts();
        check!(bytes.len() == size_of::<T>() && id == TypeId::of::<T>() && align == align_of::<T>(), "the parts say the size, the type and the alignment");
        let b = unsafe { Box::from_raw(Box::into_raw(bytes) as *mut T) };
        check!(b.is(x), "the value is kept");
        drop(b);
        drop(_table);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 2);
    });
}
fn small_values<T: Elt>() {
    split!(op in 0, 2 => {
        let (live, alive) = (vp::live(), tally::alive());
        let x = number();
        let value = SmallValue::<AllVTable>::new(T::own(x));
        let value = match op { 0 => value, 1 => { let c = value.clone(); drop(value); c } _ => { drop(value); ValueRef::<AllVTable>::new(&T::own(x)).clone_small_value() } };
        let (bytes, id, align, table) = value.into_raw_parts();
        check!(id == TypeId::of::<T>() && align == align_of::<T>(), "the parts say the type and the alignment");
        let b: T = unsafe { core::mem::transmute_copy(&bytes) };
        check!(b.is(x), "the value is kept");
        drop(b);
        drop(table);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 2);
    });
}

/// A table, borrowed or owned, and what is made of it.
#[derive(PartialEq, Debug)]
struct Table { b: Box<u32>, n: u64 }
impl Clone for Table { fn clone(&self) -> Table { Table { b: self.b.clone(), n: self.n + 1 } } }
fn tables() {
    split!(op in 0, 7 => {
        let live = vp::live();
        let x = number();
        let mut t = Table { b: Box::new(x), n: 5 };
        macro_rules! is { ($t:expr) => { check!(*$t.b == x && ($t.n == 5 || $t.n == 6), "the table is kept") } }
        match op {
            0 => { let r = VTableRef::from(&t); is!(r.as_ref()); is!((*r)); let o = r.take(); is!(o); }
            1 => { let r = VTableRef::from(&t); let o = r.into_owned(); is!(o); check!(o.n == 6, "a borrowed table is cloned"); }
            2 => {
                let b = Box::new(t);
                let p = &*b as *const Table as usize;
                let o = VTableRef::from(b).into_owned();
                check!(&*o as *const Table as usize == p, "an owned table is handed over");
                is!(o);
                t = *o;
            }
            3 => { let r = VTableRef::from(Box::new(t)); is!(r.as_ref()); t = r.take(); check!(t.n == 5, "an owned table is handed over"); }
            4 => { let r = VTableRef::from(&t); let s = r.clone(); is!(s.as_ref()); check!(s.as_ref() as *const Table == &t as *const Table, "a borrow is of the same table"); }
            5 => { let r = VTableRef::from(Box::new(t)); let s = r.clone(); is!(s.as_ref()); drop(s); is!(r.as_ref()); t = r.take(); }
            6 => { let r: VTableRef<dyn core::any::Any> = VTableRef::from(&t as &dyn core::any::Any); let o: &Table = r.as_ref().downcast_ref().unwrap(); is!(o); }
            _ => { let b = Box::new(t.clone()); check!(VTableRef::from(b.clone()) == VTableRef::Box(b.clone()) && (VTableRef::from(&t) == VTableRef::Box(b)) == false, "tables compare as tables"); }
        }
        is!(t);
        drop(t);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 7);
    });
}

/// What a vector, slice or value says of its element type makes an empty container of that type.
fn metas<T: Elt>() {
    split!(op in 0, 6 => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = [number(), number(), number()];
        let mut a = make::<T>(&xs, 2, 2);
        let mut v = VecDyn::<AllVTable>::from_vec(make::<T>(&xs, 2, 2));
        let mut w: VecDyn<AllVTable> = match op {
            0 => VecDyn::with_type_from(&v),
            1 => VecDyn::with_type_from(v.as_slice()),
            2 => VecDyn::with_type_from(v.as_mut_slice()),
            3 => VecDyn::with_type_from(v.get(1)),
            4 => VecDyn::with_type_from(v.get_mut(1)),
            5 => VecDyn::with_type_from(SliceMut::<AllVTable>::from_slice(&mut a[1..])),
            _ => VecDyn::with_type_from(ValueRef::<AllVTable>::new(&a[0])),
        };
        check!(w.len() == 0 && w.element_type_id() == TypeId::of::<T>() && w.element_size() == size_of::<T>(), "the type is kept");
        check!(w.push_cloned(v.get(1)).is_some() && w.push_as(T::own(xs[2])).is_some() && w.len() == 2, "the container is usable");
        let s = w.as_slice_as::<T>().unwrap();
        check!(s[0].is(xs[1]) && s[1].is(xs[2]) && s.as_ptr() as usize % align_of::<T>() == 0, "the container is usable");
        check!((w.get(0) == w.get(1)) == (xs[1] == xs[2]), "the behaviours are kept");
        drop(w); drop(v); drop(a);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(op == 6);
    });
}

harnesses! {
    #[unwind(6)] fn parts_copy_b3() { copies::<B3>() }
    #[unwind(6)] fn parts_copy_a64() { copies::<A64>() }
    #[unwind(6)] fn parts_vec_d() { vectors::<D>() }
    #[unwind(6)] fn parts_vec_h() { vectors::<H>() }
    #[unwind(6)] fn parts_vec_b3() { vectors::<B3>() }
    #[unwind(6)] fn parts_drop() { each!(parts: B3 u64 A64 W3) }
    #[unwind(6)] fn parts_slice_d() { slices::<D>() }
    #[unwind(6)] fn parts_slice_h() { slices::<H>() }
    #[unwind(6)] fn parts_slice_b3() { slices::<B3>() }
    #[unwind(6)] fn parts_copyslice_b3() { copy_slices::<B3>() }
    #[unwind(6)] fn parts_copyslice_wide() { copy_slices::<Wide>() }
    #[unwind(6)] fn parts_value() { each!(values: D H B3 A64 A2) }
    #[unwind(6)] fn parts_small() { each!(small_values: D u64) }
    #[unwind(6)] fn parts_table() { tables() }
    #[unwind(6)] fn parts_meta_d() { metas::<D>() }
    #[unwind(6)] fn parts_meta_b3() { metas::<B3>() }
    #[unwind(6)] fn parts_meta_wide() { metas::<Wide>() }
    thorough {
        #[unwind(6)] fn parts_copy_u64() { copies::<u64>() }
        #[unwind(6)] fn parts_copy_pad() { copies::<Pad>() }
        #[unwind(6)] fn parts_copy_w3() { copies::<W3>() }
        #[unwind(6)] fn parts_copy_u16() { copies::<u16>() }
        #[unwind(6)] fn parts_copy_wide() { copies::<Wide>() }
        #[unwind(6)] fn parts_copy_a4k() { copies::<A4K>() }
        #[unwind(6)] fn parts_vec_wide() { vectors::<Wide>() }
        #[unwind(6)] fn parts_vec_a64() { vectors::<A64>() }
        #[unwind(6)] fn parts_vec_box() { vectors::<Box<u32>>() }
        #[unwind(6)] fn parts_slice_wide() { slices::<Wide>() }
        #[unwind(6)] fn parts_copyslice_pad() { copy_slices::<Pad>() }
        #[unwind(6)] fn parts_value_more() { split!(i in 0, 2 => { if i == 0 { values::<Box<u32>>() } else if i == 1 { values::<(u8, Box<u32>, u8)>() } else { values::<Wide>() } }) }
        #[unwind(6)] fn parts_small_more() { small_values::<Box<u32>>() }
        #[unwind(6)] fn parts_meta_h() { metas::<H>() }
        #[unwind(6)] fn parts_meta_a64() { metas::<A64>() }
    }
}
