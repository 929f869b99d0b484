//! A clone is equal to and independent of its original.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

type C = VecCopy;
type V = VecDyn<CloneVTable>;

/// Changes one vector; the other one is not told.
fn change_c<T: Sym>(op: usize, v: &mut C, m: &mut Model<T>) {
    let x = T::sym();
    match op {
        0 => { check!(v.push_as(x).is_some(), "push_as"); m.push(x); }
        1 => if m.len > 0 { *v.get_mut_as::<T>(m.len - 1).unwrap() = x; m.a[m.len - 1] = x; },
        2 => { v.clear(); m.len = 0; }
        3 => { check!(v.fill(x).is_some(), "fill"); m.fill(x); }
        4 => { let k = m.len / 2; v.rotate_left(k); m.rotate_left(k); }
        _ => { check!(v.resize(m.len + 1, x).is_some(), "resize"); m.push(x); }
    }
}
fn copies<T: Sym>() {
    split!(op in 0, 5 => { split!(n in 0, 3 => {
        let live = vp::live();
        let xs = arr::<T, 3>();
        let mut v = C::from_vec(vec_of(&xs, n + op % 2, n));
        let mut w = v.clone();
        let (mut m, mut k) = (Model::new(&xs, n), Model::new(&xs, n));
        check!(w.element_type_id() == TypeId::of::<T>() && k.same(w.as_slice_as::<T>().unwrap()), "a clone has the contents of its source");
        if n % 2 == 0 { change_c(op, &mut w, &mut k); } else { change_c(op, &mut v, &mut m); }
        check!(m.same(v.as_slice_as::<T>().unwrap()), "a change of the clone does not touch its source");
        check!(k.same(w.as_slice_as::<T>().unwrap()), "a change of the source does not touch its clone");
        if op % 2 == 0 {
            drop(v);
            check!(k.same(w.as_slice_as::<T>().unwrap()), "a clone outlives its source");
            check!(w.push_as(xs[0]).is_some() && *w.get_ref_as::<T>(k.len).unwrap() == xs[0], "push_as on a clone");
            drop(w);
        } else {
            drop(w);
            check!(m.same(v.as_slice_as::<T>().unwrap()), "a source outlives its clone");
            drop(v);
        }
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 5 && n == 3);
    }) });
}
/// Copying into existing storage.
fn copies_into<T: Sym>(max: usize) {
    split!(op in 0, 3 => { split!(n in 0, max => { split!(k in 0, max => {
        let live = vp::live();
        let xs = arr::<T, 3>();
        let ys = arr::<T, 3>();
        let v = C::from_vec(vec_of(&xs, 3, n));
        let (m, mut t) = (Model::new(&xs, n), Model::new(&ys, k));
        match op {
            0 => {
                let mut w = C::from_vec(vec_of(&ys, k + 1, k));
                w.clone_from(&v);
                check!(m.same(w.as_slice_as::<T>().unwrap()) && w.element_type_id() == TypeId::of::<T>(), "clone_from");
                check!(w.push_as(ys[0]).is_some() && *w.get_ref_as::<T>(n).unwrap() == ys[0], "push_as after clone_from");
            }
            1 => {
                let mut w = C::from_vec(vec_of(&[1u16, 2, 3], 4, k));
                w.clone_from(&v);
                check!(m.same(w.as_slice_as::<T>().unwrap()) && w.element_type_id() == TypeId::of::<T>(), "clone_from over another type");
                check!(w.push_as(ys[0]).is_some() && *w.get_ref_as::<T>(n).unwrap() == ys[0], "push_as after clone_from");
            }
            2 => {
                vp::assume(k == n);
                let mut w = C::from_vec(vec_of(&ys, k, k));
                check!(w.copy_from_slice(&xs[..n]).is_some(), "copy_from_slice");
                check!(m.same(w.as_slice_as::<T>().unwrap()), "copy_from_slice");
            }
            _ => {
                // Part of a vector.
                vp::assume(k < n);
                let mut w = C::from_vec(vec_of(&xs, n, n));
                check!(w.as_mut_slice().subslice_mut(..k).copy_from_slice(&ys[..k]).is_some(), "copy_from_slice");
                while t.len < n { let i = t.len; t.push(xs[i]); }
                check!(t.same(w.as_slice_as::<T>().unwrap()), "copy_from_slice into a part changes that part only");
            }
        }
        check!(m.same(v.as_slice_as::<T>().unwrap()), "the source is unchanged");
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 1 && n == max && k == max);
    }) }) });
}

/// Knows how it was cloned.
pub struct K { pub v: u32, pub how: u8, keep: Box<u8> }
impl K { fn new(v: u32) -> K { K { v, how: 0, keep: Box::new(v as u8) } } }
impl Clone for K {
    fn clone(&self) -> K { K { v: self.v, how: 1, keep: Box::new(*self.keep) } }
    fn clone_from(&mut self, s: &K) { self.v = s.v; self.how = 2; *self.keep = *s.keep; }
}
/// Eight bytes, owned.
#[derive(Clone)]
pub struct P8(Box<u32>);

pub trait El: Clone + 'static {
    fn mk(x: u32) -> Self;
    fn val(&self) -> u32;
    fn set(&mut self, x: u32);
    /// Not the very same object.
    fn other(&self, o: &Self) -> bool;
}
impl El for D {
    fn mk(x: u32) -> D { D::new(x) }
    fn val(&self) -> u32 { check!(tally::drops(self.id) == 0, "a dropped value is not read"); self.v }
    fn set(&mut self, x: u32) { self.v = x }
    fn other(&self, o: &D) -> bool { self.id != o.id }
}
impl El for H {
    fn mk(x: u32) -> H { H::new(x) }
    fn val(&self) -> u32 { check!(self.a == *self.b as u64 + 1 && self.c == *self.b as u8, "the parts of a value stay together"); *self.b }
    fn set(&mut self, x: u32) { self.a = x as u64 + 1; *self.b = x; self.c = x as u8; }
    fn other(&self, o: &H) -> bool { &*self.b as *const u32 != &*o.b as *const u32 }
}
impl El for K {
    fn mk(x: u32) -> K { K::new(x) }
    fn val(&self) -> u32 { self.v }
    fn set(&mut self, x: u32) { self.v = x }
    fn other(&self, o: &K) -> bool { &*self.keep as *const u8 != &*o.keep as *const u8 }
}
impl El for P8 {
    fn mk(x: u32) -> P8 { P8(Box::new(x)) }
    fn val(&self) -> u32 { *self.0 }
    fn set(&mut self, x: u32) { *self.0 = x }
    fn other(&self, o: &P8) -> bool { &*self.0 as *const u32 != &*o.0 as *const u32 }
}
fn vecd<T: El>(xs: &[u32], cap: usize, len: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < len { v.push(T::mk(xs[i])); i += 1; }
    v
}
fn same<T: El>(v: &[T], m: &Model<u32>) -> bool {
    if v.len() != m.len { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < m.len { ok = ok & (v[i].val() == m.a[i]); i += 1; }
    ok
}
fn apart<T: El>(v: &[T], w: &[T]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < v.len() && i < w.len() { ok = ok & v[i].other(&w[i]); i += 1; }
    ok
}
fn change_d<T: El>(op: usize, v: &mut V, m: &mut Model<u32>) {
    let x = vp::any_u32();
    match op {
        0 => { check!(v.push_as(T::mk(x)).is_some(), "push_as"); m.push(x); }
        1 => if m.len > 0 { v.get_mut_as::<T>(m.len - 1).unwrap().set(x); m.a[m.len - 1] = x; },
        2 => { v.clear(); m.len = 0; }
        3 => { for e in v.iter_mut_as::<T>().unwrap() { e.set(x); } m.fill(x); }
        4 => { let k = m.len / 2; v.rotate_left(k); m.rotate_left(k); }
        _ => if m.len > 0 { v.get_mut(0).assign(BoxValue::new(T::mk(x))); m.a[0] = x; },
    }
}
fn clones<T: El>(max: usize) {
    split!(op in 0, 5 => { split!(n in 0, max => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = arr::<u32, 3>();
        let mut v = V::from_vec(vecd::<T>(&xs, n + op % 2, n));
        let mut w = v.clone();
        let (mut m, mut k) = (Model::new(&xs, n), Model::new(&xs, n));
        check!(w.element_type_id() == TypeId::of::<T>() && same(w.as_slice_as::<T>().unwrap(), &k), "a clone has the contents of its source");
        check!(apart(v.as_slice_as::<T>().unwrap(), w.as_slice_as::<T>().unwrap()), "every element is cloned");
        if n % 2 == 0 { change_d::<T>(op, &mut w, &mut k); } else { change_d::<T>(op, &mut v, &mut m); }
        check!(same(v.as_slice_as::<T>().unwrap(), &m), "a change of the clone does not touch its source");
        check!(same(w.as_slice_as::<T>().unwrap(), &k), "a change of the source does not touch its clone");
        if op % 2 == 0 {
            drop(v);
            check!(same(w.as_slice_as::<T>().unwrap(), &k), "a clone outlives its source");
            let z = w.into_vec::<T>().unwrap();
            check!(same(&z, &k), "a clone outlives its source");
        } else {
            drop(w);
            check!(same(v.as_slice_as::<T>().unwrap(), &m), "a source outlives its clone");
            drop(v);
        }
        check!(vp::live() == live && tally::alive() == alive, "nothing leaks");
        witness!(op == 5 && n == max);
    }) });
}
/// Every other way to clone elements out of, or into, a container.
fn clones_via<T: El>(lo: usize, hi: usize, max: usize) {
    split!(op in lo, hi => { split!(n in 0, max => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = arr::<u32, 3>();
        let y = vp::any_u32();
        let mut v = V::from_vec(vecd::<T>(&xs, n, n));
        let m = Model::new(&xs, n);
        let mut out = vecd::<T>(&[y], 1, 1);
        match op {
            0 => { out = v.clone_into_vec::<T>().unwrap(); check!(same(&out, &m), "clone_into_vec"); }
            1 => { check!(v.append_cloned_to_vec(&mut out).is_some(), "append_cloned_to_vec"); check!(out[0].val() == y && same(&out[1..], &m), "append_cloned_to_vec"); out.remove(0); }
            2 => { out = v.as_slice().clone_into_vec::<T>().unwrap(); check!(same(&out, &m), "clone_into_vec of a slice"); }
            3 => { check!(v.as_slice().append_clone_to_vec(&mut out).is_some(), "append_clone_to_vec"); check!(out[0].val() == y && same(&out[1..], &m), "append_clone_to_vec"); out.remove(0); }
            4 => { out = v.as_mut_slice().clone_into_vec::<T>().unwrap(); check!(same(&out, &m), "clone_into_vec of a mutable slice"); }
            5 => { check!(v.as_mut_slice().append_clone_to_vec(&mut out).is_some(), "append_clone_to_vec"); check!(out[0].val() == y && same(&out[1..], &m), "append_clone_to_vec"); out.remove(0); }
            6 => {
                out = vecd::<T>(&[y, y, y], n, n);
                check!(SliceMut::<CloneVTable>::from_slice(&mut out[..]).clone_from_slice(v.as_slice_as::<T>().unwrap()).is_some(), "clone_from_slice");
                check!(same(&out, &m), "clone_from_slice");
            }
            7 => { let w = V::from_slice(v.as_slice_as::<T>().unwrap()); out = w.into_vec().unwrap(); check!(same(&out, &m), "from_slice"); }
            8 => {
                let mut w = V::with_type::<T>();
                let mut i = 0;
                while i < n { check!(w.push_cloned(v.get(i)).is_some(), "push_cloned"); i += 1; }
                out = w.into_vec().unwrap();
                check!(same(&out, &m), "push_cloned");
            }
            _ => {
                let mut w = V::from_vec(vecd::<T>(&[y, y], n, n));
                w.clone_from(&v);
                out = w.into_vec().unwrap();
                check!(same(&out, &m), "clone_from");
            }
        }
        check!(apart(v.as_slice_as::<T>().unwrap(), &out[..]), "every element is cloned");
        if n > 0 { out[0].set(y); }
        check!(same(v.as_slice_as::<T>().unwrap(), &m), "the source is unchanged");
        drop(out);
        check!(same(v.as_slice_as::<T>().unwrap(), &m), "the source is unchanged");
        drop(v);
        check!(vp::live() == live && tally::alive() == alive, "nothing leaks");
        witness!(op == hi && n == max);
    }) });
}
fn values<T: El>(small: bool) {
    split!(op in 0, 8 => {
        let (live, alive) = (vp::live(), tally::alive());
        let (x, y) = (vp::any_u32(), vp::any_u32());
        vp::assume(small || op < 5);
        let mut t = T::mk(x);
        let c: Option<T> = match op {
            0 => { let b = BoxValue::<CloneVTable>::new(t.clone()); let c = b.clone(); drop(b); Some(*c.downcast::<T>().unwrap()) }
            1 => { let b = BoxValue::<CloneVTable>::new(t.clone()); let mut c = b.clone(); c.as_mut().downcast::<T>().unwrap().set(y); drop(c); Some(*b.downcast::<T>().unwrap()) }
            2 => { let c = ValueRef::<CloneVTable>::new(&t).clone_value(); Some(*c.downcast::<T>().unwrap()) }
            3 => { let c = ValueMut::<CloneVTable>::new(&mut t).clone_value(); Some(*c.downcast::<T>().unwrap()) }
            4 => { let mut u = T::mk(y); check!(ValueMut::<CloneVTable>::new(&mut u).clone_from_other(ValueRef::new(&t)).is_ok(), "clone_from_other"); Some(u) }
            5 => { let b = SmallValue::<CloneVTable>::new(t.clone()); let c = b.clone(); drop(b); c.downcast::<T>() }
            6 => { let b = SmallValue::<CloneVTable>::new(t.clone()); let mut c = b.clone(); c.as_mut().downcast::<T>().unwrap().set(y); drop(c); b.downcast::<T>() }
            7 => { let c = ValueRef::<CloneVTable>::new(&t).clone_small_value(); c.downcast::<T>() }
            _ => { let c = ValueMut::<CloneVTable>::new(&mut t).clone_small_value(); c.downcast::<T>() }
        };
        let mut c = c.unwrap();
        check!(c.val() == x && t.val() == x && c.other(&t), "a cloned value is another, equal value");
        c.set(y);
        check!(t.val() == x, "a change of the clone does not touch its source");
        t.set(!y);
        check!(c.val() == y, "a change of the source does not touch its clone");
        drop(t);
        check!(c.val() == y, "a clone outlives its source");
        drop(c);
        check!(vp::live() == live && tally::alive() == alive, "nothing leaks");
        witness!(op == 4);
    });
}
/// The element type's own clone and clone_from are used.
fn own_clone() {
    split!(op in 0, 4 => {
        let (x, y) = (vp::any_u32(), vp::any_u32());
        let t = K::new(x);
        let (r, how) = match op {
            0 => { let v = V::from_vec(vec![K::new(x)]); (v.clone().into_vec::<K>().unwrap().remove(0), 1) }
            1 => (*ValueRef::<CloneVTable>::new(&t).clone_value().downcast::<K>().unwrap(), 1),
            2 => { let mut u = K::new(y); check!(ValueMut::<CloneVTable>::new(&mut u).clone_from_other(ValueRef::new(&t)).is_ok(), "clone_from_other"); (u, 2) }
            3 => { let mut v = V::with_type::<K>(); check!(v.push_cloned(ValueRef::new(&t)).is_some(), "push_cloned"); (v.into_vec::<K>().unwrap().remove(0), 1) }
            _ => { let b = BoxValue::<CloneVTable>::new(K::new(x)); (*b.clone().downcast::<K>().unwrap(), 1) }
        };
        check!(r.v == x && r.how == how && *r.keep == x as u8, "the element type's own clone is used");
        witness!(op == 4);
    });
}

/// Many elements.
fn long() {
    const N: usize = 17;
    split!(how in 0, 2 => {
        let (live, alive) = (vp::live(), tally::alive());
        let xs = arr::<u32, N>();
        let (i, x) = (vp::upto(N - 1), vp::any_u32());
        if how < 2 {
            let mut v = C::from_vec(vec_of(&xs, N, N));
            let mut w = if how == 0 { v.clone() } else { let mut w = C::from_vec(vec_of(&xs, N + 3, N)); check!(w.fill(x).is_some(), "fill"); w.clone_from(&v); w };
            check!(w.as_slice_as::<u32>().unwrap() == &xs[..], "a clone has the contents of its source");
            *w.get_mut_as::<u32>(i).unwrap() = x;
            check!(v.as_slice_as::<u32>().unwrap() == &xs[..] && w.get_as::<u32>(i).unwrap() == x, "a change of the clone does not touch its source");
            drop(v);
        } else {
            let mut t = Vec::with_capacity(N);
            let mut k = 0;
            while k < N { t.push(D::new(xs[k])); k += 1; }
            let v = V::from_vec(t);
            let mut w = v.clone();
            let s = w.as_mut_slice_as::<D>().unwrap();
            check!(s.len() == N, "a clone has the length of its source");
            k = 0;
            while k < N { check!(s[k].v == xs[k] && s[k].id != v.get_ref_as::<D>(k).unwrap().id, "every element is cloned"); k += 1; }
            s[i].v = x;
            check!(v.get_ref_as::<D>(i).unwrap().v == xs[i], "a change of the clone does not touch its source");
            drop(v);
            k = 0;
            while k < N { check!(w.get_ref_as::<D>(k).unwrap().v == if k == i { x } else { xs[k] }, "a clone outlives its source"); k += 1; }
        }
        check!(vp::live() == live && tally::alive() == alive, "nothing leaks");
        witness!(how == 2);
    });
}

harnesses! {
#[unwind(40)] fn cl_long() { long() }
#[unwind(30)] fn cl_copy_b3() { copies::<B3>() }
#[unwind(30)] fn cl_copy_pad() { copies::<Pad>() }
#[unwind(30)] fn cl_into_h3() { copies_into::<H3>(2) }
#[unwind(40)] fn cl_dyn_d() { clones::<D>(3) }
#[unwind(40)] fn cl_dyn_h() { clones::<H>(2) }
#[unwind(40)] fn cl_via_d() { clones_via::<D>(0, 9, 2) }
#[unwind(40)] fn cl_via_h() { clones_via::<H>(0, 9, 1) }
#[unwind(40)] fn cl_val_p8() { values::<P8>(true) }
#[unwind(40)] fn cl_val_d() { values::<D>(true) }
#[unwind(40)] fn cl_val_h() { values::<H>(false) }
#[unwind(40)] fn cl_own() { own_clone() }
thorough {
#[unwind(100)] fn cl_copy_wide() { copies::<Wide>() }
#[unwind(40)] fn cl_copy_u8() { copies::<u8>() }
#[unwind(40)] fn cl_copy_u128() { copies::<u128>() }
#[unwind(40)] fn cl_into_b3_4() { copies_into::<B3>(4) }
#[unwind(100)] fn cl_into_wide() { copies_into::<Wide>(3) }
#[unwind(40)] fn cl_into_u64() { copies_into::<u64>(4) }
#[unwind(40)] fn cl_dyn_h4() { clones::<H>(4) }
#[unwind(40)] fn cl_dyn_p8() { clones::<P8>(4) }
#[unwind(40)] fn cl_dyn_k() { clones::<K>(3) }
#[unwind(40)] fn cl_via_h_a() { clones_via::<H>(0, 4, 3) }
#[unwind(40)] fn cl_via_h_b() { clones_via::<H>(5, 9, 3) }
#[unwind(40)] fn cl_via_p8() { clones_via::<P8>(0, 9, 3) }
#[unwind(40)] fn cl_via_k() { clones_via::<K>(0, 9, 2) }
#[unwind(40)] fn cl_val_k() { values::<K>(false) }
}
}
