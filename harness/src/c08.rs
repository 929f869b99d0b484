//! Untyped insertion and transfer move whole elements, byte for byte.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{size_of, MaybeUninit};

type C = VecCopy;

fn full<T: Sym>(v: &C, m: &Model<T>) {
    check!(v.len() == m.len && v.is_empty() == (m.len == 0), "the number of elements");
    check!(v.element_type_id() == TypeId::of::<T>(), "the element type");
    check!(m.same(v.as_slice_as::<T>().unwrap()), "the elements are complete and in order");
}

/// Elements pushed one by one, from every kind of untyped reference.
fn pushes<T: Sym>(min: usize, max: usize) {
    split!(how in 0, 5 => { split!(n in min, max => {
        let live = vp::live();
        let xs = arr::<T, 4>();
        let mut ys = arr::<T, 3>();
        let zs = ys;
        let mut v: C = match how { 0 if n == 0 => C::with_type::<T>(), 1 if n == 0 => C::with_capacity::<T>(3), _ => C::from_vec(vec_of(&xs, n + how % 2, n)) };
        let mut m = Model::new(&xs, n);
        let mut w: C = C::from_slice(&ys[..]);
        let mut i = 0;
        while i < 3 {
            let r = match how {
                0 => v.push(CopyValueRef::<()>::new(&ys[i])).is_some(),
                1 => v.push(w.get_ref(i)).is_some(),
                2 => v.push(SliceCopy::<()>::from_slice(&ys[..]).get(i)).is_some(),
                3 => v.push(CopyValueRef::from(CopyValueMut::<()>::new(&mut ys[i]))).is_some(),
                4 => v.push(CopyValueRef::from(w.get_mut(i))).is_some(),
                // An element of the vector itself, by way of a copy.
                _ => { let c = v.clone(); if n > 0 { m.push(xs[0]); v.push(c.get_ref(0)).is_some() } else { m.push(zs[i]); v.push_as(zs[i]).is_some() } }
            };
            check!(r, "push takes a value of the element type");
            if how < 5 { m.push(zs[i]); }
            full(&v, &m);
            i += 1;
        }
        check!(Model::new(&zs, 3).same(&ys[..]) && Model::new(&zs, 3).same(w.as_slice_as::<T>().unwrap()), "the source is unchanged");
        witness!(n == max && how == 4);
        drop(v);
        drop(w);
        check!(vp::live() == live, "nothing leaks");
    }) });
}
/// Many elements at once.
fn extends<T: Sym>(lo: usize, hi: usize, max: usize) {
    split!(how in lo, hi => { split!(n in 0, max => { split!(k in 0, max => {
        let live = vp::live();
        let xs = arr::<T, 4>();
        let mut ys = arr::<T, 4>();
        let zs = ys;
        let mut v: C = C::from_vec(vec_of(&xs, n, n));
        let mut w: C = C::from_vec(vec_of(&ys, k + 1, k));
        let mut m = Model::new(&xs, n);
        let mut o = Model::new(&zs, k);
        match how {
            0 => { v.extend(w.iter()); }
            1 => { v.extend(w.as_slice().iter()); }
            2 => { v.extend(w.as_slice().into_iter()); }
            3 => { v.extend(w.iter_mut().map(CopyValueRef::from)); }
            4 => { v.extend(SliceCopyMut::<()>::from_slice(&mut ys[..k]).into_iter().map(CopyValueRef::from)); }
            // An iterator that does not know how many there are.
            5 => { let mut i = 0; v.extend(w.iter().filter(|_| { i += 1; i != 2 })); }
            6 => {
                if k == 0 { vp::end() }
                let mut c: C = w.iter().collect();
                let mut mm = o;
                full(&c, &mm);
                check!(c.push_as(zs[2]).is_some(), "push_as");
                mm.push(zs[2]);
                full(&c, &mm);
            }
            _ => {
                check!(v.append(&mut w).is_some(), "append");
                m.append(&mut o);
                full(&v, &m);
                full(&w, &o);
                // The drained vector is as good as new.
                check!(w.push_as(zs[0]).is_some(), "push_as");
                o.push(zs[0]);
            }
        }
        if how < 5 { let mut oo = o; m.append(&mut oo); }
        if how == 5 { let mut i = 0; while i < k { if i != 1 { m.push(zs[i]); } i += 1; } }
        full(&v, &m);
        full(&w, &o);
        check!(Model::new(&zs, 4).same(&ys[..]), "the source is unchanged");
        witness!(how == hi && n == max && k == max);
        drop(w);
        full(&v, &m);
        check!(v.push_as(zs[3]).is_some(), "push_as");
        m.push(zs[3]);
        full(&v, &m);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    }) }) });
}
fn bytes_of<T: Sym>(x: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(x as *const T as *const u8, size_of::<T>()) }
}
fn same_bytes(a: &[MaybeUninit<u8>], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < b.len() { ok = ok & (unsafe { a[i].assume_init() } == b[i]); i += 1; }
    ok
}
/// What the byte views show, and what writing through them changes. For types without padding.
fn bytes<T: Sym>() {
    split!(how in 0, 4 => { split!(n in 0, 3 => {
        let xs = arr::<T, 4>();
        let y = T::sym();
        let v: C = C::from_vec(vec_of(&xs, n + 1, n));
        let (mut d, t) = v.into_raw_parts();
        let mut m = Model::new(&xs, n);
        let mut i = 0;
        match how {
            0 => { while i < n { check!(same_bytes(d.get_bytes(i), bytes_of(&xs[i])), "get_bytes"); i += 1; } }
            1 => { for b in d.byte_chunks() { check!(i < n && same_bytes(b, bytes_of(&xs[i])), "byte_chunks"); i += 1; } }
            2 => { for b in unsafe { d.byte_chunks_mut() } { check!(i < n && same_bytes(b, bytes_of(&xs[i])), "byte_chunks_mut"); i += 1; } }
            3 => {
                for b in unsafe { d.byte_chunks_mut() } {
                    if i == n / 2 { let mut j = 0; while j < b.len() { b[j] = MaybeUninit::new(bytes_of(&y)[j]); j += 1; } m.a[i] = y; }
                    i += 1;
                }
            }
            _ => {
                if n > 0 {
                    let b = unsafe { d.get_bytes_mut(n - 1) };
                    check!(same_bytes(b, bytes_of(&xs[n - 1])), "get_bytes_mut");
                    let mut j = 0;
                    while j < b.len() { b[j] = MaybeUninit::new(bytes_of(&y)[j]); j += 1; }
                    m.a[n - 1] = y;
                }
                i = n;
            }
        }
        check!(i == n, "the number of byte views");
        let v: C = unsafe { VecCopy::from_raw_parts(d, t) };
        full(&v, &m);
        witness!(n == 3 && how == 4);
    }) });
}
/// Copies between elements.
fn copies<T: Sym>(lo: usize, hi: usize) {
    split!(how in lo, hi => { split!(i in 0, 2 => { split!(j in 0, 2 => {
        let xs = arr::<T, 3>();
        let mut ys = arr::<T, 3>();
        let mut v: C = C::from_slice(&xs[..]);
        let mut w: C = C::from_slice(&ys[..]);
        let (mut m, mut o) = (Model::new(&xs, 3), Model::new(&ys, 3));
        match how {
            0 => { check!(v.get_mut(i).copy(w.get_ref(j)).is_some(), "copy"); m.a[i] = o.a[j]; }
            1 => { check!(v.as_mut_slice().get_mut(i).copy(w.as_slice().get(j)).is_some(), "copy"); m.a[i] = o.a[j]; }
            2 => { v.get_mut(i).swap(&mut w.get_mut(j)); let t = m.a[i]; m.a[i] = o.a[j]; o.a[j] = t; }
            3 => { v.as_mut_slice().swap(i, j); let t = m.a[i]; m.a[i] = m.a[j]; m.a[j] = t; }
            4 => {
                let mut k = 0;
                for mut x in v.iter_mut() { if k == i { x.swap(&mut CopyValueMut::new(&mut ys[j])); } k += 1; }
                let t = m.a[i]; m.a[i] = o.a[j];
                check!(ys[j] == t, "swap");
            }
            _ => {
                vp::assume(i == j);
                for (x, y) in v.iter_mut().zip(w.iter()) { check!(x.copy(y).is_some(), "copy"); }
                m = o;
            }
        }
        full(&v, &m);
        full(&w, &o);
        witness!(how == hi && i == 2);
    }) }) });
}
/// Owned elements, moved as bytes.
pub trait El: Clone + 'static { fn mk(x: u32) -> Self; fn val(&self) -> u32; }
impl El for D { fn mk(x: u32) -> D { D::new(x) } fn val(&self) -> u32 { check!(tally::drops(self.id) == 0, "a dropped value is not read"); self.v } }
impl El for H { fn mk(x: u32) -> H { H::new(x) } fn val(&self) -> u32 { check!(self.a == *self.b as u64 + 1 && self.c == *self.b as u8, "the parts of a value stay together"); *self.b } }
#[derive(Clone)]
pub struct P8(Box<u32>);
impl El for P8 { fn mk(x: u32) -> P8 { P8(Box::new(x)) } fn val(&self) -> u32 { *self.0 } }
/// Three bytes, counted.
#[repr(C)]
pub struct D3 { v: [u8; 2], id: u8 }
impl El for D3 { fn mk(x: u32) -> D3 { D3 { v: [x as u8, (x >> 8) as u8], id: tally::make() as u8 } } fn val(&self) -> u32 { check!(tally::drops(self.id as u32) == 0, "a dropped value is not read"); self.v[0] as u32 | (self.v[1] as u32) << 8 } }
impl Drop for D3 { fn drop(&mut self) { tally::dropped(self.id as u32) } }
impl Clone for D3 { fn clone(&self) -> D3 { D3 { v: self.v, id: tally::make() as u8 } } }
/// Over-aligned, several units long, owning.
#[repr(C, align(16))]
pub struct Big { a: u64, b: Box<u32>, c: [u32; 6] }
impl El for Big {
    fn mk(x: u32) -> Big { Big { a: x as u64, b: Box::new(x), c: [x; 6] } }
    fn val(&self) -> u32 { check!(self.a == *self.b as u64 && self.c[0] == *self.b && self.c[5] == *self.b && self.c[3] == *self.b, "the parts of a value stay together"); *self.b }
}
impl Clone for Big { fn clone(&self) -> Big { Big::mk(*self.b) } }
fn fulld<T: El>(v: &VecDyn<CloneVTable>, m: &Model<u32>) {
    check!(v.len() == m.len && v.element_type_id() == TypeId::of::<T>(), "the number and type of the elements");
    let s = v.as_slice_as::<T>().unwrap();
    let mut i = 0;
    while i < m.len { check!(s[i].val() == m.a[i], "the elements are complete and in order"); i += 1; }
}
fn owned<T: El>(mask: u32, max: usize) {
    split!(how in 0, 4 => { split!(n in 0, max => { split!(k in 0, max => {
        let (live, alive) = (vp::live(), tally::alive());
        let mut xs = arr::<u32, 3>();
        let mut ys = arr::<u32, 3>();
        let mut i = 0;
        while i < 3 { xs[i] &= mask; ys[i] &= mask; i += 1; }
        let mk = |a: &[u32; 3], n: usize| { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(T::mk(a[i])); i += 1; } v };
        let mut v: VecDyn<CloneVTable> = VecDyn::from_vec(mk(&xs, n));
        let mut w: VecDyn<CloneVTable> = VecDyn::from_vec(mk(&ys, k));
        let (mut m, mut o) = (Model::new(&xs, n), Model::new(&ys, k));
        match how {
            0 => { let mut i = 0; while i < k { check!(v.push(BoxValue::<DropVTable>::new(T::mk(ys[i]))).is_some(), "push"); m.push(ys[i]); i += 1; } }
            1 => { let mut i = 0; while i < k { check!(v.push(w.get(i).clone_value()).is_some(), "push"); m.push(ys[i]); i += 1; } }
            2 => { for x in w.iter() { check!(v.push_cloned(x).is_some(), "push_cloned"); } let mut oo = o; m.append(&mut oo); }
            3 => { for x in w.iter_mut() { check!(v.push_cloned(ValueRef::from(x)).is_some(), "push_cloned"); } let mut oo = o; m.append(&mut oo); }
            _ => {
                check!(v.append(&mut w).is_some(), "append");
                m.append(&mut o);
                fulld::<T>(&w, &o);
                check!(w.push_as(T::mk(ys[0])).is_some(), "push_as");
                o.push(ys[0]);
            }
        }
        fulld::<T>(&v, &m);
        fulld::<T>(&w, &o);
        drop(w);
        fulld::<T>(&v, &m);
        drop(v);
        check!(vp::live() == live && tally::alive() == alive, "nothing leaks");
        witness!(how == 4 && n == max && k == max);
    }) }) });
}

/// Many elements.
fn long<T: Sym>() {
    const N: usize = 13;
    split!(how in 0, 5 => {
        let live = vp::live();
        let xs = arr::<T, N>();
        let mut ys = xs;
        let mut v = C::with_type::<T>();
        let mut w = C::from_slice(&xs[..]);
        let mut start = 0;
        match how {
            0 => v.extend(w.iter()),
            1 => { let mut i = 0; while i < N { check!(v.push(w.get_ref(i)).is_some(), "push"); i += 1; } }
            2 => { v = w.as_slice().iter().collect(); }
            3 => { start = 3; check!(v.resize(3, xs[0]).is_some() && v.append(&mut w).is_some() && w.len() == 0, "append"); }
            4 => {
                check!(v.resize(N, xs[0]).is_some(), "resize");
                let mut i = 0;
                while i < N { check!(v.get_mut(i).copy(w.get_ref(i)).is_some(), "copy"); i += 1; }
            }
            _ => {
                let mut i = 0;
                let mut s = SliceCopyMut::<()>::from_slice(&mut ys[..]);
                s.rotate_left(2);
                for e in s.iter() { check!(v.push(e.into()).is_some(), "push"); i += 1; }
                check!(i == N, "every element is visited");
                v.rotate_right(2);
            }
        }
        let s = v.as_slice_as::<T>().unwrap();
        check!(s.len() == N + start && v.len() == N + start, "the number of elements");
        let mut i = 0;
        while i < N { check!(s[i + start] == xs[i], "the elements are complete and in order"); i += 1; }
        drop(v);
        drop(w);
        check!(vp::live() == live, "nothing leaks");
        witness!(how == 5);
    });
}

harnesses! {
#[unwind(40)] fn mv_long_h3() { long::<H3>() }
#[unwind(20)] fn mv_push_b3() { pushes::<B3>(0, 1) }
#[unwind(20)] fn mv_push_w3() { pushes::<W3>(1, 1) }
#[unwind(20)] fn mv_ext_h3() { extends::<H3>(0, 3, 1) }
#[unwind(20)] fn mv_ext2_h3() { extends::<H3>(4, 5, 1) }
#[unwind(20)] fn mv_ext3_b3() { extends::<B3>(6, 6, 1) }
#[unwind(20)] fn mv_ext_h3app() { extends::<H3>(7, 7, 2) }
#[unwind(20)] fn mv_bytes_h3() { bytes::<H3>() }
#[unwind(20)] fn mv_bytes_u64() { bytes::<u64>() }
#[unwind(20)] fn mv_copy_h3() { copies::<H3>(0, 2) }
#[unwind(20)] fn mv_copy2_h3() { copies::<H3>(3, 5) }
#[unwind(20)] fn mv_own_d3() { owned::<D3>(0xffff, 1) }
#[unwind(20)] fn mv_own_h() { owned::<H>(!0, 1) }
thorough {
#[unwind(100)] fn mv_long_wide() { long::<Wide>() }
#[unwind(40)] fn mv_long_u8() { long::<u8>() }
#[unwind(170)] fn mv_bytes_huge() { bytes::<Huge>() }
#[unwind(20)] fn mv_push2_b3() { pushes::<B3>(0, 2) }
#[unwind(100)] fn mv_push_wide() { pushes::<Wide>(0, 2) }
#[unwind(20)] fn mv_push_u8() { pushes::<u8>(0, 3) }
#[unwind(20)] fn mv_push_pad() { pushes::<Pad>(0, 2) }
#[unwind(20)] fn mv_push_u128() { pushes::<u128>(0, 2) }
#[unwind(100)] fn mv_ext_wide() { extends::<Wide>(0, 3, 1) }
#[unwind(100)] fn mv_ext2_wide() { extends::<Wide>(4, 7, 1) }
#[unwind(20)] fn mv_ext_b3() { extends::<B3>(0, 1, 2) }
#[unwind(20)] fn mv_ext2_b3() { extends::<B3>(2, 3, 2) }
#[unwind(20)] fn mv_ext5_b3() { extends::<B3>(4, 5, 2) }
#[unwind(20)] fn mv_ext4_b3() { extends::<B3>(6, 7, 2) }
#[unwind(20)] fn mv_ext_pad() { extends::<Pad>(0, 3, 1) }
#[unwind(20)] fn mv_ext2_pad() { extends::<Pad>(4, 7, 1) }
#[unwind(20)] fn mv_push2_w3() { pushes::<W3>(0, 2) }
#[unwind(20)] fn mv_copy_w3() { copies::<W3>(0, 5) }
#[unwind(20)] fn mv_bytes_u8() { bytes::<u8>() }
#[unwind(20)] fn mv_bytes_w3() { bytes::<W3>() }
#[unwind(20)] fn mv_bytes_u128() { bytes::<u128>() }
#[unwind(100)] fn mv_copy_wide() { copies::<Wide>(0, 5) }
#[unwind(20)] fn mv_copy_b3() { copies::<B3>(0, 5) }
#[unwind(20)] fn mv_own_d() { owned::<D>(!0, 2) }
#[unwind(20)] fn mv_own_p8() { owned::<P8>(!0, 2) }
#[unwind(20)] fn mv_own_h2() { owned::<H>(!0, 2) }
#[unwind(20)] fn mv_own_big() { owned::<Big>(!0, 2) }
}
}
