//! Histories: every sequence of several operations, on two vectors and two values, against plain Vecs.
//! Nothing panics here. After each operation the contents are compared; in the end everything is gone.
use crate::vecs::{typed, V};
use crate::*;
use dync::traits::DropVTable;

pub fn agrees<T: Elt>(v: &V, m: &[u8]) {
    check(v.len() == m.len() && v.is_empty() == m.is_empty(), "length");
    check(v.element_type_id() == std::any::TypeId::of::<T>(), "element type");
    let s = v.as_slice_as::<T>();
    check(s.is_some(), "the elements are of their type");
    let mut i = 0;
    for x in s.unwrap() { check(x.see() == m[i], "an element differs from the Vec's"); i += 1 }
    if i > 0 { check(v.get(i - 1).downcast::<T>().unwrap().see() == m[i - 1], "the last element") }
}

/// Two elements, and the Vec they stand for.
fn pair<T: Elt>() -> (V, Vec<u8>) where AllVTable: VTable<T> {
    let (x, y) = (any(), any());
    let mut t: Vec<T> = Vec::with_capacity(3);
    t.push(T::new(x));
    t.push(T::new(y));
    (V::from_vec(t), vec![x, y])
}

pub const VEC_OPS: u8 = 19;
pub fn vec_step<T: Elt>(op: u8, v: &mut V, m: &mut Vec<u8>, w: &mut V, k: &mut Vec<u8>) where AllVTable: VTable<T> {
    let x = any();
    let n = m.len();
    match op {
        0 => { check(v.push_as(T::new(x)).is_some(), "push_as"); m.push(x) }
        1 => { check(v.push(BoxValue::<AllVTable>::new(T::new(x))).is_some(), "push"); m.push(x) }
        2 => { let t = T::new(x); check(v.push_cloned(ValueRef::new(&t)).is_some(), "push_cloned"); check(t.see() == x, "the source of push_cloned"); m.push(x) }
        3 => { check(v.resize(n + 2, T::new(x)).is_some(), "resize"); m.resize(n + 2, x) }
        4 => { check(v.resize(n / 2, T::new(x)).is_some(), "resize"); m.truncate(n / 2) }
        5 => { check(v.fill(T::new(x)).is_some(), "fill"); for e in m.iter_mut() { *e = x } }
        6 => { check(v.append(w).is_some(), "append"); m.append(k) }
        7 => { std::mem::swap(v, w); std::mem::swap(m, k) }
        8 => { *w = v.clone(); k.clone_from(m) }
        9 => { v.rotate_left((n + 1) / 2); m.rotate_left((n + 1) / 2) }
        10 => { v.rotate_right(n / 3); m.rotate_right(n / 3) }
        11 => if n > 0 { v.get_mut(n - 1).assign(BoxValue::new(T::new(x))); m[n - 1] = x },
        12 => if n > 0 && k.len() > 0 { v.get_mut(0).clone_from_other(w.get(k.len() - 1)); m[0] = k[k.len() - 1] },
        13 => if n > 0 && k.len() > 0 { v.get_mut(n - 1).swap(&mut w.get_mut(0)); std::mem::swap(&mut m[n - 1], &mut k[0]) },
        14 => {
            let u = std::mem::replace(v, V::with_type::<T>());
            let mut t = u.into_vec::<T>().unwrap();
            if n > 0 { check(t.pop().unwrap().see() == m.pop().unwrap(), "the Vec's last element") }
            t.insert(0, T::new(x));
            m.insert(0, x);
            *v = V::from_vec(t)
        }
        15 => { v.clear(); m.clear() }
        16 => if n > 1 { v.as_mut_slice().swap(0, n - 1); m.swap(0, n - 1) },
        17 => {
            let (raw, table) = std::mem::replace(v, V::with_capacity::<T>(1)).into_raw_parts();
            *v = unsafe { V::from_raw_parts(raw, table) }
        }
        18 => {
            check(v.push_as(7u16).is_none() && v.push(other()).is_none(), "another type is refused");
            check(v.resize(1, Other(S8::new(2))).is_none() && v.as_slice_as::<Other>().is_none(), "another type is refused")
        }
        _ => if k.len() > 0 { v.push(w.get(0).clone_value()); m.push(k[0]) },
    }
}

/// Every history of `depth` operations on two vectors.
pub fn vectors<T: Elt>(depth: u8) where AllVTable: VTable<T> {
    {
        let (mut v, mut m) = pair::<T>();
        let (mut w, mut k) = (V::with_type::<T>(), Vec::new());
        let mut i = 0;
        while i < depth {
            vec_step::<T>(choose(0, VEC_OPS), &mut v, &mut m, &mut w, &mut k);
            agrees::<T>(&v, &m);
            agrees::<T>(&w, &k);
            i += 1
        }
        let t = v.into_vec::<T>().unwrap();
        check(t.len() == m.len(), "as many elements as the Vec");
        let mut i = 0;
        for x in t { check(x.see() == m[i], "an element moved out differs from the Vec's"); i += 1 }
    }
    crate::vecs::end();
}

#[repr(C)]
#[derive(Clone, PartialEq, Hash, Debug)]
pub struct Other(S8);
impl All for Other {}
fn other() -> BoxValue<AllVTable> { BoxValue::new(Other(S8::new(9))) }

const VALUE_OPS: u8 = 19;
/// Every history of `depth` operations on two values and a vector.
pub fn values<T: Elt>(depth: u8) where AllVTable: VTable<T> {
    type B = BoxValue<AllVTable>;
    fn is<T: Elt>(b: &Option<B>, m: Option<u8>) {
        check(b.is_some() == m.is_some(), "a value is there, or not");
        if let Some(b) = b {
            let t = b.as_ref().downcast::<T>();
            check(t.is_some(), "a value keeps its type");
            check(t.unwrap().see() == m.unwrap(), "a value keeps its content")
        }
    }
    {
        let (x, y) = (any(), any());
        let (mut a, mut p) = (Some(B::new(T::new(x))), Some(x));
        let (mut b, mut q): (Option<B>, Option<u8>) = (Some(B::new(T::new(y))), Some(y));
        let (mut v, mut m) = (V::with_type::<T>(), Vec::new());
        v.push_as(T::new(x));
        m.push(x);
        let mut i = 0;
        while i < depth {
            let z = any();
            let n = m.len();
            match choose(0, VALUE_OPS) {
                0 => { a = Some(B::new(T::new(z))); p = Some(z) }
                1 => { b = a.clone(); q = p }
                2 => if let (Some(s), Some(_)) = (&mut a, &b) { s.as_mut().assign(b.take().unwrap()); p = q.take() },
                3 => if let (Some(s), Some(t)) = (&mut a, &mut b) { s.as_mut().swap(&mut t.as_mut()); std::mem::swap(&mut p, &mut q) },
                4 => if let (Some(s), Some(t)) = (&mut a, &b) { s.as_mut().clone_from_other(t.as_ref()); p = q },
                5 => if let Some(s) = a.take() { let t = s.downcast::<T>().unwrap(); check(t.see() == p.unwrap(), "taken back"); a = Some(BoxValue::new(*t)) },
                6 => if let Some(s) = a.take() { p = None; check(s.downcast::<Other>().is_none(), "a wrong type is refused") },
                7 => if let Some(s) = a.take() { check(v.push(s).is_some(), "push"); m.push(p.take().unwrap()) },
                8 => if n > 0 { a = Some(v.get(n - 1).clone_value()); p = Some(m[n - 1]) },
                9 => if n > 0 { if let Some(s) = b.take() { v.get_mut(0).assign(s); m[0] = q.take().unwrap() } },
                10 => if n > 0 { if let Some(s) = &mut a { v.get_mut(n - 1).swap(&mut s.as_mut()); std::mem::swap(&mut m[n - 1], p.as_mut().unwrap()) } },
                11 => { v.clear(); m.clear() }
                12 => { v.resize(1, T::new(z)); m.resize(1, z) }
                13 => { let u = v.clone(); v = u }
                14 => { let u = std::mem::replace(&mut v, V::with_type::<T>()); m.clear(); check(u.into_vec::<Other>().is_none(), "a wrong type is refused") }
                15 => if let Some(s) = a.take() { p = None; let d: BoxValue<DropVTable> = s.upcast(); check(d.as_ref().downcast::<T>().is_some(), "upcast") },
                16 => if let Some(s) = &b { v.push_cloned(s.as_ref()); m.push(q.unwrap()) },
                17 => { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut p, &mut q) }
                18 => if let Some(s) = &mut a { s.as_mut().assign(other()); s.as_mut().swap(&mut other().as_mut()) },
                _ => {
                    let u: VecDyn<DropVTable> = std::mem::replace(&mut v, V::with_type::<T>()).upcast();
                    check(u.len() == n, "upcast");
                    let t = u.into_vec::<T>().unwrap();
                    v = V::from_vec(t)
                }
            }
            is::<T>(&a, p);
            is::<T>(&b, q);
            agrees::<T>(&v, &m);
            i += 1
        }
    }
    crate::vecs::end();
}

pub trait Cp: Copy + PartialEq + std::fmt::Debug + 'static { fn of(x: u8) -> Self; }
#[derive(Copy, Clone, PartialEq, Debug)]
#[repr(align(32))]
pub struct W32([u8; 5]);
impl Cp for u8 { fn of(x: u8) -> Self { x } }
impl Cp for [u8; 3] { fn of(x: u8) -> Self { [x, 1, !x] } }
impl Cp for u64 { fn of(x: u8) -> Self { x as u64 * 0x0101_0101_0101_0101 } }
impl Cp for (u8, u32) { fn of(x: u8) -> Self { (x, !(x as u32)) } }
impl Cp for W32 { fn of(x: u8) -> Self { W32([x, 2, 3, 4, x]) } }

type C = VecCopy<()>;
pub const COPY_OPS: u8 = 21;
pub fn copy_step<T: Cp>(op: u8, v: &mut C, m: &mut Vec<T>, w: &mut C, k: &mut Vec<T>) {
    let x = T::of(any());
    let n = m.len();
    match op {
        0 => { check(v.push_as(x).is_some(), "push_as"); m.push(x) }
        1 => { check(v.push(CopyValueRef::<()>::new(&x)).is_some(), "push"); m.push(x) }
        2 => { check(v.resize(n + 2, x).is_some(), "resize"); m.resize(n + 2, x) }
        3 => { check(v.resize(n / 2, x).is_some(), "resize"); m.truncate(n / 2) }
        4 => { check(v.fill(x).is_some(), "fill"); for e in m.iter_mut() { *e = x } }
        5 => { check(v.append(w).is_some(), "append"); m.append(k) }
        6 => { std::mem::swap(v, w); std::mem::swap(m, k) }
        7 => { *w = v.clone(); k.clone_from(m) }
        8 => { w.clone_from(v); k.clone_from(m) }
        9 => { v.rotate_left((n + 1) / 2); m.rotate_left((n + 1) / 2) }
        10 => { v.rotate_right(n / 3); m.rotate_right(n / 3) }
        11 => { v.clear(); m.clear() }
        12 => { v.reserve(3); check(v.capacity() >= n + 3, "reserve") }
        13 => if n > 1 { v.as_mut_slice().swap(0, n - 1); m.swap(0, n - 1) },
        14 => if n == 2 { check(v.copy_from_slice(&[x; 2]).is_some(), "copy_from_slice"); m[0] = x; m[1] = x },
        15 => {
            let mut t = std::mem::replace(v, C::with_type::<T>()).into_vec::<T>().unwrap();
            check(t.pop() == m.pop(), "the Vec's last element");
            t.insert(0, x);
            m.insert(0, x);
            *v = C::from_vec(t)
        }
        16 => { v.extend(w.iter()); m.extend_from_slice(k) }
        17 => if n > 0 && k.len() > 0 { v.get_mut(n - 1).swap(&mut w.get_mut(0)); std::mem::swap(&mut m[n - 1], &mut k[0]) },
        18 => if k.len() > 0 { *v = w.iter().collect(); m.clone_from(k) },
        19 => {
            let (raw, table) = std::mem::replace(v, C::with_capacity::<T>(2)).into_raw_parts();
            *v = unsafe { C::from_raw_parts(raw, table) }
        }
        20 => { check(v.push_as(7u16).is_none() && v.resize(1, 9u16).is_none() && v.fill(3u16).is_none() && v.as_slice_as::<u16>().is_none(), "another type is refused") }
        _ => { for e in v.iter_mut_as::<T>().unwrap() { *e = x } for e in m.iter_mut() { *e = x } }
    }
}
pub fn same<T: Cp>(v: &C, m: &[T]) {
    check(v.len() == m.len() && v.is_empty() == m.is_empty() && v.capacity() >= m.len(), "length");
    check(v.as_slice_as::<T>() == Some(m), "the elements differ from the Vec's");
    if m.len() > 0 { check(v.get_ref(m.len() - 1).downcast::<T>() == Some(&m[m.len() - 1]), "the last element") }
}
/// Every history of `depth` operations on two vectors of Copy elements.
pub fn copies<T: Cp>(depth: u8) {
    {
        let xs = [T::of(any()), T::of(any())];
        let (mut v, mut m) = (C::from_slice(&xs), xs.to_vec());
        let (mut w, mut k) = (C::with_type::<T>(), Vec::new());
        let mut i = 0;
        while i < depth {
            copy_step::<T>(choose(0, COPY_OPS), &mut v, &mut m, &mut w, &mut k);
            same::<T>(&v, &m);
            same::<T>(&w, &k);
            i += 1
        }
        check(v.into_vec::<T>().as_deref() == Some(&m[..]), "converted back");
    }
    check(unsafe { vp_live() } == 0, "all memory is released");
    unsafe { vp_witness(1) }
}

harnesses! {
    h01_b3: copies<[u8; 3]>(3);
    h01_pair: copies<(u8, u32)>(3);
    h01_w32: copies<W32>(3);
    h02_p: vectors<P>(3);
    h02_q: vectors<Q3>(3);
    h02_a: vectors<A64>(3);
    h02_p4: vectors<P>(4);
    h04_p: values<P>(3);
    h04_s: values<S8>(3);
    h04_a: values<A64>(3);
    h04_p4: values<P>(4);
    h01_b3_4: copies<[u8; 3]>(4);
}
