//! Panics in the middle of operations of vectors and slices.
use crate::*;

pub type V = VecDyn<AllVTable>;

pub fn typed<T: El>(n: u8) -> Vec<T> {
    let mut v = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n { v.push(T::new(any())); i += 1 }
    v
}
pub fn make<T: Elt>(n: u8) -> V where AllVTable: VTable<T> { V::from_vec(typed::<T>(n)) }

/// Every element the vector shows is alive.
fn inspect<T: Elt>(v: &V) {
    if let Some(it) = v.iter_as::<T>() {
        let mut k = 0;
        for x in it { x.see(); k += 1 }
        check(k == v.len(), "as many elements as the length says");
    } else {
        // A vector that lost its storage to the panic holds nothing.
        check(v.len() == 0, "a vector of no known type is empty");
    }
}

/// Any use of a container that survived, in which user code may panic again.
fn afterwards<T: Elt>(mut v: V) where AllVTable: VTable<T> {
    inspect::<T>(&v);
    let mut kept: Option<V> = None;
    let (how, n) = (choose(0, 7), v.len());
    if how == 7 {
        risky(|| if let Some(xs) = v.into_vec::<T>() { for x in &xs { x.see(); } });
        return;
    }
    risky(|| match how {
        0 => {}
        1 => { v.push_as(T::new(1)); }
        2 => v.clear(),
        3 => kept = Some(v.clone()),
        4 => { v.resize(n + 2, T::new(2)); }
        5 => { v.resize(0, T::new(2)); }
        _ => { let x = T::new(3); v.push_cloned(ValueRef::new(&x)); }
    });
    if let Some(c) = &kept {
        inspect::<T>(c);
        check(c.len() == v.len(), "a clone has as many elements");
    }
    inspect::<T>(&v);
    drop(kept);
    drop(v);
}

/// With nothing panicking, everything is gone in the end.
pub fn end() {
    if unsafe { !vp_thrown() } {
        check(living() == 0, "every element is dropped");
        check(unsafe { vp_live() } == 0, "all memory is released");
        unsafe { vp_witness(1) }
    } else {
        unsafe { vp_witness(2) }
    }
}

macro_rules! on_vec {
    ($name:ident $(+ $w:ident)?, |$v:ident, $n:ident| $body:block) => {
        pub fn $name<T: Elt>(most: u8) where AllVTable: VTable<T> {
            let $n = length(most);
            let mut v = make::<T>($n);
            $(let mut $w: Option<V> = None;)?
            if choose(0, 1) == 0 {
                risky(|| { let $v = &mut v; $body });
                $(if let Some(x) = $w.take() { inspect::<T>(&x); drop(x) })?
                afterwards::<T>(v);
            } else {
                // the vector is dropped while unwinding
                risky(|| { let mut v = v; let $v = &mut v; $body });
                $(if let Some(x) = $w.take() { inspect::<T>(&x); drop(x) })?
            }
            end();
        }
    };
}

on_vec!(clear, |v, n| { v.clear() });
on_vec!(clone + w, |v, n| { w = Some(v.clone()) });
on_vec!(resize, |v, n| { let m = choose(0, n + 2); let x = T::new(any()); v.resize(m as usize, x); });
on_vec!(fill, |v, n| { let x = T::new(any()); v.fill(x); });
on_vec!(clone_into_vec, |v, n| { v.clone_into_vec::<T>(); });
on_vec!(append_cloned, |v, n| { let mut t = typed::<T>(2); v.append_cloned_to_vec(&mut t); });
on_vec!(push_cloned, |v, n| { let x = T::new(any()); v.push_cloned(ValueRef::new(&x)); });
on_vec!(push_own, |v, n| { let x = T::new(any()); v.push_as(x); v.push(BoxValue::<AllVTable>::new(T::new(4))); });
on_vec!(fmt_, |v, n| { show(&*v); });
on_vec!(hash, |v, n| { v.hash(&mut H(0)); });
on_vec!(eq, |v, n| { let w = make::<T>(choose(n, n)); v == &w; w == *v; });
on_vec!(append, |v, n| { let mut w = make::<T>(2); v.append(&mut w); });
on_vec!(wrong_type, |v, n| {
    // refusals drop what they are given
    v.push_as(P2(P::new(1)));
    v.push(boxed_p2());
    v.resize(1, P2(P::new(3)));
    v.fill(P2(P::new(4)));
});
on_vec!(element_ops, |v, n| {
    if n > 1 {
        let i = choose(0, 1) as usize;
        match choose(0, 5) {
            0 => v.get_mut(i).assign(BoxValue::new(T::new(any()))),
            1 => { let x = T::new(any()); v.get_mut(i).clone_from_other(ValueRef::new(&x)); }
            2 => { v.get(i).clone_value(); v.get_mut(i).clone_value(); }
            3 => { *v.get_mut_as::<T>(i).unwrap() = T::new(any()); }
            4 => { let mut b = BoxValue::<AllVTable>::new(T::new(any())); v.get_mut(i).swap(&mut b.as_mut()); }
            _ => { let (a, b) = (v.get(0), v.get(1)); a == b; a.hash(&mut H(0)); }
        }
    }
});
on_vec!(iterate, |v, n| {
    for mut e in v.iter_mut() {
        point();
        e.assign(BoxValue::new(T::new(any())));
    }
});
on_vec!(slices, |v, n| {
    match choose(0, 4) {
        0 => { v.as_slice().clone_into_vec::<T>(); }
        1 => { v.as_mut_slice().clone_into_vec::<T>(); }
        2 => for mut e in v.as_mut_slice().iter() { e.clone_from_other(ValueRef::new(&T::new(any()))); },
        3 => for e in v.as_slice().iter() { point(); e.clone_value(); },
        _ => { v.rotate_left((n / 2) as usize); for e in v.as_mut_slice().into_iter() { e.downcast::<T>().unwrap().see(); point() } }
    }
});

/// Dropping the vector itself, or turning it into something else.
pub fn consume<T: Elt>(most: u8) where AllVTable: VTable<T> {
    let n = length(most);
    let v = make::<T>(n);
    risky(|| match choose(0, 3) {
        0 => drop(v),
        1 => drop(v.into_vec::<T>()),
        2 => drop(v.into_vec::<u16>()),
        _ => drop(v.check::<u16>()),
    });
    end();
}

/// Conversions between tables, which run the tables' own code.
pub fn upcasts<T: Elt>(most: u8) where AllVTable: VTable<T> {
    let n = length(most);
    let v = make::<T>(n);
    let b = BoxValue::<AllVTable>::new(T::new(any()));
    let (mut w, mut c, mut d) = (None, None, None);
    risky(|| match choose(0, 4) {
        0 => w = Some(v.upcast::<Tab>()),
        1 => { let x: VecDyn<Tab> = v.upcast(); w = Some(x.clone()); drop(x) }
        2 => { let x: VecDyn<Tab> = v.upcast(); let y: V = x.upcast(); w = Some(y.upcast()) }
        3 => { let x: BoxValue<Tab> = b.upcast(); d = Some(x.upcast::<AllVTable>()); }
        _ => {
            let x = v.as_slice().upcast::<Tab>();
            for e in x.iter() { c = Some(e.clone_value()) }
        }
    });
    if let Some(w) = &w {
        check(w.len() == n as usize, "as many elements as there were");
        for x in w.iter_as::<T>().unwrap() { x.see(); }
    }
    if let Some(x) = c { x.downcast::<T>().unwrap().see(); }
    if let Some(x) = d { x.downcast::<T>().unwrap().see(); }
    drop(w);
    if unsafe { !vp_thrown() } { check(living() <= n as usize + 1, "no element more than there were") }
    unsafe { vp_witness(if vp_thrown() { 2 } else { 1 }) }
}

/// Building vectors.
pub fn build<T: Elt>(most: u8) where AllVTable: VTable<T> {
    let n = length(most);
    let t = typed::<T>(n);
    let mut got: Option<V> = None;
    risky(|| match choose(0, 4) {
        0 => got = Some(V::with_size(n as usize, T::new(any()))),
        1 => got = Some(V::from_slice(&t)),
        2 => got = Some(V::from(&t[..])),
        3 => got = Some(V::from_vec(t.clone())),
        _ => {
            let mut v = V::with_capacity::<T>(2);
            for x in &t { v.push_as(x.clone()); }
            got = Some(v)
        }
    });
    if let Some(v) = got { afterwards::<T>(v) }
    for x in &t { x.see(); }
    drop(t);
    end();
}

/// A type that is none of the vectors'.
fn boxed_p2() -> BoxValue<AllVTable> { BoxValue::new(P2(P::new(2))) }
#[derive(Clone, PartialEq, Hash, Debug)]
pub struct P2(pub P);
impl All for P2 {}

harnesses! {
    uw_clear_p: clear<P>(3);
    uw_clear_q: clear<Q3>(3);
    uw_clone_p: clone<P>(3);
    uw_clone_q: clone<Q3>(3);
    uw_resize_p: resize<P>(3);
    uw_resize_a: resize<A64>(2);
    uw_fill_p: fill<P>(3);
    uw_clone_into_vec_p: clone_into_vec<P>(3);
    uw_append_cloned_q: append_cloned<Q3>(2);
    uw_push_cloned_p: push_cloned<P>(3);
    uw_push_cloned_q: push_cloned<Q3>(3);
    uw_push_own_p: push_own<P>(3);
    uw_fmt_p: fmt_<P>(3);
    uw_hash_p: hash<P>(3);
    uw_eq_p: eq<P>(3);
    uw_append_p: append<P>(2);
    uw_wrong_type_q: wrong_type<Q3>(2);
    uw_element_ops_p: element_ops<P>(2);
    uw_element_ops_q: element_ops<Q3>(2);
    uw_iterate_p: iterate<P>(2);
    uw_slices_p: slices<P>(2);
    uw_consume_p: consume<P>(3);
    uw_consume_a: consume<A64>(2);
    uw_upcasts_p: upcasts<P>(2);
    uw_build_p: build<P>(2);
    uw_build_q: build<Q3>(2);
}
