//! VecDyn behaves as Vec<T> for element types with drop glue.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

type V = VecDyn<CloneVTable>;

fn vecd<T: Own>(xs: &[u32], cap: usize, len: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < len {
        v.push(T::own(xs[i]));
        i += 1;
    }
    v
}
fn eqv<T: Own>(v: &[T], m: &Model<u32>) -> bool {
    if v.len() != m.len {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < m.len {
        ok = ok & v[i].is(m.a[i]);
        i += 1;
    }
    ok
}
fn reads<T: Own>(v: &V, m: &Model<u32>) {
    check!(v.len() == m.len, "length");
    check!(v.is_empty() == (m.len == 0), "is_empty");
    check!(v.element_type_id() == TypeId::of::<T>(), "element type");
    check!(v.element_size() == core::mem::size_of::<T>(), "element size");
    check!(v.check_ref::<T>().is_some(), "check_ref of the right type");
    check!(eqv(v.as_slice_as::<T>().unwrap(), m), "as_slice_as");
    if m.len > 0 {
        check!(v.get_ref_as::<T>(m.len - 1).unwrap().is(m.a[m.len - 1]), "get_ref_as");
        check!(v.get(0).downcast::<T>().unwrap().is(m.a[0]), "get");
    }
}

fn make<T: Own>() {
    split!(how in 0, 7 => { split!(c in 0, 2 => {
        let n = [0, 1, 2][c];
        let xs = arr::<u32, 2>();
        let live = vp::live();
        let alive = tally::alive();
        let mut m = Model::new(&xs, n);
        let v: V = match how {
            0 => { m.len = 0; V::with_type::<T>() }
            1 => { m.len = 0; V::with_capacity::<T>(n) }
            2 => { m.fill(xs[0]); V::with_size(n, T::own(xs[0])) }
            3 => V::from_vec(vecd::<T>(&xs, n + 1, n)),
            4 => V::from_slice(&vecd::<T>(&xs, n, n)[..]),
            5 => V::from(vecd::<T>(&xs, n, n)),
            6 => V::from(&vecd::<T>(&xs, n, n)[..]),
            _ => V::from_vec(vecd::<T>(&xs, 3, n)).clone(),
        };
        reads::<T>(&v, &m);
        witness!(how == 7 && n == 2);
        match how % 4 {
            0 => check!(eqv(&v.into_vec::<T>().unwrap(), &m), "into_vec"),
            1 => { let o: Option<Vec<T>> = v.into(); check!(eqv(&o.unwrap(), &m), "into Option<Vec>") }
            2 => { check!(eqv(&v.clone_into_vec::<T>().unwrap(), &m), "clone_into_vec"); drop(v); }
            _ => {
                let mut out = vecd::<T>(&xs, 1, 1);
                check!(v.append_cloned_to_vec(&mut out).is_some(), "append_cloned_to_vec takes the right type");
                check!(out.len() == m.len + 1 && out[0].is(xs[0]) && eqv(&out[1..], &m), "append_cloned_to_vec");
                reads::<T>(&v, &m);
                drop(v);
            }
        }
        check!(vp::live() == live, "nothing leaks");
        check!(tally::alive() == alive, "every element is dropped");
    }) });
}

const OPS: usize = 13;
fn step<T: Own>(op: usize, v: &mut V, m: &mut Model<u32>) {
    let x = vp::any_u32();
    match op {
        0 => {
            check!(v.push_as(T::own(x)).is_some(), "push_as takes the right type");
            m.push(x);
        }
        1 => {
            check!(v.resize(m.len + 2, T::own(x)).is_some(), "resize takes the right type");
            m.resize(m.len + 2, x);
        }
        2 => {
            let n = m.len / 2;
            check!(v.resize(n, T::own(x)).is_some(), "resize takes the right type");
            m.resize(n, x);
        }
        3 => {
            let ys = arr::<u32, 2>();
            let mut w = V::from_vec(vecd::<T>(&ys, 2, 2));
            check!(v.append(&mut w).is_some(), "append takes the right type");
            check!(w.len() == 0 && w.element_type_id() == TypeId::of::<T>(), "append empties the other vector");
            m.append(&mut Model::new(&ys, 2));
        }
        4 => {
            let k = (m.len + 1) / 2;
            v.rotate_left(k);
            m.rotate_left(k);
        }
        5 => {
            let k = m.len / 2;
            v.rotate_right(k);
            m.rotate_right(k);
        }
        6 => {
            check!(v.fill(T::own(x)).is_some(), "fill takes the right type");
            m.fill(x);
        }
        7 => {
            check!(v.push(BoxValue::<DropVTable>::new(T::own(x))).is_some(), "push takes the right type");
            m.push(x);
        }
        8 => {
            let t = T::own(x);
            check!(v.push_cloned(ValueRef::new(&t)).is_some(), "push_cloned takes the right type");
            check!(t.is(x), "push_cloned leaves its source alone");
            m.push(x);
        }
        9 => {
            *v = v.clone();
        }
        10 => {
            if m.len > 0 {
                let i = m.len - 1;
                if x & 1 == 0 {
                    *v.get_mut_as::<T>(i).unwrap() = T::own(x);
                } else {
                    v.get_mut(i).assign(BoxValue::new(T::own(x)));
                }
                m.a[i] = x;
            }
        }
        11 => {
            let mut i = 0;
            for e in v.iter_mut_as::<T>().unwrap() {
                check!(i < m.len && e.is(m.a[i]), "iter_mut_as");
                e.set(x);
                m.a[i] = x;
                i += 1;
            }
            check!(i == m.len, "iter_mut_as visits every element");
            let s = v.as_mut_slice_as::<T>().unwrap();
            check!(eqv(s, m), "as_mut_slice_as");
        }
        12 => {
            let mut i = 0;
            for e in v.iter_as::<T>().unwrap() {
                check!(i < m.len && e.is(m.a[i]), "iter_as");
                i += 1;
            }
            check!(i == m.len, "iter_as visits every element");
            let mut i = 0;
            for e in v.iter() {
                check!(i < m.len && e.downcast::<T>().unwrap().is(m.a[i]), "iter");
                i += 1;
            }
            check!(i == m.len, "iter visits every element");
        }
        _ => {
            v.clear();
            m.len = 0;
        }
    }
}
fn history<T: Own>(first: usize, start: usize) {
    split!(second in 0, OPS => {
        let xs = arr::<u32, 2>();
        let live = vp::live();
        let alive = tally::alive();
        let mut v = V::from_vec(vecd::<T>(&xs, start, start));
        let mut m = Model::new(&xs, start);
        step::<T>(first, &mut v, &mut m);
        reads::<T>(&v, &m);
        step::<T>(second, &mut v, &mut m);
        reads::<T>(&v, &m);
        witness!(second == OPS);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        check!(tally::alive() == alive, "every element is dropped");
    });
}
fn history3<T: Own>(a: usize) {
    split!(b in 0, OPS => { split!(c in 0, OPS => {
        let live = vp::live();
        let alive = tally::alive();
        let mut v = V::with_type::<T>();
        let mut m = Model::new(&[vp::any_u32()], 0);
        step::<T>(a, &mut v, &mut m);
        step::<T>(b, &mut v, &mut m);
        step::<T>(c, &mut v, &mut m);
        reads::<T>(&v, &m);
        witness!(b == OPS && c == 0);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        check!(tally::alive() == alive, "every element is dropped");
    }) });
}
fn rotations<T: Own>(len: usize) {
    split!(left in 0, 1 => { split!(k in 0, 3 => {
        vp::assume(k <= len);
        let xs = arr::<u32, 3>();
        let mut v = V::from_vec(vecd::<T>(&xs, len, len));
        let mut m = Model::new(&xs, len);
        if left == 1 { v.rotate_left(k); m.rotate_left(k); } else { v.rotate_right(k); m.rotate_right(k); }
        reads::<T>(&v, &m);
        witness!(k == 2);
    }) });
}
/// Resizing to every length, in both directions.
fn resizes<T: Own>() {
    split!(a in 0, 3 => { split!(b in 0, 4 => {
        let live = vp::live();
        let alive = tally::alive();
        let xs = arr::<u32, 3>();
        let mut v = V::from_vec(vecd::<T>(&xs, a, a));
        let mut m = Model::new(&xs, a);
        let x = vp::any_u32();
        check!(v.resize(b, T::own(x)).is_some(), "resize takes the right type");
        m.resize(b, x);
        reads::<T>(&v, &m);
        witness!(a == 3 && b == 4);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        check!(tally::alive() == alive, "every element is dropped");
    }) });
}

/// Where `Vec` would clone an element, the element's own `Clone` is called, drop glue or not; where it
/// would move one, it is not.
fn clones() {
    split!(how in 0, 11 => {
        let (x, y) = (vp::any_u16(), vp::any_u16());
        let two = || vec![Gen::new(x), Gen::new(y)];
        let mut v = V::from_vec(two());
        let fine = |v: &[Gen]| v.len() == 2 && v[0].cloned(x) && v[1].cloned(y);
        match how {
            0 => { let w = v.clone(); check!(fine(w.as_slice_as::<Gen>().unwrap()), "clone clones every element"); }
            1 => check!(fine(&v.clone_into_vec::<Gen>().unwrap()), "clone_into_vec clones every element"),
            2 => {
                let mut out = Vec::new();
                check!(v.append_cloned_to_vec::<Gen>(&mut out).is_some(), "append_cloned_to_vec");
                check!(fine(&out), "append_cloned_to_vec clones every element");
            }
            3 => { let w = V::from_slice(&two()[..]); check!(fine(w.as_slice_as::<Gen>().unwrap()), "from_slice clones every element"); }
            4 => {
                let t = Gen::new(x);
                check!(v.push_cloned(ValueRef::new(&t)).is_some(), "push_cloned");
                check!(v.get_ref_as::<Gen>(2).unwrap().cloned(x), "push_cloned clones");
            }
            5 => {
                check!(v.fill(Gen::new(y)).is_some(), "fill");
                check!(v.get_ref_as::<Gen>(0).unwrap().v == y && v.get_ref_as::<Gen>(1).unwrap().v == y, "fill");
                check!(v.get_ref_as::<Gen>(0).unwrap().gen + v.get_ref_as::<Gen>(1).unwrap().gen > 0, "fill clones");
            }
            6 => {
                check!(v.resize(4, Gen::new(y)).is_some(), "resize");
                let s = v.as_slice_as::<Gen>().unwrap();
                check!(s[0].plain(x) && s[1].plain(y), "resize leaves what is there alone");
                check!(s[2].v == y && s[3].v == y && s[2].gen + s[3].gen > 0, "resize clones");
            }
            7 => {
                let b = v.get(1).clone_value();
                check!(b.downcast::<Gen>().unwrap().cloned(y), "clone_value clones");
            }
            8 => {
                let mut w = V::with_type::<Gen>();
                for e in v.iter() { check!(w.push_cloned(e).is_some(), "push_cloned"); }
                check!(fine(w.as_slice_as::<Gen>().unwrap()), "push_cloned clones");
            }
            9 => {
                let b = BoxValue::<CloneVTable>::new(Gen::new(x));
                let c = b.clone();
                check!(b.downcast::<Gen>().unwrap().plain(x) && c.downcast::<Gen>().unwrap().cloned(x), "cloning a value clones it");
            }
            10 => {
                let t = Gen::new(y);
                check!(v.get_mut(0).clone_from_other(ValueRef::new(&t)).is_ok(), "clone_from_other");
                check!(v.get_ref_as::<Gen>(0).unwrap().cloned(y), "clone_from_other clones");
            }
            _ => {
                let w = v.as_slice().iter().count();
                check!(w == 2, "length");
                check!(v.push_as(Gen::new(x)).is_some(), "push_as");
                v.rotate_left(1);
                let mut w = V::from_vec(two());
                check!(w.append(&mut v).is_some(), "append");
                let o = w.into_vec::<Gen>().unwrap();
                check!(o.len() == 5 && o[0].plain(x) && o[1].plain(y) && o[2].plain(y) && o[3].plain(x) && o[4].plain(x), "elements are moved, not cloned");
                witness!(true);
            }
        }
    });
}

/// Many elements, whatever grows or loops with their number.
fn long<T: Own, const N: usize>(lo: usize, hi: usize) {
    split!(op in lo, hi => {
        let live = vp::live();
        let alive = tally::alive();
        let xs = arr::<u32, N>();
        let x = vp::any_u32();
        let mut v = V::from_vec(vecd::<T>(&xs, N, N));
        let (mut old, mut by, mut len) = (N, 0, N);
        match op {
            0 => { check!(v.push_as(T::own(x)).is_some() && v.push(BoxValue::<DropVTable>::new(T::own(x))).is_some(), "push"); len = N + 2; }
            1 => { check!(v.resize(N + 3, T::own(x)).is_some(), "resize"); len = N + 3; }
            2 => { check!(v.resize(N / 2, T::own(x)).is_some(), "resize"); len = N / 2; old = len; }
            3 => {
                let mut w = V::from_vec(vecd::<T>(&xs, N, N));
                check!(v.append(&mut w).is_some() && w.len() == 0 && v.len() == 2 * N, "append");
                let s = v.as_slice_as::<T>().unwrap();
                let mut i = 0;
                while i < N { check!(s[N + i].is(xs[i]), "appended elements"); i += 1; }
                check!(v.resize(N, T::own(x)).is_some(), "resize");
            }
            4 => { v.rotate_left(1); by = 1; }
            5 => { v.rotate_left(N / 2); by = N / 2; }
            6 => { v.rotate_right(1); by = N - 1; }
            7 => { check!(v.fill(T::own(x)).is_some(), "fill"); old = 0; }
            8 => { v = v.clone(); }
            9 => { v = V::from_vec(v.clone_into_vec::<T>().unwrap()); }
            10 => { v.clear(); check!(tally::alive() == alive, "every element is dropped"); len = 0; }
            _ => { let o: Option<Vec<T>> = v.into(); v = V::from(o.unwrap()); }
        }
        let s = v.as_slice_as::<T>().unwrap();
        check!(s.len() == len && v.len() == len, "length");
        let mut i = 0;
        while i < len {
            check!(s[i].is(if i < old { xs[(i + by) % N] } else { x }), "contents");
            i += 1;
        }
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        check!(tally::alive() == alive, "every element is dropped");
        witness!(op == hi);
    });
}

harnesses! {
#[unwind(48)] fn dyn_long_d() { long::<D, 12>(0, 11) }
#[unwind(170)] fn dyn_long_huge() { long::<Huge, 3>(0, 11) }
#[unwind(48)] fn dyn_clones() { clones() }
#[unwind(48)] fn dyn_make_d() { make::<D>() }
#[unwind(48)] fn dyn_hist_push_h() { history::<(u8, Box<u32>, u8)>(7, 1) }
#[unwind(48)] fn dyn_hist_pushc_d() { history::<D>(8, 1) }
#[unwind(48)] fn dyn_hist_append_h() { history::<H>(3, 1) }
#[unwind(48)] fn dyn_hist_resize_b3() { history::<B3>(1, 1) }

#[unwind(48)] fn dyn_hist_clone_d() { history::<D>(9, 2) }
#[unwind(48)] fn dyn_rot_h() { rotations::<H>(3) }
#[unwind(48)] fn dyn_resizes_d() { resizes::<D>() }
thorough {
#[unwind(60)] fn dyn_long_h() { long::<H, 12>(0, 11) }
#[unwind(60)] fn dyn_long_b3() { long::<B3, 18>(0, 11) }
#[unwind(60)] fn dyn_long_box() { long::<Box<u32>, 17>(0, 11) }
#[unwind(48)] fn dyn_hist_clear_d() { history::<D>(13, 2) }
#[unwind(48)] fn dyn_make_h() { make::<H>() }
#[unwind(48)] fn dyn_make_b3() { make::<B3>() }
#[unwind(48)] fn dyn_hist_pushas_box() { history::<Box<u32>>(0, 2) }
#[unwind(48)] fn dyn_hist_shrink_d() { history::<D>(2, 2) }
#[unwind(48)] fn dyn_hist_rotl_d() { history::<D>(4, 2) }
#[unwind(48)] fn dyn_hist_rotr_h() { history::<H>(5, 2) }
#[unwind(48)] fn dyn_hist_fill_d() { history::<D>(6, 2) }
#[unwind(48)] fn dyn_hist_set_h() { history::<H>(10, 2) }
#[unwind(48)] fn dyn_hist_iterm_d() { history::<D>(11, 2) }
#[unwind(48)] fn dyn_hist_iter_box() { history::<Box<u32>>(12, 2) }
#[unwind(48)] fn dyn_hist3_push_d() { history3::<D>(0) }
#[unwind(48)] fn dyn_hist3_resize_d() { history3::<D>(1) }
#[unwind(48)] fn dyn_hist3_append_h() { history3::<H>(3) }
#[unwind(48)] fn dyn_hist3_boxpush_b3() { history3::<B3>(7) }
#[unwind(48)] fn dyn_hist3_pushc_h() { history3::<H>(8) }
#[unwind(48)] fn dyn_resizes_h() { resizes::<H>() }
#[unwind(48)] fn dyn_resizes_b3() { resizes::<B3>() }
}
}
