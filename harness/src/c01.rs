//! VecCopy behaves as Vec<T>: typed construction, reading and mutation.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::*;
use std::any::TypeId;

type V = VecCopy;

/// Every way of reading the whole vector agrees with the model.
fn reads<T: Sym>(v: &V, m: &Model<T>) {
    check!(v.len() == m.len, "length");
    check!(v.is_empty() == (m.len == 0), "is_empty");
    check!(v.element_type_id() == TypeId::of::<T>(), "element type");
    check!(v.capacity() >= m.len, "capacity holds the length");
    check!(v.check_ref::<T>().is_some(), "check_ref of the right type");
    let s = v.as_slice_as::<T>().unwrap();
    check!(s.len() == m.len, "length of as_slice_as");
    let mut k = 0;
    while k < m.len {
        check!(s[k] == m.a[k], "element of as_slice_as");
        if k + 2 >= m.len {
            check!(v.get_as::<T>(k).unwrap() == m.a[k], "get_as");
            check!(*v.get_ref_as::<T>(k).unwrap() == m.a[k], "get_ref_as");
        }
        k += 1;
    }
}
fn iterates<T: Sym>(v: &V, m: &Model<T>) {
    let mut i = 0;
    for x in v.iter_as::<T>().unwrap() {
        check!(i < m.len && *x == m.a[i], "iter_as");
        i += 1;
    }
    check!(i == m.len, "iter_as visits every element");
}

fn make<T: Sym>() {
    split!(how in 0, 8 => { split!(c in 0, 2 => {
        let n = [0, 1, 3][c];
        let xs = arr::<T, 4>();
        let live = vp::live();
        let mut m = Model::new(&xs, n);
        let v: V = match how {
            0 => { m.len = 0; V::with_type::<T>() }
            1 => { m.len = 0; let v = V::with_capacity::<T>(n); check!(v.capacity() >= n, "with_capacity"); v }
            2 => { m.fill(xs[0]); V::with_size(n, xs[0]) }
            3 => V::from_vec(vec_of(&xs, n, n)),
            4 => V::from_slice(&xs[..n]),
            5 => V::from(vec_of(&xs, n + 2, n)),
            6 => V::from(&xs[..n]),
            7 => V::from_vec(vec_of(&xs, 3, n)).clone(),
            _ => { let a = V::from_slice(&xs[..n]); m.len = 0; V::with_type_from(&a) }
        };
        reads(&v, &m);
        iterates(&v, &m);
        witness!(how == 5 && n == 3);
        let w: Vec<T> = if how % 2 == 0 { v.into_vec::<T>().unwrap() } else { let o: Option<Vec<T>> = v.into(); o.unwrap() };
        check!(m.same(&w), "into_vec");
        drop(w);
        check!(vp::live() == live, "nothing leaks");
    }) });
}

fn copy_out<T: Sym>() {
    split!(n in 0, 3 => { split!(p in 0, 2 => {
        let xs = arr::<T, 4>();
        let ys = arr::<T, 2>();
        let v = V::from_slice(&xs[..n]);
        let mut m = Model::new(&ys, p);
        m.append(&mut Model::new(&xs, n));
        let mut out = vec_of(&ys, p, p);
        check!(v.append_copy_to_vec(&mut out).is_some(), "append_copy_to_vec takes the right type");
        check!(m.same(&out), "append_copy_to_vec");
        let c = v.copy_into_vec::<T>().unwrap();
        check!(Model::new(&xs, n).same(&c), "copy_into_vec");
        reads(&v, &Model::new(&xs, n));
        witness!(n == 3 && p == 1);
    }) });
}

/// The operations of a history.
const OPS: usize = 10;
fn step<T: Sym>(op: usize, v: &mut V, m: &mut Model<T>) {
    let x = T::sym();
    match op {
        0 => {
            check!(v.push_as(x).is_some(), "push_as takes the right type");
            m.push(x);
        }
        1 => {
            check!(v.resize(m.len + 2, x).is_some(), "resize takes the right type");
            m.resize(m.len + 2, x);
        }
        2 => {
            let n = m.len / 2;
            check!(v.resize(n, x).is_some(), "resize takes the right type");
            m.resize(n, x);
        }
        3 => {
            let ys = arr::<T, 2>();
            let mut w = V::from_slice(&ys[..]);
            check!(v.append(&mut w).is_some(), "append takes the right type");
            check!(w.len() == 0 && w.element_type_id() == TypeId::of::<T>(), "append empties the other vector");
            m.append(&mut Model::new(&ys, 2));
        }
        4 => {
            let k = m.len / 2;
            v.rotate_left(k);
            m.rotate_left(k);
        }
        5 => {
            let k = if m.len > 0 { 1 } else { 0 };
            v.rotate_right(k);
            m.rotate_right(k);
        }
        6 => {
            check!(v.fill(x).is_some(), "fill takes the right type");
            m.fill(x);
        }
        7 => {
            v.reserve(3);
            check!(v.capacity() >= m.len + 3, "reserve makes room");
        }
        8 => {
            if m.len > 0 {
                let i = m.len - 1;
                *v.get_mut_as::<T>(i).unwrap() = x;
                m.a[i] = x;
            }
        }
        9 => {
            *v = v.clone();
        }
        _ => {
            v.clear();
            m.len = 0;
        }
    }
}
fn history<T: Sym>(first: usize, start: usize) {
    split!(second in 0, OPS => {
        let xs = arr::<T, 3>();
        let live = vp::live();
        let mut v = V::from_slice(&xs[..start]);
        let mut m = Model::new(&xs, start);
        step(first, &mut v, &mut m);
        reads(&v, &m);
        step(second, &mut v, &mut m);
        reads(&v, &m);
        witness!(second == OPS);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    });
}
/// Three steps from empty: `a` and `b` constant, the third any.
fn history3<T: Sym>(a: usize) {
    split!(b in 0, OPS => { split!(c in 0, OPS => {
        let live = vp::live();
        let mut v = V::with_type::<T>();
        let mut m = Model::new(&[T::sym()], 0);
        step(a, &mut v, &mut m);
        step(b, &mut v, &mut m);
        step(c, &mut v, &mut m);
        reads(&v, &m);
        witness!(b == OPS && c == 0);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    }) });
}

fn writes<T: Sym>() {
    split!(how in 0, 4 => { split!(n in 0, 3 => {
        let xs = arr::<T, 3>();
        let ys = arr::<T, 3>();
        let mut v = V::from_vec(vec_of(&xs, n + 1, n));
        let mut m = Model::new(&xs, n);
        let k = vp::upto(2);
        match how {
            0 => if k < n { v.as_mut_slice_as::<T>().unwrap()[k] = ys[0]; m.a[k] = ys[0]; }
            1 => {
                let mut i = 0;
                for x in v.iter_mut_as::<T>().unwrap() {
                    check!(i < n && *x == m.a[i], "iter_mut_as");
                    *x = ys[i];
                    m.a[i] = ys[i];
                    i += 1;
                }
                check!(i == n, "iter_mut_as visits every element");
            }
            2 => {
                check!(v.copy_from_slice(&ys[..n]).is_some(), "copy_from_slice takes the right type");
                m = Model::new(&ys, n);
            }
            3 => if k < n { *v.get_mut_as::<T>(k).unwrap() = ys[1]; m.a[k] = ys[1]; }
            _ => { check!(v.check_mut::<T>().unwrap().fill(ys[2]).is_some(), "fill"); m.fill(ys[2]); }
        }
        reads(&v, &m);
        witness!(how == 4 && n == 3 && k == 2);
    }) });
}

fn rotations<T: Sym>(left: bool, len: usize) {
    split!(k in 0, 7 => {
        vp::assume(k <= len);
        let xs = arr::<T, 7>();
        let mut v = V::from_slice(&xs[..len]);
        let mut m = Model::new(&xs, len);
        if left { v.rotate_left(k); m.rotate_left(k); } else { v.rotate_right(k); m.rotate_right(k); }
        reads(&v, &m);
        witness!(k == 2);
    });
}

/// Growth over several reallocations.
fn grow<T: Sym>() {
    split!(start in 0, 2 => {
        let xs = arr::<T, 9>();
        let mut v = V::from_slice(&xs[..start]);
        let mut i = start;
        while i < 9 { check!(v.push_as(xs[i]).is_some(), "push_as"); i += 1; }
        reads(&v, &Model::new(&xs, 9));
        check!(v.resize(5, xs[0]).is_some(), "resize");
        reads(&v, &Model::new(&xs, 5));
        witness!(start == 2);
    });
}

/// Many elements, whatever grows or loops with their number.
fn long<T: Sym, const N: usize>(lo: usize, hi: usize) {
    split!(op in lo, hi => {
        let live = vp::live();
        let xs = arr::<T, N>();
        let x = T::sym();
        let mut v = V::from_slice(&xs[..]);
        // What is expected: element `i` is that of `xs` shifted by `by`, with others from the end of `old`.
        let (mut old, mut by, mut len) = (N, 0, N);
        match op {
            0 => { check!(v.push_as(x).is_some() && v.push_as(x).is_some(), "push_as"); len = N + 2; }
            1 => { check!(v.resize(2 * N + 3, x).is_some(), "resize"); len = 2 * N + 3; }
            2 => { check!(v.resize(N / 2, x).is_some(), "resize"); len = N / 2; old = len; }
            3 => {
                let mut w = V::from_slice(&xs[..]);
                check!(v.append(&mut w).is_some() && w.len() == 0 && v.len() == 2 * N, "append");
                let s = v.as_slice_as::<T>().unwrap();
                let mut i = 0;
                while i < N { check!(s[N + i] == xs[i], "appended elements"); i += 1; }
                check!(v.resize(N, x).is_some(), "resize");
            }
            4 => { v.rotate_left(1); by = 1; }
            5 => { v.rotate_left(N / 2); by = N / 2; }
            6 => { v.rotate_right(1); by = N - 1; }
            7 => { v.rotate_right(N / 2 + 1); by = N - N / 2 - 1; }
            8 => { check!(v.fill(x).is_some(), "fill"); old = 0; }
            9 => { v = v.clone(); }
            10 => { v = V::from_vec(v.copy_into_vec::<T>().unwrap()); }
            11 => { v.reserve(N + 5); check!(v.capacity() >= 2 * N + 5, "reserve"); }
            12 => { check!(v.resize(1, x).is_some() && v.copy_from_slice(&xs[..1]).is_some(), "copy_from_slice"); len = 1; old = 1; }
            13 => { check!(v.fill(x).is_some() && v.copy_from_slice(&xs[..]).is_some(), "copy_from_slice"); }
            14 => { v.clear(); let mut i = 0; while i < N { check!(v.push_as(xs[i]).is_some(), "push_as"); i += 1; } }
            _ => { for e in v.iter_mut_as::<T>().unwrap() { *e = x; } old = 0; }
        }
        let s = v.as_slice_as::<T>().unwrap();
        check!(s.len() == len && v.len() == len && v.capacity() >= len, "length");
        let mut i = 0;
        while i < len {
            check!(s[i] == if i < old { xs[(i + by) % N] } else { x }, "contents");
            i += 1;
        }
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == hi);
    });
}

harnesses! {
#[unwind(60)] fn long_b3() { long::<B3, 17>(0, 15) }
#[unwind(170)] fn long_huge() { long::<Huge, 3>(0, 7) }
#[unwind(40)] fn make_b3() { make::<B3>() }
#[unwind(40)] fn copy_out_pad() { copy_out::<Pad>() }
#[unwind(40)] fn writes_h3() { writes::<H3>() }
#[unwind(40)] fn rotl_b3() { rotations::<B3>(true, 5) }
#[unwind(40)] fn rotr_h3() { rotations::<H3>(false, 4) }
#[unwind(60)] fn grow_b3() { grow::<B3>() }
#[unwind(40)] fn hist_push_u32() { history::<u32>(0, 2) }
#[unwind(40)] fn hist_grow_b3() { history::<B3>(1, 2) }
#[unwind(40)] fn hist_append_h3() { history::<H3>(3, 1) }
#[unwind(40)] fn hist_clear_u8() { history::<u8>(10, 2) }
#[unwind(40)] fn hist_clone_pad() { history::<Pad>(9, 2) }
thorough {
#[unwind(170)] fn long_huge_more() { long::<Huge, 3>(8, 15) }
#[unwind(60)] fn long_wide() { long::<Wide, 9>(0, 15) }
#[unwind(60)] fn long_u8() { long::<u8, 20>(0, 15) }
#[unwind(60)] fn long_u32() { long::<u32, 19>(0, 15) }
#[unwind(60)] fn long_pad() { long::<Pad, 11>(0, 15) }
#[unwind(40)] fn make_u32() { make::<u32>() }
#[unwind(40)] fn make_wide() { make::<Wide>() }
#[unwind(40)] fn copy_out_u8() { copy_out::<u8>() }
#[unwind(40)] fn writes_u64() { writes::<u64>() }
#[unwind(40)] fn rotr_u16() { rotations::<u16>(false, 7) }
#[unwind(40)] fn rotl_wide() { rotations::<Wide>(true, 3) }
#[unwind(60)] fn grow_u8() { grow::<u8>() }
#[unwind(60)] fn grow_wide() { grow::<Wide>() }
#[unwind(40)] fn hist_shrink_h3() { history::<H3>(2, 3) }
#[unwind(40)] fn hist_append_w3() { history::<W3>(3, 1) }
#[unwind(40)] fn hist_rotl_b3() { history::<B3>(4, 3) }
#[unwind(40)] fn hist_rotr_u64() { history::<u64>(5, 3) }
#[unwind(40)] fn hist_fill_u128() { history::<u128>(6, 2) }
#[unwind(40)] fn hist_reserve_b3() { history::<B3>(7, 3) }
#[unwind(40)] fn hist_set_wide() { history::<Wide>(8, 2) }
#[unwind(60)] fn hist3_push_b3() { history3::<B3>(0) }
#[unwind(60)] fn hist3_resize_b3() { history3::<B3>(1) }
#[unwind(60)] fn hist3_append_h3() { history3::<H3>(3) }
#[unwind(60)] fn hist3_reserve_u32() { history3::<u32>(7) }
#[unwind(60)] fn hist3_clone_b3() { history3::<B3>(9) }
#[unwind(60)] fn hist3_clear_b3() { history3::<B3>(10) }
}
}
