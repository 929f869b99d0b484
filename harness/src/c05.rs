//! Heap blocks are allocated, grown and freed with the layout of the element type, for every shape of
//! element; a reported capacity is usable without moving. (The allocator model checks each layout.)
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;

type C = VecCopy;
type V = VecDyn<CloneVTable>;

fn addr<T: Sym>(v: &C) -> *const T {
    v.as_slice_as::<T>().unwrap().as_ptr()
}
/// As many pushes as the capacity promises do not move the elements.
fn room<T: Sym>(v: &mut C, want: usize) {
    check!(v.capacity() >= want, "the capacity is at least what was asked for");
    let at = addr::<T>(v);
    let cap = v.capacity();
    let x = T::sym();
    while v.len() < want {
        check!(v.push_as(x).is_some(), "push_as");
    }
    check!(addr::<T>(v) == at && v.capacity() == cap, "elements do not move within the capacity");
}

const OPS: usize = 10;
fn life<T: Sym>() {
    split!(op in 0, OPS => { split!(start in 0, 2 => {
        let live = vp::live();
        let xs = arr::<T, 2>();
        let mut v = match start {
            0 => C::with_type::<T>(),
            1 => C::with_capacity::<T>(3),
            _ => C::from_vec(vec_of(&xs, 2, 2)),
        };
        let mut m = Model::new(&xs, [0, 0, 2][start]);
        match op {
            0 => { v.reserve(1); let l = v.len() + 1; room::<T>(&mut v, l); m.len = 0; }
            1 => { v.reserve(4); let l = v.len() + 4; room::<T>(&mut v, l); m.len = 0; }
            2 => { let c = v.capacity(); room::<T>(&mut v, c); v.reserve(1); let l = c + 1; room::<T>(&mut v, l); m.len = 0; }
            3 => { check!(v.push(CopyValueRef::<()>::new(&xs[0])).is_some(), "push"); m.push(xs[0]); }
            4 => { check!(v.resize(m.len + 3, xs[1]).is_some(), "resize"); m.resize(m.len + 3, xs[1]); }
            5 => {
                let mut w = C::from_vec(vec_of(&xs, 2, 1));
                check!(v.append(&mut w).is_some(), "append");
                check!(w.push_as(xs[1]).is_some(), "an emptied vector is usable");
                m.push(xs[0]);
            }
            6 => {
                let c = v.capacity();
                let mut w = v.clone();
                check!(w.capacity() >= c, "a clone has the capacity of its source");
                check!(w.push_as(xs[1]).is_some(), "push_as on a clone");
                m.push(xs[1]);
                v = w;
            }
            7 => { let c = v.capacity(); v.clear(); check!(v.capacity() == c, "clear keeps the capacity"); m.len = 0; check!(v.push_as(xs[0]).is_some(), "push_as"); m.push(xs[0]); }
            8 => { v.reserve(0); let c = v.capacity(); check!(v.resize(0, xs[0]).is_some(), "resize"); check!(v.capacity() == c, "shrinking keeps the capacity"); m.len = 0; }
            9 => { let mut w = C::with_type_from(&v); check!(w.push_as(xs[0]).is_some(), "push_as on an empty vector of the same type"); m.len = 0; m.push(xs[0]); v = w; }
            _ => {}
        }
        if op > 2 {
            check!(m.same(v.as_slice_as::<T>().unwrap()), "contents");
        }
        witness!(op == OPS && start == 2);
        if (op + start) % 2 == 0 {
            let l = v.len();
            let at = addr::<T>(&v);
            let w = v.into_vec::<T>().unwrap();
            check!(w.as_ptr() == at && w.len() == l, "into_vec keeps the allocation");
        } else {
            drop(v);
        }
        check!(vp::live() == live, "nothing leaks");
    }) });
}
/// The same life, shorter, for every alignment.
fn short<T: Sym>(rotates: bool) {
    split!(op in 0, 4 => {
        let live = vp::live();
        let x = T::sym();
        let mut v = C::with_type::<T>();
        match op {
            0 => { v.reserve(1); check!(v.capacity() >= 1, "reserve"); }
            1 => check!(v.push_as(x).is_some() && v.get_as::<T>(0).unwrap() == x, "push_as"),
            2 => { check!(v.push(CopyValueRef::<()>::new(&x)).is_some() && v.get_as::<T>(0).unwrap() == x, "push"); v.clear(); }
            3 => if rotates {
                let y = T::sym();
                check!(v.push_as(x).is_some() && v.push_as(y).is_some(), "push_as");
                v.rotate_left(1);
                check!(v.get_as::<T>(0).unwrap() == y && v.get_as::<T>(1).unwrap() == x, "rotate_left");
                v.rotate_right(1);
                check!(v.get_as::<T>(0).unwrap() == x && v.get_as::<T>(1).unwrap() == y, "rotate_right");
            }
            _ => { let mut w = v.clone(); check!(w.append(&mut v).is_some(), "append"); drop(w); }
        }
        witness!(op == 4);
        if op % 2 == 0 { drop(v.into_vec::<T>().unwrap()); } else { drop(v); }
        check!(vp::live() == live, "nothing leaks");
    });
}
/// Construction reuses the allocation of a Vec.
fn reuse<T: Sym>() {
    split!(cap in 0, 3 => { split!(len in 0, 2 => {
        vp::assume(len <= cap);
        let live = vp::live();
        let xs = arr::<T, 2>();
        let w = vec_of(&xs, cap, len);
        let (at, c) = (w.as_ptr(), w.capacity());
        let v = C::from_vec(w);
        check!(cap == 0 || addr::<T>(&v) == at, "from_vec keeps the allocation");
        check!(v.capacity() >= c && v.len() == len, "from_vec keeps the capacity");
        let c = v.capacity();
        let at = addr::<T>(&v);
        let w = v.into_vec::<T>().unwrap();
        check!(w.as_ptr() == at && w.capacity() == c && w.len() == len, "into_vec keeps the allocation");
        drop(w);
        check!(vp::live() == live, "nothing leaks");
        witness!(cap == 3 && len == 2);
    }) });
}

/// Drop glue and odd layouts: alignment 4 and size 12, alignment 16 and size 48.
#[derive(Clone)]
#[repr(C)]
struct Odd { a: u8, b: u32, id: u32 }
#[derive(Clone)]
#[repr(C, align(16))]
struct Big { b: Box<u32>, x: [u64; 4] }
fn dyns<T: Clone + 'static>(mk: fn(u32) -> T, ok: fn(&T, u32) -> bool) {
    split!(op in 0, 6 => { split!(n in 0, 2 => {
        let live = vp::live();
        let x = vp::any_u32();
        let mut w = Vec::with_capacity(n);
        let mut i = 0;
        while i < n { w.push(mk(x)); i += 1; }
        let mut v = V::from_vec(w);
        let mut len = n;
        match op {
            0 => { check!(v.push_as(mk(x)).is_some(), "push_as"); len += 1; }
            1 => { check!(v.push(BoxValue::<CloneVTable>::new(mk(x))).is_some(), "push"); len += 1; }
            2 => { let t = mk(x); check!(v.push_cloned(ValueRef::new(&t)).is_some(), "push_cloned"); len += 1; }
            3 => { check!(v.resize(n + 2, mk(x)).is_some(), "resize"); len += 2; }
            4 => { let mut c = v.clone(); check!(v.append(&mut c).is_some(), "append"); len += n; }
            5 => { check!(v.resize(n / 2, mk(x)).is_some(), "resize"); len = n / 2; }
            _ => { let s = v.get(if n > 0 { n - 1 } else { vp::assume(false); 0 }).clone_value(); check!(v.push(s).is_some(), "push"); len += 1; }
        }
        check!(v.len() == len, "length");
        let mut i = 0;
        while i < len { check!(ok(v.get_ref_as::<T>(i).unwrap(), x), "contents"); i += 1; }
        witness!(op == 4 && n == 2);
        if n == 1 { drop(v.into_vec::<T>().unwrap()); } else { drop(v); }
        check!(vp::live() == live, "nothing leaks");
    }) });
}
fn odd(x: u32) -> Odd { Odd { a: x as u8, b: x, id: !x } }
fn odd_ok(o: &Odd, x: u32) -> bool { o.a == x as u8 && o.b == x && o.id == !x }
fn big(x: u32) -> Big { Big { b: Box::new(x), x: [x as u64; 4] } }
fn big_ok(o: &Big, x: u32) -> bool { *o.b == x && o.x[0] == x as u64 && o.x[3] == x as u64 }

/// Boxed values of every alignment.
fn boxes<T: Sym + Clone>() {
    split!(op in 0, 2 => {
        let live = vp::live();
        let x = T::sym();
        let b = BoxValue::<CloneVTable>::new(x);
        match op {
            0 => drop(b),
            1 => { let c = b.clone(); drop(b); check!(*c.downcast::<T>().unwrap() == x, "clone and downcast"); }
            _ => { let mut v = V::with_type::<T>(); check!(v.push(b).is_some(), "push"); check!(*v.get_ref_as::<T>(0).unwrap() == x, "push"); }
        }
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 2);
    });
}

harnesses! {
#[unwind(80)] fn lay_b3() { life::<B3>() }
#[unwind(80)] fn lay_pad() { life::<Pad>() }
#[unwind(80)] fn lay_wide() { life::<Wide>() }
#[unwind(80)] fn lay_short_a() { each!(short(true): A2 A4 A8 A32 A64) }
#[unwind(600)] fn lay_short_b() { each!(short(true): A128 A256) }
#[unwind(80)] fn lay_short_c() { each!(short(false): A512 A1K A2K A4K A8K) }
#[unwind(80)] fn lay_short_d() { each!(short(false): A16K A32K) }
#[unwind(80)] fn lay_short_e() { each!(short(false): A64K) }
#[unwind(80)] fn lay_reuse_h3() { reuse::<H3>() }
#[unwind(80)] fn lay_dyn_odd() { dyns(odd, odd_ok) }
#[unwind(80)] fn lay_box_b3() { boxes::<B3>() }
#[unwind(80)] fn lay_box_wide() { boxes::<Wide>() }
thorough {
#[unwind(80)] fn lay_a16() { life::<A16>() }
#[unwind(80)] fn lay_u8() { life::<u8>() }
#[unwind(80)] fn lay_h3() { life::<H3>() }
#[unwind(80)] fn lay_u32() { life::<u32>() }
#[unwind(80)] fn lay_w3() { life::<W3>() }
#[unwind(80)] fn lay_u64() { life::<u64>() }
#[unwind(80)] fn lay_u128() { life::<u128>() }
#[unwind(80)] fn lay_a32() { life::<A32>() }
#[unwind(80)] fn lay_reuse_b3() { reuse::<B3>() }
#[unwind(80)] fn lay_reuse_wide() { reuse::<Wide>() }
#[unwind(80)] fn lay_dyn_big() { dyns(big, big_ok) }
#[unwind(80)] fn lay_box_a64() { boxes::<A64>() }
#[unwind(80)] fn lay_box_u8() { boxes::<u8>() }
}
}
