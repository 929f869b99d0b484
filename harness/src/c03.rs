//! Every typed operation with a type other than the stored one is refused and changes nothing.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;

type C = VecCopy;
type V = VecDyn<CloneVTable>;

fn veccopy<T: Sym, U: Sym>() {
    split!(op in 0, 21 => { split!(c in 0, 1 => {
        let n = c * 2;
        let xs = arr::<T, 2>();
        let u = U::sym();
        let us = [u, u];
        let live = vp::live();
        let mut v = C::from_vec(vec_of(&xs, n + 1, n));
        let m = Model::new(&xs, n);
        let none;
        match op {
            0 => none = v.push_as(u).is_none(),
            1 => none = v.resize(n + 1, u).is_none(),
            2 => none = v.resize(0, u).is_none(),
            3 => none = v.fill(u).is_none(),
            4 => none = v.copy_from_slice(&us[..n]).is_none(),
            5 => none = v.check_ref::<U>().is_none() && v.check_ref::<T>().is_some(),
            6 => none = v.check_mut::<U>().is_none() && v.check_mut::<T>().is_some(),
            7 => none = v.iter_as::<U>().is_none(),
            8 => none = v.iter_mut_as::<U>().is_none(),
            9 => none = v.as_slice_as::<U>().is_none(),
            10 => none = v.as_mut_slice_as::<U>().is_none(),
            11 => none = n == 0 || v.get_as::<U>(0).is_none(),
            12 => none = n == 0 || v.get_ref_as::<U>(0).is_none(),
            13 => none = n == 0 || v.get_mut_as::<U>(0).is_none(),
            14 => {
                let mut out = vec_of(&us, 2, 1);
                none = v.append_copy_to_vec(&mut out).is_none();
                check!(out.len() == 1 && out[0] == u, "a refused copy leaves the destination alone");
            }
            15 => none = v.copy_into_vec::<U>().is_none(),
            16 => {
                let mut w = C::from_vec(vec_of(&us, 2, 2));
                none = v.append(&mut w).is_none();
                check!(w.len() == 2 && w.as_slice_as::<U>().unwrap()[1] == u, "a refused append leaves the other vector alone");
            }
            17 => {
                check!(v.check::<U>().is_none(), "an owned check with another type is refused");
                check!(vp::live() == live, "a refused owned check frees the vector");
                vp::end();
            }
            18 => {
                check!(v.into_vec::<U>().is_none(), "into_vec with another type is refused");
                check!(vp::live() == live, "a refused into_vec frees the vector");
                vp::end();
            }
            19 => {
                let o: Option<Vec<U>> = v.into();
                check!(o.is_none(), "into Option<Vec> with another type is refused");
                check!(vp::live() == live, "a refused conversion frees the vector");
                vp::end();
            }
            20 => {
                let mut w = C::from_vec(vec_of(&us, 2, 0));
                none = v.append(&mut w).is_none() && v.resize(n, u).is_none();
                check!(w.len() == 0 && w.element_type_id() == TypeId::of::<U>(), "a refused append leaves the other vector alone");
            }
            _ => {
                let w = C::from_vec(vec_of(&us, 2, 2));
                if core::mem::size_of::<T>() == core::mem::size_of::<U>() {
                    none = v.push(w.get_ref(1)).is_none();
                } else {
                    none = true;
                }
            }
        }
        check!(none, "an operation with another type is refused");
        check!(v.element_type_id() == TypeId::of::<T>() && m.same(v.as_slice_as::<T>().unwrap()), "a refused operation changes nothing");
        witness!(op == 21 && c == 1);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    }) });
}

fn copyslices<T: Sym, U: Sym>() {
    split!(op in 0, 14 => { split!(c in 0, 1 => {
        let n = c * 2;
        let xs = arr::<T, 2>();
        let mut ys = xs;
        let u = U::sym();
        let us = [u, u];
        let m = Model::new(&xs, n);
        let none;
        {
            let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut ys[..n]);
            let r: SliceCopy = SliceCopy::from_slice(&xs[..n]);
            let mut out = vec_of(&us, 2, 1);
            match op {
                0 => none = r.check::<U>().is_none() && r.check::<T>().is_some(),
                1 => none = r.iter_as::<U>().is_none(),
                2 => none = r.append_copy_to_vec::<U>(&mut out).is_none(),
                3 => none = r.copy_into_vec::<U>().is_none(),
                4 => none = r.as_slice::<U>().is_none(),
                5 => none = n == 0 || r.get_as::<U>(0).is_none(),
                6 => none = s.copy_from_slice(&us[..n]).is_none(),
                7 => none = s.check::<U>().is_none() && s.check::<T>().is_some(),
                8 => none = s.iter_as::<U>().is_none(),
                9 => none = s.append_copy_to_vec::<U>(&mut out).is_none(),
                10 => none = s.copy_into_vec::<U>().is_none(),
                11 => none = s.as_slice::<U>().is_none(),
                12 => none = n == 0 || s.get_as::<U>(0).is_none(),
                13 => none = n == 0 || r.get(0).downcast::<U>().is_none(),
                _ => none = n == 0 || s.get_mut(0).downcast::<U>().is_none(),
            }
            check!(out.len() == 1 && out[0] == u, "a refused copy leaves the destination alone");
        }
        check!(none, "an operation with another type is refused");
        check!(m.same(&ys[..n]), "a refused operation changes nothing");
        witness!(op == 14 && c == 1);
    }) });
}

/// D against the type of the same layout.
fn vecdyn() {
    split!(op in 0, 22 => { split!(n in 0, 1 => {
        let x = vp::any_u32();
        let live = vp::live();
        let alive = tally::alive();
        let mut v = V::from_vec(vec_of::<D>(&[], 1, 0));
        if n == 1 { check!(v.push_as(D::new(x)).is_some(), "push_as takes the right type"); }
        let made = tally::made();
        let e = E2 { v: !x, id: tally::make() };
        let mut used = 0;
        let none;
        match op {
            0 => { none = v.push_as(e).is_none(); used = 1; }
            1 => { none = v.resize(n + 1, e).is_none(); used = 1; }
            2 => { none = v.resize(0, e).is_none(); used = 1; }
            3 => { none = v.fill(e).is_none(); used = 1; }
            4 => { none = v.push(BoxValue::<CloneVTable>::new(e)).is_none(); used = 1; }
            5 => none = v.push_cloned(ValueRef::new(&e)).is_none(),
            6 => none = v.check_ref::<E2>().is_none() && v.check_ref::<D>().is_some(),
            7 => none = v.check_mut::<E2>().is_none() && v.check_mut::<D>().is_some(),
            8 => none = v.iter_as::<E2>().is_none(),
            9 => none = v.iter_mut_as::<E2>().is_none(),
            10 => none = v.as_slice_as::<E2>().is_none(),
            11 => none = v.as_mut_slice_as::<E2>().is_none(),
            12 => none = n == 0 || v.get_ref_as::<E2>(0).is_none(),
            13 => none = n == 0 || v.get_mut_as::<E2>(0).is_none(),
            14 => {
                let mut out: Vec<E2> = Vec::with_capacity(2);
                out.push(e.clone());
                none = v.append_cloned_to_vec(&mut out).is_none();
                check!(out.len() == 1 && out[0].v == !x, "a refused copy leaves the destination alone");
            }
            15 => none = v.clone_into_vec::<E2>().is_none(),
            16 => {
                let mut w = V::from_vec(vec_of(&[e.clone()], 1, 1));
                none = v.append(&mut w).is_none();
                check!(w.len() == 1 && w.as_slice_as::<E2>().unwrap()[0].v == !x, "a refused append leaves the other vector alone");
            }
            17 => {
                check!(v.check::<E2>().is_none(), "an owned check with another type is refused");
                drop(e);
                check!(vp::live() == live && tally::alive() == alive, "a refused owned check drops the vector");
                vp::end();
            }
            18 => {
                check!(v.into_vec::<E2>().is_none(), "into_vec with another type is refused");
                drop(e);
                check!(vp::live() == live && tally::alive() == alive, "a refused into_vec drops the vector");
                vp::end();
            }
            19 => {
                let o: Option<Vec<E2>> = v.into();
                check!(o.is_none(), "into Option<Vec> with another type is refused");
                drop(e);
                check!(vp::live() == live && tally::alive() == alive, "a refused conversion drops the vector");
                vp::end();
            }
            20 => {
                let mut w = V::from_vec(vec_of::<E2>(&[], 2, 0));
                none = v.append(&mut w).is_none();
                check!(w.len() == 0 && w.element_type_id() == TypeId::of::<E2>(), "a refused append leaves the other vector alone");
            }
            21 => { none = v.resize(n, e).is_none(); used = 1; }
            _ => {
                none = n == 0 || v.get(0).downcast::<E2>().is_none() && v.get_mut(0).downcast::<E2>().is_none();
            }
        }
        check!(none, "an operation with another type is refused");
        if used == 1 {
            check!(tally::drops(made as u32) == 1, "a refused value is dropped");
        }
        check!(v.len() == n && v.element_type_id() == TypeId::of::<D>(), "a refused operation changes nothing");
        if n == 1 {
            let d = &v.as_slice_as::<D>().unwrap()[0];
            check!(d.v == x && d.id + 1 == made as u32 && tally::drops(d.id) == 0, "a refused operation changes nothing");
        } else {
            check!(v.push_as(D::new(x)).is_some(), "push_as still takes the right type");
        }
        witness!(op == 22 && n == 1);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    }) });
}

fn dynslices() {
    split!(op in 0, 13 => { split!(n in 0, 1 => {
        let x = vp::any_u32();
        let e = E2 { v: !x, id: tally::make() };
        let es = [e];
        let mut out: Vec<E2> = Vec::with_capacity(2);
        let ds = [D::new(x)];
        let mut ms = [D::new(x)];
        let none;
        {
            let r: Slice<CloneVTable> = Slice::from_slice(&ds[..n]);
            let mut s: SliceMut<CloneVTable> = SliceMut::from_slice(&mut ms[..n]);
            match op {
                0 => none = r.check::<E2>().is_none() && r.check::<D>().is_some(),
                1 => none = r.iter_as::<E2>().is_none(),
                2 => none = r.append_clone_to_vec::<E2>(&mut out).is_none(),
                3 => none = r.clone_into_vec::<E2>().is_none(),
                4 => none = r.as_slice::<E2>().is_none(),
                5 => none = n == 0 || r.get_as::<E2>(0).is_none(),
                6 => none = s.clone_from_slice(&es[..n]).is_none(),
                7 => none = s.check::<E2>().is_none() && s.check::<D>().is_some(),
                8 => none = s.iter_as::<E2>().is_none(),
                9 => none = s.append_clone_to_vec::<E2>(&mut out).is_none(),
                10 => none = s.clone_into_vec::<E2>().is_none(),
                11 => none = s.as_slice::<E2>().is_none(),
                12 => none = n == 0 || s.get_as::<E2>(0).is_none(),
                _ => none = n == 0 || r.get(0).downcast::<E2>().is_none() && s.get_mut(0).downcast::<E2>().is_none(),
            }
        }
        check!(none, "an operation with another type is refused");
        check!(out.len() == 0, "a refused copy leaves the destination alone");
        check!(ms[0].v == x && tally::made() == 3 && tally::alive() == 3, "a refused operation changes nothing");
        witness!(op == 13 && n == 1);
    }) });
}

fn values() {
    split!(op in 0, 10 => {
        let live = vp::live();
        let x = vp::any_u32();
        let y = vp::any_u32();
        let none = match op {
            0 => BoxValue::<CloneVTable>::new(D::new(x)).downcast::<E2>().is_none(),
            1 => SmallValue::<CloneVTable>::new(D::new(x)).downcast::<E2>().is_none(),
            2 => { let d = D::new(x); let r: ValueRef<CloneVTable> = ValueRef::new(&d); !r.is::<E2>() && r.is::<D>() && r.downcast::<E2>().is_none() }
            3 => { let mut d = D::new(x); let r: ValueMut<CloneVTable> = ValueMut::new(&mut d); !r.is::<E2>() && r.is::<D>() && r.downcast::<E2>().is_none() && d.v == x }
            4 => {
                let mut d = D::new(x);
                let e = E2 { v: y, id: tally::make() };
                let ok = {
                    let mut r: ValueMut<CloneVTable> = ValueMut::new(&mut d);
                    match r.clone_from_other(ValueRef::new(&e)) {
                        Err(Error::MismatchedTypes { expected, actual }) => expected == TypeId::of::<D>() && actual == TypeId::of::<E2>(),
                        _ => false,
                    }
                };
                ok && d.v == x && tally::made() == 2 && e.v == y
            }
            5 => {
                let mut d = D::new(x);
                let mut e = E2 { v: y, id: tally::make() };
                {
                    let mut r: ValueMut<CloneVTable> = ValueMut::new(&mut d);
                    r.swap(&mut ValueMut::new(&mut e));
                }
                d.v == x && d.id == 0 && e.v == y && e.id == 1
            }
            6 => {
                let mut d = D::new(x);
                {
                    let mut r: ValueMut<CloneVTable> = ValueMut::new(&mut d);
                    r.assign(BoxValue::new(E2 { v: y, id: tally::make() }));
                }
                d.v == x && d.id == 0 && tally::drops(1) == 1
            }
            7 => {
                let mut d = D::new(x);
                {
                    let mut r: ValueMut<CloneVTable> = ValueMut::new(&mut d);
                    r.assign(SmallValue::new(E2 { v: y, id: tally::make() }));
                }
                d.v == x && d.id == 0 && tally::drops(1) == 1
            }
            8 => { let r: CopyValueRef = CopyValueRef::new(&x); !r.is::<Like32>() && r.is::<u32>() && r.downcast::<Like32>().is_none() }
            9 => {
                let mut a = x;
                let b = Like32(y);
                let none = { let r: CopyValueMut = CopyValueMut::new(&mut a); r.copy(CopyValueRef::new(&b)).is_none() };
                none && a == x
            }
            _ => {
                let mut a = x;
                let mut b = Like32(y);
                { let mut r: CopyValueMut = CopyValueMut::new(&mut a); r.swap(&mut CopyValueMut::new(&mut b)); }
                let none = { let r: CopyValueMut = CopyValueMut::new(&mut a); r.downcast::<Like32>().is_none() };
                none && a == x && b.0 == y
            }
        };
        check!(none, "an operation with another type is refused and changes nothing");
        check!(tally::alive() == 0, "every value is dropped");
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 10);
    });
}

/// try_new of a value that is not one word.
fn small() {
    split!(op in 0, 2 => {
        let x = vp::any_u32();
        match op {
            0 => check!(SmallValue::<CloneVTable>::try_new(x).is_none(), "too small for a word"),
            1 => check!(SmallValue::<CloneVTable>::try_new([x as u64, 1]).is_none(), "too large for a word"),
            _ => {
                let v = SmallValue::<CloneVTable>::try_new([x, !x]).unwrap();
                let a = v.downcast::<[u32; 2]>().unwrap();
                check!(a == [x, !x], "a word sized value fits");
            }
        }
        witness!(op == 2);
    });
}

harnesses! {
#[unwind(40)] fn ty_veccopy_like32() { veccopy::<u32, Like32>() }
#[unwind(40)] fn ty_veccopy_b3_u16() { veccopy::<B3, u16>() }
#[unwind(40)] fn ty_copyslices_b4() { copyslices::<u32, B4>() }
#[unwind(40)] fn ty_vecdyn() { vecdyn() }
#[unwind(40)] fn ty_dynslices() { dynslices() }
#[unwind(40)] fn ty_values() { values() }
#[unwind(40)] fn ty_small() { small() }
thorough {
#[unwind(40)] fn ty_veccopy_f32() { veccopy::<f32, u32>() }
#[unwind(40)] fn ty_veccopy_sign() { veccopy::<u8, i8>() }
#[unwind(40)] fn ty_veccopy_h3() { veccopy::<H3, u16>() }
#[unwind(40)] fn ty_veccopy_arr() { veccopy::<u8, B4>() }
#[unwind(40)] fn ty_copyslices_h3() { copyslices::<H3, B3>() }
#[unwind(40)] fn ty_copyslices_f64() { copyslices::<f64, u64>() }
#[unwind(40)] fn ty_copyslices_pad() { copyslices::<Pad, W3>() }
}
}
