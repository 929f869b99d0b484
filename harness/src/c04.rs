//! Every value is dropped exactly once, when a Vec or a Box would drop it, and no block leaks.
//! (Dropping twice, or dropping what never was a value, fails inside `D::drop`.)
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;

type V = VecDyn<CloneVTable>;

/// `n` fresh values whose numbers are consecutive from `tally::made()`.
fn ds(n: usize, cap: usize) -> Vec<D> {
    let mut v = Vec::with_capacity(cap);
    let mut i = 0;
    while i < n {
        v.push(D::new(i as u32));
        i += 1;
    }
    v
}
/// Of the numbers `from..to`, all are dropped (or none).
fn all(from: usize, to: usize, dropped: u8) -> bool {
    let mut ok = true;
    let mut i = from;
    while i < to {
        ok = ok & (tally::drops(i as u32) == dropped);
        i += 1;
    }
    ok
}

fn vecs(lo: usize, hi: usize) {
    split!(op in lo, hi => { split!(c in 0, 1 => {
        let n = c * 2;
        let live = vp::live();
        let mut v = V::from_vec(ds(n, n + c));
        match op {
            0 => {}
            1 => { v.clear(); check!(all(0, n, 1), "clear drops every element"); check!(v.len() == 0, "clear"); }
            2 => {
                check!(v.resize(n / 2, D::new(9)).is_some(), "resize");
                check!(all(0, n / 2, 0) && all(n / 2, n, 1), "shrinking drops exactly the tail");
                check!(tally::drops(n as u32) == 1, "the fill value is dropped");
            }
            3 => {
                check!(v.resize(n + 2, D::new(9)).is_some(), "resize");
                check!(all(0, n, 0) && tally::drops(n as u32) == 1 && tally::alive() == n + 2, "growing drops only the original of the fill value");
            }
            4 => {
                check!(v.fill(D::new(9)).is_some(), "fill");
                check!(all(0, n + 1, 1) && tally::alive() == n, "fill drops what it overwrites");
            }
            5 => {
                check!(v.push_as(D::new(9)).is_some(), "push_as");
                check!(all(0, n + 1, 0), "pushing drops nothing");
            }
            6 => {
                check!(v.push(BoxValue::<DropVTable>::new(D::new(9))).is_some(), "push");
                check!(all(0, n + 1, 0), "pushing drops nothing");
            }
            7 => {
                let d = D::new(9);
                check!(v.push_cloned(ValueRef::new(&d)).is_some(), "push_cloned");
                check!(all(0, n + 2, 0), "pushing a clone drops nothing");
            }
            8 => {
                let mut w = V::from_vec(ds(2, 2));
                check!(v.append(&mut w).is_some(), "append");
                check!(w.len() == 0 && v.len() == n + 2, "append");
                drop(w);
                check!(all(0, n + 2, 0), "append moves");
            }
            9 => {
                let w = v.clone();
                check!(tally::alive() == 2 * n, "clone");
                drop(v);
                check!(all(0, n, 1) && all(n, 2 * n, 0), "dropping the original leaves the clone");
                drop(w);
                check!(tally::alive() == 0 && vp::live() == live, "nothing leaks");
                vp::end();
            }
            10 => {
                let x = v.into_vec::<D>().unwrap();
                check!(all(0, n, 0), "into_vec moves");
                drop(x);
                check!(tally::alive() == 0 && vp::live() == live, "nothing leaks");
                vp::end();
            }
            11 => {
                check!(v.into_vec::<E2>().is_none(), "into_vec");
                check!(all(0, n, 1) && vp::live() == live, "a refused into_vec drops the elements");
                vp::end();
            }
            12 => {
                check!(v.check::<E2>().is_none(), "check");
                check!(all(0, n, 1) && vp::live() == live, "a refused check drops the elements");
                vp::end();
            }
            13 => {
                check!(v.push_as(E2 { v: 0, id: tally::make() }).is_none(), "push_as");
                check!(all(0, n, 0) && tally::drops(n as u32) == 1, "a refused value is dropped");
            }
            14 => {
                check!(v.push(BoxValue::<DropVTable>::new(E2 { v: 0, id: tally::make() })).is_none(), "push");
                check!(all(0, n, 0) && tally::drops(n as u32) == 1, "a refused value is dropped");
            }
            15 => {
                check!(v.resize(n / 2, E2 { v: 0, id: tally::make() }).is_none(), "resize");
                check!(all(0, n, 0) && tally::drops(n as u32) == 1, "a refused value is dropped");
            }
            16 => {
                check!(v.fill(E2 { v: 0, id: tally::make() }).is_none(), "fill");
                check!(all(0, n, 0) && tally::drops(n as u32) == 1, "a refused value is dropped");
            }
            17 => {
                let u: VecDyn<DropVTable> = unsafe { let (d, t) = v.into_raw_parts(); VecDyn::from_raw_parts(d, Box::new(DropVTable(t.0))) };
                check!(all(0, n, 0) && u.len() == n, "raw parts move");
                drop(u);
                check!(all(0, n, 1) && vp::live() == live, "nothing leaks");
                vp::end();
            }
            18 => {
                let w = V::with_type_from(&v);
                check!(w.len() == 0, "with_type_from");
                drop(w);
                check!(all(0, n, 0), "with_type_from drops nothing");
            }
            19 => if n > 0 {
                v.get_mut(0).assign(BoxValue::new(D::new(9)));
                check!(tally::drops(0) == 1 && all(1, n + 1, 0), "assign drops what it overwrites");
            }
            20 => if n > 0 {
                let d = D::new(9);
                check!(v.get_mut(1).clone_from_other(ValueRef::new(&d)).is_ok(), "clone_from_other");
                check!(tally::drops(1) == 1 && tally::drops(0) == 0 && tally::drops(n as u32) == 0, "clone_from_other drops what it overwrites");
            }
            21 => if n > 0 {
                let mut d = D::new(9);
                v.get_mut(0).swap(&mut ValueMut::new(&mut d));
                check!(all(0, n + 1, 0) && d.id == 0, "swap drops nothing");
            }
            22 => {
                v.rotate_left(n / 2);
                v.rotate_right(n);
                if n > 0 { v.as_mut_slice().swap(0, 1); v.as_mut_slice().rotate_left(1); }
                check!(all(0, n, 0), "rotating and swapping drop nothing");
            }
            23 => {
                let mut k = 0;
                for x in v.iter() { let b = x.clone_value(); check!(b.downcast::<D>().unwrap().v == k, "clone_value"); k += 1; }
                check!(all(0, n, 0) && tally::alive() == n, "clones taken while iterating are dropped");
            }
            24 => {
                let x = v.clone_into_vec::<D>().unwrap();
                check!(all(0, 2 * n, 0), "clone_into_vec drops nothing");
                drop(x);
                check!(all(0, n, 0) && all(n, 2 * n, 1), "clone_into_vec clones");
            }
            25 => {
                let x = ds(2, 2);
                check!(v.as_mut_slice().clone_from_slice(&x[..n]).is_some(), "clone_from_slice");
                check!(all(0, n, 1) && all(n, n + 2, 0) && tally::alive() == n + 2, "clone_from_slice drops what it overwrites");
            }
            26 => {
                let o: Option<Vec<D>> = v.into();
                check!(all(0, n, 0), "into Option<Vec> moves");
                drop(o);
                check!(tally::alive() == 0 && vp::live() == live, "nothing leaks");
                vp::end();
            }
            _ => {
                let w = v.check::<D>().unwrap();
                check!(all(0, n, 0), "check drops nothing");
                drop(w);
                check!(all(0, n, 1) && vp::live() == live, "nothing leaks");
                vp::end();
            }
        }
        witness!(n == 2);
        drop(v);
        check!(tally::alive() == 0, "dropping the vector drops every element");
        check!(vp::live() == live, "nothing leaks");
    }) });
}

fn makes() {
    split!(op in 0, 5 => { split!(n in 0, 2 => {
        let live = vp::live();
        let v = match op {
            0 => { let v = V::with_size(n, D::new(1)); check!(tally::alive() == n, "with_size"); v }
            1 => { let x = ds(n, n); let v = V::from_slice(&x); check!(tally::alive() == 2 * n, "from_slice"); v }
            2 => { let x = ds(n, n); let v = V::from(&x[..]); check!(tally::alive() == 2 * n, "from"); v }
            3 => V::with_capacity::<D>(n),
            4 => V::from(ds(n, n + 1)),
            _ => { let v = V::from_vec(ds(n, n)); let w = V::with_type_from(&v); drop(v); w }
        };
        check!(tally::alive() == v.len(), "each element is alive");
        drop(v);
        check!(tally::alive() == 0, "dropping the vector drops every element");
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 4 && n == 2);
    }) });
}

fn values() {
    split!(op in 0, 15 => {
        let live = vp::live();
        let x = vp::any_u32();
        match op {
            0 => { let b = BoxValue::<CloneVTable>::new(D::new(x)); check!(all(0, 1, 0), "kept"); drop(b); check!(all(0, 1, 1), "dropped"); }
            1 => { let b = SmallValue::<CloneVTable>::new(D::new(x)); check!(all(0, 1, 0), "kept"); drop(b); check!(all(0, 1, 1), "dropped"); }
            2 => { let b = BoxValue::<CloneVTable>::new(D::new(x)).downcast::<D>().unwrap(); check!(all(0, 1, 0) && b.v == x, "downcast moves"); }
            3 => { let b = SmallValue::<CloneVTable>::new(D::new(x)).downcast::<D>().unwrap(); check!(all(0, 1, 0) && b.v == x, "downcast moves"); }
            4 => { check!(BoxValue::<CloneVTable>::new(D::new(x)).downcast::<E2>().is_none(), "downcast"); check!(all(0, 1, 1), "a refused downcast drops"); }
            5 => { check!(SmallValue::<CloneVTable>::new(D::new(x)).downcast::<E2>().is_none(), "downcast"); check!(all(0, 1, 1), "a refused downcast drops"); }
            6 => {
                let a = BoxValue::<CloneVTable>::new(D::new(x));
                let b = a.clone();
                drop(a);
                check!(all(0, 1, 1) && all(1, 2, 0), "a clone outlives its source");
                check!(b.downcast::<D>().unwrap().v == x, "clone");
            }
            7 => {
                let a = SmallValue::<CloneVTable>::new(D::new(x));
                let b = a.clone();
                drop(a);
                check!(all(0, 1, 1) && all(1, 2, 0), "a clone outlives its source");
                check!(b.downcast::<D>().unwrap().v == x, "clone");
            }
            8 => {
                let mut d = D::new(x);
                { let mut m: ValueMut<CloneVTable> = ValueMut::new(&mut d); m.assign(SmallValue::new(D::new(!x))); }
                check!(all(0, 1, 1) && d.v == !x && d.id == 1, "assign drops what it overwrites");
            }
            9 => {
                let mut a = BoxValue::<CloneVTable>::new(D::new(x));
                a.as_mut().assign(BoxValue::new(D::new(!x)));
                check!(all(0, 1, 1) && all(1, 2, 0), "assign drops what it overwrites");
            }
            10 => {
                let d = D::new(x);
                let r: ValueRef<CloneVTable> = ValueRef::new(&d);
                let s = r.clone_small_value();
                let b = r.clone_value();
                drop(r);
                check!(tally::alive() == 3, "clones");
                drop(s);
                check!(all(1, 2, 1) && tally::alive() == 2, "a small clone is dropped");
                drop(b);
                check!(all(2, 3, 1) && d.v == x, "a boxed clone is dropped");
            }
            11 => {
                check!(SmallValue::<CloneVTable>::try_new((D::new(x), 1u8)).is_none(), "try_new");
                check!(all(0, 1, 1), "a value that does not fit is dropped");
            }
            12 => {
                let mut a = BoxValue::<CloneVTable>::new(D::new(x));
                let mut b = SmallValue::<CloneVTable>::new(D::new(!x));
                a.as_mut().swap(&mut b.as_mut());
                check!(all(0, 2, 0), "swap drops nothing");
                drop(b);
                check!(all(0, 1, 1) && all(1, 2, 0), "swap exchanges");
            }
            13 => {
                let mut a = BoxValue::<CloneVTable>::new(D::new(x));
                let b = BoxValue::<CloneVTable>::new(D::new(!x));
                check!(a.as_mut().clone_from_other(&b).is_ok(), "clone_from_other");
                check!(all(0, 1, 1) && all(1, 3, 0), "clone_from_other drops what it overwrites");
            }
            14 => {
                let mut a = BoxValue::<CloneVTable>::new(H::new(x));
                let b = a.clone();
                a.as_mut().assign(b.clone());
                check!(a.downcast::<H>().unwrap().ok(x), "clone and assign");
                drop(b);
            }
            _ => {
                let d = D::new(x);
                let r: ValueRef<CloneVTable> = ValueRef::new(&d);
                let q = r.clone();
                check!(q.downcast::<D>().unwrap().v == x, "a reference is copied");
                drop(r);
                check!(all(0, 1, 0), "references drop nothing");
            }
        }
        check!(tally::alive() == 0, "every value is dropped");
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 15);
    });
}

/// Two operations in a row on a vector whose elements own heap blocks.
const OPS: usize = 9;
fn step(op: usize, v: &mut V) {
    match op {
        0 => check!(v.push_as(H::new(1)).is_some(), "push_as"),
        1 => check!(v.push(BoxValue::<CloneVTable>::new(H::new(2))).is_some(), "push"),
        2 => check!(v.resize(v.len() + 1, H::new(3)).is_some(), "resize"),
        3 => check!(v.resize(v.len() / 2, H::new(4)).is_some(), "resize"),
        4 => check!(v.fill(H::new(5)).is_some(), "fill"),
        5 => { let mut w = v.clone(); check!(v.append(&mut w).is_some(), "append"); }
        6 => *v = v.clone(),
        7 => if v.len() > 0 { let b = v.get(0).clone_value(); let l = v.len() - 1; v.get_mut(l).assign(b); },
        8 => { let h = H::new(6); check!(v.push_cloned(ValueRef::new(&h)).is_some(), "push_cloned"); }
        _ => v.clear(),
    }
}
fn owners(first: usize) {
    split!(b in 0, OPS => {
        let live = vp::live();
        let mut v = V::with_type::<H>();
        check!(v.push_as(H::new(0)).is_some(), "push_as");
        step(first, &mut v);
        step(b, &mut v);
        let mut i = 0;
        while i < v.len() {
            let h = v.get_ref_as::<H>(i).unwrap();
            check!(h.ok(*h.b) && *h.b < 7, "every element owns its block");
            i += 1;
        }
        witness!(b == OPS);
        drop(v);
        check!(vp::live() == live, "nothing leaks");
    });
}

harnesses! {
#[unwind(40)] fn drop_vecs_a() { vecs(0, 9) }
#[unwind(40)] fn drop_vecs_b() { vecs(10, 18) }
#[unwind(40)] fn drop_vecs_c() { vecs(19, 27) }
#[unwind(40)] fn drop_makes() { makes() }
#[unwind(40)] fn drop_values() { values() }
#[unwind(40)] fn drop_own_push() { owners(1) }
#[unwind(40)] fn drop_own_resize() { owners(2) }
#[unwind(40)] fn drop_own_clone() { owners(6) }
thorough {
#[unwind(40)] fn drop_own_pushas() { owners(0) }
#[unwind(40)] fn drop_own_shrink() { owners(3) }
#[unwind(40)] fn drop_own_fill() { owners(4) }
#[unwind(40)] fn drop_own_append() { owners(5) }
#[unwind(40)] fn drop_own_assign() { owners(7) }
#[unwind(40)] fn drop_own_pushc() { owners(8) }
#[unwind(40)] fn drop_own_clear() { owners(9) }
}
}
