//! Changing the vtable never changes the elements.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::hash::{Hash, Hasher};

/// Behaviours declared by users, flat and inherited.
#[dync_trait]
pub trait Flat: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T: Clone + Eq + Hash + std::fmt::Debug> Flat for T {}
/// Not in the order of the builtin list, and without some of them.
#[dync_trait]
pub trait Few: std::hash::Hash + Clone {}
impl<T: Clone + Hash> Few for T {}
#[dync_mod]
pub mod der {
    pub trait Base: PartialEq + Clone {}
    pub trait Mid: Base + std::hash::Hash {}
    pub trait Side: std::fmt::Debug + Clone {}
    pub trait Top: Eq + Mid + Side {}
}
use der::*;
impl<T: Clone + PartialEq> Base for T {}
impl<T: Base + Hash> Mid for T {}
impl<T: Clone + std::fmt::Debug> Side for T {}
impl<T: Eq + Mid + Side> Top for T {}

pub trait Elt: Own + Eq + Hash + std::fmt::Debug {}
impl<T: Own + Eq + Hash + std::fmt::Debug> Elt for T {}

fn two<T: Own>(x: u32, y: u32) -> Vec<T> {
    let mut v = Vec::with_capacity(2);
    v.push(T::own(x));
    v.push(T::own(y));
    v
}
fn hash_of<T: Hash>(ts: &[T]) -> u64 {
    let mut h = Acc(7);
    let mut i = 0;
    while i < ts.len() { ts[i].hash(&mut h); i += 1; }
    h.finish()
}

// What a container, slice or value made from T(x), T(y) does, by behaviour.
macro_rules! holds {
    ($v:expr, $t:ty, $x:expr, $y:expr) => {{
        check!($v.element_type_id() == TypeId::of::<$t>() && $v.element_size() == core::mem::size_of::<$t>() && $v.len() == 2, "the element type and the length are kept");
        let s = $v.as_slice_as::<$t>().unwrap();
        check!(s[0].is($x) && s[1].is($y), "the elements are kept");
    }};
}
macro_rules! clones {
    ($v:expr, $t:ty, $x:expr, $y:expr) => {{
        let mut w = $v.clone();
        holds!(w, $t, $x, $y);
        check!(w.push_cloned(w.clone().get(0)).is_some(), "push_cloned");
        let other = <$t>::own($y);
        check!(w.get_mut(0).clone_from_other(ValueRef::new(&other)).is_ok(), "clone_from_other");
        check!(w.get_ref_as::<$t>(0).unwrap().is($y) && w.get_ref_as::<$t>(1).unwrap().is($y) && w.get_ref_as::<$t>(2).unwrap().is($x), "every way to clone is the type's own");
        let b = w.get(2).clone_value();
        check!(b.downcast::<$t>().unwrap().is($x), "every way to clone is the type's own");
    }};
}
macro_rules! compares {
    ($v:expr, $make:expr, $x:expr, $y:expr, $z:expr) => {{
        let w = $make($x, $z);
        check!(($v == w) == ($y == $z), "equality is the type's own");
    }};
}
macro_rules! hashes {
    ($v:expr, $t:ty, $x:expr, $y:expr) => {{
        let mut h = Acc(7);
        $v.hash(&mut h);
        check!(h.finish() == hash_of(&two::<$t>($x, $y)[..]), "the hash is the type's own");
    }};
}

/// A vector, through every conversion between tables.
fn vectors<T: Elt>(lo: usize, hi: usize) {
    split!(to in lo, hi => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y, z) = (vp::any_u32(), vp::any_u32(), vp::any_u32());
        vp::assume(x & 0xff_ffff == x && y & 0xff_ffff == y && z & 0xff_ffff == z);
        let top = || VecDyn::<TopVTable>::from_vec(two::<T>(x, y));
        let flat = || VecDyn::<FlatVTable>::from_vec(two::<T>(x, y));
        match to {
            0 => { let v = top(); holds!(v, T, x, y); clones!(v, T, x, y); compares!(v, |x, y| VecDyn::<TopVTable>::from_vec(two::<T>(x, y)), x, y, z); hashes!(v, T, x, y); }
            1 => { let v = flat(); holds!(v, T, x, y); clones!(v, T, x, y); compares!(v, |x, y| VecDyn::<FlatVTable>::from_vec(two::<T>(x, y)), x, y, z); hashes!(v, T, x, y); }
            2 => { let v: VecDyn<MidVTable> = top().upcast(); holds!(v, T, x, y); clones!(v, T, x, y); compares!(v, |x, y| VecDyn::<MidVTable>::from_vec(two::<T>(x, y)), x, y, z); hashes!(v, T, x, y); }
            3 => { let v: VecDyn<BaseVTable> = top().upcast(); holds!(v, T, x, y); clones!(v, T, x, y); compares!(v, |x, y| VecDyn::<BaseVTable>::from_vec(two::<T>(x, y)), x, y, z); }
            4 => { let v: VecDyn<BaseVTable> = top().upcast::<MidVTable>().upcast(); holds!(v, T, x, y); clones!(v, T, x, y); compares!(v, |x, y| VecDyn::<BaseVTable>::from_vec(two::<T>(x, y)), x, y, z); }
            5 => { let v: VecDyn<CloneVTable> = top().upcast::<SideVTable>().upcast(); holds!(v, T, x, y); clones!(v, T, x, y); }
            6 => { let v: VecDyn<PartialEqVTable> = top().upcast::<BaseVTable>().upcast(); holds!(v, T, x, y); compares!(v, |x, y| VecDyn::<PartialEqVTable>::from_vec(two::<T>(x, y)), x, y, z); }
            7 => { let v: VecDyn<HashVTable> = top().upcast::<MidVTable>().upcast(); holds!(v, T, x, y); hashes!(v, T, x, y); }
            8 => { let v: VecDyn<EqVTable> = top().upcast(); holds!(v, T, x, y); compares!(v, |x, y| VecDyn::<EqVTable>::from_vec(two::<T>(x, y)), x, y, z); }
            9 => { let v: VecDyn<DropVTable> = flat().upcast(); holds!(v, T, x, y); }
            10 => { let v: VecDyn<EqVTable> = flat().upcast(); holds!(v, T, x, y); compares!(v, |x, y| VecDyn::<EqVTable>::from_vec(two::<T>(x, y)), x, y, z); }
            11 => {
                let v: VecDyn<FewVTable> = VecDyn::from_vec(two::<T>(x, y)); holds!(v, T, x, y); clones!(v, T, x, y); hashes!(v, T, x, y);
                let w: VecDyn<HashVTable> = v.clone().upcast(); hashes!(w, T, x, y);
                let w: VecDyn<CloneVTable> = v.upcast(); clones!(w, T, x, y);
            }
            _ => {
                let v = VecDyn::<(DropFn, ())>::from_vec(two::<B3>(x, y)); holds!(v, B3, x, y);
                let v = VecDyn::<(DropFn, CloneVTable)>::from_vec(two::<T>(x, y)); holds!(v, T, x, y); clones!(v, T, x, y);
                let v = VecDyn::<(DropFn, FlatVTable)>::from_vec(two::<T>(x, y));
                compares!(v, |x, y| VecDyn::<(DropFn, FlatVTable)>::from_vec(two::<T>(x, y)), x, y, z); hashes!(v, T, x, y);
            }
        }
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(to == hi);
    });
}

macro_rules! held {
    ($s:expr, $t:ty, $x:expr, $y:expr) => {{
        check!($s.element_type_id() == TypeId::of::<$t>() && $s.element_size() == core::mem::size_of::<$t>() && $s.len() == 2, "the element type and the length are kept");
        check!($s.get(0).downcast::<$t>().unwrap().is($x) && $s.get(1).downcast::<$t>().unwrap().is($y), "the elements are kept");
    }};
}
/// Slices.
fn slices<T: Elt>() {
    split!(to in 0, 7 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y, z) = (vp::any_u32(), vp::any_u32(), vp::any_u32());
        vp::assume(x & 0xff_ffff == x && y & 0xff_ffff == y && z & 0xff_ffff == z);
        let mut a = two::<T>(x, y);
        let mut b = two::<T>(x, z);
        let mut v = VecDyn::<TopVTable>::from_vec(two::<T>(x, y));
        match to {
            0 => {
                let s: Slice<TopVTable> = Slice::from_slice(&a[..]);
                let s: Slice<MidVTable> = s.upcast(); held!(s, T, x, y);
                let o: Slice<MidVTable> = Slice::from_slice(&b[..]);
                check!((s == o) == (y == z), "equality is the type's own");
                check!(s.get(1).clone_value().downcast::<T>().unwrap().is(y), "every way to clone is the type's own");
                let mut h = Acc(7);
                s.get(0).hash(&mut h); s.get(1).hash(&mut h);
                check!(h.finish() == hash_of(&a[..]), "the hash is the type's own");
            }
            1 => {
                let s: Slice<CloneVTable> = v.as_slice().upcast(); held!(s, T, x, y);
                check!(s.get(0).clone_value().downcast::<T>().unwrap().is(x), "every way to clone is the type's own");
            }
            2 => {
                let s: Slice<PartialEqVTable> = v.as_slice().upcast::<BaseVTable>().upcast(); held!(s, T, x, y);
                let o: Slice<PartialEqVTable> = Slice::from_slice(&b[..]);
                check!((s == o) == (y == z), "equality is the type's own");
            }
            3 => {
                let s: SliceMut<TopVTable> = SliceMut::from_slice(&mut a[..]);
                let mut s: SliceMut<BaseVTable> = s.upcast(); held!(s, T, x, y);
                check!(s.get_mut(0).clone_from_other(ValueRef::new(&b[1])).is_ok(), "clone_from_other");
                drop(s);
                check!(a[0].is(z) && a[1].is(y), "the elements are those of the slice");
            }
            4 => {
                let mut s: SliceMut<DropVTable> = v.as_mut_slice().upcast(); held!(s, T, x, y);
                s.get_mut(1).assign(BoxValue::new(T::own(z)));
                drop(s);
                holds!(v, T, x, z);
            }
            5 => {
                let s: SliceMut<EqVTable> = v.as_mut_slice().upcast(); held!(s, T, x, y);
                let o: SliceMut<EqVTable> = SliceMut::from_slice(&mut b[..]);
                check!((s == o) == (y == z), "equality is the type's own");
            }
            6 => {
                let s = into_dyn![Slice<dyn HasTop>](v.as_slice()); held!(s, T, x, y);
                let o = into_dyn![Slice<dyn HasTop>](Slice::<TopVTable>::from_slice(&b[..])); held!(o, T, x, z);
                check!((s == o) == (y == z), "equality is the type's own");
                let s = from_dyn![Slice<dyn HasTop as TopVTable>](s); held!(s, T, x, y);
                check!(s.get(1).clone_value().downcast::<T>().unwrap().is(y), "every way to clone is the type's own");
            }
            _ => {
                let mut s = into_dyn![SliceMut<dyn HasTop>](v.as_mut_slice()); held!(s, T, x, y);
                let mut o = into_dyn![SliceMut<dyn HasTop>](SliceMut::<TopVTable>::from_slice(&mut b[..])); held!(o, T, x, z);
                s.get_mut(0).swap(&mut o.get_mut(1));
                let s = from_dyn![SliceMut<dyn HasTop as TopVTable>](s); held!(s, T, z, y);
                let s: Slice<TopVTable> = s.into();
                check!(s.get(1).clone_value().downcast::<T>().unwrap().is(y), "every way to clone is the type's own");
                drop(s); drop(o);
                holds!(v, T, z, y);
                check!(b[0].is(x) && b[1].is(x), "elements are exchanged");
            }
        }
        drop(a); drop(b); drop(v);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(to == 7);
    });
}

/// Values.
fn values<T: Elt>() {
    split!(to in 0, 9 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y) = (vp::any_u32(), vp::any_u32());
        vp::assume(x & 0xff_ffff == x && y & 0xff_ffff == y);
        let mut a = T::own(x);
        let b = T::own(y);
        let own = hash_of(&[T::own(x)]);
        macro_rules! hashed { ($v:expr) => {{ let mut h = Acc(7); $v.hash(&mut h); check!(h.finish() == own, "the hash is the type's own"); }} }
        match to {
            0 => {
                let v: BoxValue<MidVTable> = BoxValue::<TopVTable>::new(T::own(x)).upcast();
                check!(v == v.clone() && (v == BoxValue::new(T::own(y))) == (x == y), "equality is the type's own");
                hashed!(v);
                check!(v.downcast::<T>().unwrap().is(x), "the value is kept");
            }
            1 => {
                let v: BoxValue<CloneVTable> = BoxValue::<TopVTable>::new(T::own(x)).upcast::<SideVTable>().upcast();
                check!(v.clone().downcast::<T>().unwrap().is(x), "every way to clone is the type's own");
                check!(v.downcast::<T>().unwrap().is(x), "the value is kept");
            }
            2 => { let v: BoxValue<DropVTable> = BoxValue::<TopVTable>::new(T::own(x)).upcast(); drop(v); }
            3 => { let v: BoxValue<HashVTable> = BoxValue::<FlatVTable>::new(T::own(x)).upcast(); hashed!(v); check!(v.downcast::<T>().unwrap().is(x), "the value is kept"); }
            4 => {
                let r: ValueRef<TopVTable> = ValueRef::new(&a);
                { let s: ValueRef<EqVTable> = r.upcast_ref(); check!((s == ValueRef::new(&b)) == (x == y), "equality is the type's own"); check!(s.is::<T>() && s.size() == core::mem::size_of::<T>() && s.value_alignment() == core::mem::align_of::<T>(), "what is known of the value is kept"); }
                let s: ValueRef<MidVTable> = r.upcast();
                hashed!(s);
                check!(s.clone_value().downcast::<T>().unwrap().is(x), "every way to clone is the type's own");
                check!(s.downcast::<T>().unwrap().is(x), "the value is kept");
            }
            5 => {
                {
                    let mut m: ValueMut<TopVTable> = ValueMut::new(&mut a);
                    { let mut n: ValueMut<CloneVTable> = m.upcast_mut(); check!(n.clone_from_other(ValueRef::new(&b)).is_ok(), "clone_from_other"); }
                    let mut n: ValueMut<BaseVTable> = m.upcast();
                    check!(n == ValueMut::new(&mut b.clone()) && n.is::<T>() && n.size() == core::mem::size_of::<T>() && n.value_alignment() == core::mem::align_of::<T>(), "what is known of the value is kept");
                    n.assign(BoxValue::new(T::own(x)));
                }
                check!(a.is(x), "the value is replaced whole");
            }
            6 => {
                let v: SmallValue<MidVTable> = SmallValue::<TopVTable>::new(Box::new(x)).upcast();
                check!(v == v.clone() && (v == SmallValue::new(Box::new(y))) == (x == y), "equality is the type's own");
                check!(*v.downcast::<Box<u32>>().unwrap() == x, "the value is kept");
            }
            7 => {
                let v: SmallValue<CloneVTable> = SmallValue::<TopVTable>::new(Box::new(x)).upcast::<SideVTable>().upcast();
                check!(*v.clone().downcast::<Box<u32>>().unwrap() == x, "every way to clone is the type's own");
                check!(*v.downcast::<Box<u32>>().unwrap() == x, "the value is kept");
            }
            8 => { let v: SmallValue<DropVTable> = SmallValue::<FlatVTable>::new(Box::new(x)).upcast(); drop(v); }
            _ => {
                let w = [x as u8, (x >> 8) as u8, 9];
                let r: ValueRef<(DropFn, FlatVTable)> = CopyValueRef::<FlatVTable>::new(&w).into();
                check!(r.clone_value().downcast::<B3>().map(|b| *b == w).unwrap(), "every way to clone is the type's own");
                let o = [x as u8, y as u8, 9];
                let q: ValueRef<(DropFn, FlatVTable)> = CopyValueRef::<FlatVTable>::new(&o).into();
                check!((r == q) == (w == o), "equality is the type's own");
                let c: CopyValueRef<HashVTable> = CopyValueRef::<FlatVTable>::new(&w).upcast();
                let mut h = Acc(7); c.hash(&mut h);
                check!(h.finish() == hash_of(&[w]), "the hash is the type's own");
            }
        }
        drop(a); drop(b);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(to == 9);
    });
}

/// Trait objects, and back.
fn objects<T: Elt>() {
    split!(op in 0, 5 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y, z) = (vp::any_u32(), vp::any_u32(), vp::any_u32());
        vp::assume(x & 0xff_ffff == x && y & 0xff_ffff == y && z & 0xff_ffff == z);
        let mut v = into_dyn![VecDyn<dyn HasTop>](VecDyn::<TopVTable>::from_vec(two::<T>(x, y)));
        held!(v, T, x, y);
        match op {
            0 => {
                let w = into_dyn![VecDyn<dyn HasTop>](VecDyn::<TopVTable>::from_vec(two::<T>(x, z)));
                check!((v == w) == (y == z), "equality is the type's own");
                hashes!(v, T, x, y);
            }
            1 => {
                check!(v.push(BoxValue::<DropVTable>::new(T::own(z))).is_some(), "push takes the right type");
                check!(v.push_as(T::own(x)).is_some(), "push_as takes the right type");
                v.rotate_left(1);
                let v = from_dyn![VecDyn<dyn HasTop as TopVTable>](v);
                let o = v.into_vec::<T>().unwrap();
                check!(o.len() == 4 && o[0].is(y) && o[1].is(z) && o[2].is(x) && o[3].is(x), "the elements are kept");
            }
            2 => {
                let mut w = into_dyn![VecDyn<dyn HasTop>](VecDyn::<TopVTable>::from_vec(two::<T>(x, z)));
                v.get_mut(0).swap(&mut w.get_mut(1));
                held!(v, T, z, y);
                held!(w, T, x, x);
            }
            3 => {
                let w = from_dyn![VecDyn<dyn HasTop as TopVTable>](v);
                holds!(w, T, x, y); clones!(w, T, x, y); hashes!(w, T, x, y);
                compares!(w, |x, y| VecDyn::<TopVTable>::from_vec(two::<T>(x, y)), x, y, z);
            }
            4 => {
                check!((v.get(0) == v.get(1)) == (x == y), "equality is the type's own");
                v.clear();
                check!(tally::alive() == alive && v.len() == 0, "the drop is the type's own");
                check!(v.push_as(T::own(z)).is_some() && v.get(0).downcast::<T>().unwrap().is(z), "a cleared vector is usable");
            }
            _ => check!(v.push_as(Another(x)).is_none() && v.push(BoxValue::<DropVTable>::new(Another(x))).is_none(), "another type is refused"),
        }
        check!(tally::alive() <= alive + 3, "elements are moved, not copied");
        witness!(op == 5);
    });
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Another(u32);

/// Back to a table it was not built with.
fn wrong_table_mp() {
    let v = into_dyn![VecDyn<dyn HasTop>](VecDyn::<TopVTable>::from_vec(two::<D>(1, vp::any_u32())));
    let w = from_dyn![VecDyn<dyn HasTop as LikeVTable>](v);
    core::mem::forget(w);
    must_not_return!("a vector is not given a table it was not built with");
}
fn wrong_slice_table_mp() {
    let xs = [1u32, vp::any_u32()];
    let s = into_dyn![Slice<dyn HasTop>](Slice::<TopVTable>::from_slice(&xs[..]));
    let _w = from_dyn![Slice<dyn HasTop as LikeVTable>](s);
    must_not_return!("a slice is not given a table it was not built with");
}
/// The layout of `TopVTable`, another type.
#[derive(Clone)]
pub struct LikeVTable(TopVTable);
impl HasDrop for LikeVTable { fn drop_fn(&self) -> &DropFn { self.0.drop_fn() } }
impl HasClone for LikeVTable {
    fn clone_fn(&self) -> &CloneFn { self.0.clone_fn() }
    fn clone_from_fn(&self) -> &CloneFromFn { self.0.clone_from_fn() }
    fn clone_into_raw_fn(&self) -> &CloneIntoRawFn { self.0.clone_into_raw_fn() }
}
impl HasPartialEq for LikeVTable { fn eq_fn(&self) -> &EqFn { self.0.eq_fn() } }
impl HasEq for LikeVTable {}
impl HasHash for LikeVTable { fn hash_fn(&self) -> &HashFn { self.0.hash_fn() } }
impl HasDebug for LikeVTable { fn fmt_fn(&self) -> &FmtFn { self.0.fmt_fn() } }
impl HasBase for LikeVTable {}
impl HasMid for LikeVTable {}
impl HasSide for LikeVTable {}
impl HasTop for LikeVTable {}

macro_rules! keptv {
    ($s:expr, $t:ty, $a:expr) => {{
        check!($s.element_type_id() == TypeId::of::<$t>() && $s.len() == 2, "the element type and the length are kept");
        let s = $s.as_slice_as::<$t>().unwrap();
        check!(s[0] == $a[0] && s[1] == $a[1], "the elements are kept");
    }};
}
/// Vectors and slices of Copy elements, with tables of their own.
pub struct Tag(u32);
impl<T: Copy> VTable<T> for Tag { fn build_vtable() -> Tag { Tag(core::mem::size_of::<T>() as u32) } }
#[derive(Clone)]
pub struct Tag2(u64);
impl From<Tag> for Tag2 { fn from(t: Tag) -> Tag2 { Tag2(t.0 as u64 + 1) } }
impl Clone for Tag { fn clone(&self) -> Tag { Tag(self.0) } }
pub trait HasTag: downcast::Downcast { fn tag(&self) -> u32; }
impl HasTag for Tag { fn tag(&self) -> u32 { self.0 } }
downcast::impl_downcast!(HasTag);

macro_rules! kept {
    ($s:expr, $t:ty, $a:expr) => {{
        check!($s.element_type_id() == TypeId::of::<$t>() && $s.len() == 2, "the element type and the length are kept");
        check!(*$s.get_as::<$t>(0).unwrap() == $a[0] && *$s.get_as::<$t>(1).unwrap() == $a[1], "the elements are kept");
    }};
}
fn copies<T: Sym>() {
    split!(op in 0, 8 => {
        let live = vp::live();
        let mut a = arr::<T, 2>();
        let b = a;
        let size = core::mem::size_of::<T>() as u32;
        let mut v: VecCopy<Tag> = VecCopy::from_vec(vec_of(&a, 3, 2));
        match op {
            0 => { let w: VecCopy<Tag2> = v.upcast(); keptv!(w, T, b); check!(w.into_raw_parts().1.0 == size as u64 + 1, "the table is converted"); v = VecCopy::with_type::<T>(); }
            1 => { let w = v.upcast_with(|t| (t.0, 1u8)); keptv!(w, T, b); v = w.upcast_with(|t| Tag(t.0 + t.1 as u32)); keptv!(v, T, b); check!(v.into_raw_parts().1.0 == size + 1, "the table is converted"); v = VecCopy::with_type::<T>(); }
            2 => { let s: SliceCopy<Tag2> = v.as_slice().upcast(); kept!(s, T, b); }
            3 => { let mut s: SliceCopyMut<Tag2> = v.as_mut_slice().upcast(); kept!(s, T, b); }
            4 => {
                let s: SliceCopyMut<Tag> = SliceCopyMut::from(&mut a[..]);
                let mut s: SliceCopyMut<Tag2> = s.upcast(); kept!(s, T, b);
                s.swap(0, 1);
                drop(s);
                check!(a[0] == b[1] && a[1] == b[0], "the elements are those of the slice");
            }
            5 => { let w = into_dyn![VecCopy<dyn HasTag>](v); keptv!(w, T, b); let w = from_dyn![VecCopy<dyn HasTag as Tag>](w); keptv!(w, T, b); v = w; check!(v.into_raw_parts().1.0 == size, "the table comes back"); v = VecCopy::with_type::<T>(); }
            6 => { let s = into_dyn![SliceCopy<dyn HasTag>](v.as_slice()); kept!(s, T, b); let s = from_dyn![SliceCopy<dyn HasTag as Tag>](s); kept!(s, T, b); check!(s.into_raw_parts().2.0 == size, "the table comes back"); }
            7 => {
                let mut s = into_dyn![SliceCopyMut<dyn HasTag>](v.as_mut_slice()); kept!(s, T, b);
                let mut s = from_dyn![SliceCopyMut<dyn HasTag as Tag>](s); kept!(s, T, b);
                check!(s.into_raw_parts().2.0 == size, "the table comes back");
            }
            _ => {
                let s: SliceCopy<Tag> = SliceCopy::from(&a[..]);
                let s = into_dyn![SliceCopy<dyn HasTag>](s); kept!(s, T, b);
                let s = from_dyn![SliceCopy<dyn HasTag as Tag>](s); kept!(s, T, b);
            }
        }
        drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(op == 8);
    });
}

/// An empty vector of another one's type takes that type, with its layout and behaviour, and no other.
fn from_type<T: Elt>() {
    split!(from in 0, 6 => {
        let live = vp::live();
        let alive = tally::alive();
        let (x, y) = (vp::any_u32(), vp::any_u32());
        vp::assume(x & 0xff_ffff == x && y & 0xff_ffff == y);
        let mut a = two::<T>(x, y);
        let mut v: VecDyn<TopVTable> = VecDyn::from_vec(two::<T>(x, y));
        let mut w: VecDyn<TopVTable> = match from {
            0 => VecDyn::with_type_from(&v),
            1 => VecDyn::with_type_from(v.as_slice()),
            2 => VecDyn::with_type_from(v.as_mut_slice()),
            3 => VecDyn::with_type_from(v.get(1)),
            4 => VecDyn::with_type_from(v.get_mut(0)),
            5 => VecDyn::with_type_from(ValueRef::new(&a[0])),
            _ => VecDyn::with_type_from(ValueMut::new(&mut a[0])),
        };
        check!(w.len() == 0 && w.element_type_id() == TypeId::of::<T>() && w.as_slice().element_size() == core::mem::size_of::<T>(), "an empty vector of the same type");
        check!(w.push_as(Another(x)).is_none(), "another type is refused");
        check!(w.push_as(T::own(x)).is_some() && w.push_cloned(ValueRef::new(&a[1])).is_some(), "the type is accepted");
        holds!(w, T, x, y);
        hashes!(w, T, x, y);
        check!(w.append(&mut v).is_some() && w.len() == 4, "the type is accepted");
        let o = w.into_vec::<T>().unwrap();
        check!(o[0].is(x) && o[1].is(y) && o[2].is(x) && o[3].is(y), "the elements are kept");
        drop(o); drop(v); drop(a);
        check!(tally::alive() == alive && vp::live() == live, "nothing leaks, everything is dropped");
        witness!(from == 6);
    });
}
fn from_type_copy<T: Sym>() {
    split!(from in 0, 5 => {
        let live = vp::live();
        let mut a = arr::<T, 2>();
        let b = a;
        let mut v: VecCopy = VecCopy::from_vec(vec_of(&a, 2, 2));
        let mut w: VecCopy = match from {
            0 => VecCopy::with_type_from(&v),
            1 => VecCopy::with_type_from(v.as_slice()),
            2 => VecCopy::with_type_from(v.as_mut_slice()),
            3 => VecCopy::with_type_from(v.get_ref(1)),
            4 => VecCopy::with_type_from(SliceCopy::from(&a[..])),
            _ => VecCopy::with_type_from(CopyValueRef::new(&a[0])),
        };
        check!(w.len() == 0 && w.element_type_id() == TypeId::of::<T>() && w.as_slice().element_size() == core::mem::size_of::<T>(), "an empty vector of the same type");
        check!(w.push_as(Another2(1)).is_none(), "another type is refused");
        check!(w.push_as(b[0]).is_some() && w.push(CopyValueRef::<()>::new(&a[1])).is_some(), "the type is accepted");
        keptv!(w, T, b);
        check!(w.append(&mut v).is_some() && w.len() == 4, "the type is accepted");
        let o = w.into_vec::<T>().unwrap();
        check!(o[0] == b[0] && o[1] == b[1] && o[2] == b[0] && o[3] == b[1], "the elements are kept");
        drop(o); drop(v);
        check!(vp::live() == live, "nothing leaks");
        witness!(from == 5);
    });
}
#[derive(Copy, Clone)]
struct Another2(u32);

harnesses! {
#[unwind(48)] fn vt_vec_h_a() { vectors::<H>(0, 2) }
#[unwind(48)] fn vt_vec_h_b() { vectors::<H>(3, 6) }
#[unwind(48)] fn vt_vec_h_c() { vectors::<H>(7, 10) }
#[unwind(48)] fn vt_vec_h_d() { vectors::<H>(11, 12) }
#[unwind(48)] fn vt_slice_d() { slices::<D>() }
#[unwind(48)] fn vt_value_h() { values::<H>() }
#[unwind(48)] fn vt_obj_d() { objects::<D>() }
#[unwind(48)] fn vt_table_mp() { wrong_table_mp() }
#[unwind(48)] fn vt_slice_table_mp() { wrong_slice_table_mp() }
#[unwind(48)] fn vt_copy_b3() { copies::<B3>() }
#[unwind(48)] fn vt_from_a64() { from_type::<A64>() }
#[unwind(48)] fn vt_from_h() { from_type::<H>() }
#[unwind(48)] fn vt_from_copy_b3() { from_type_copy::<B3>() }
#[unwind(80)] fn vt_from_copy_wide() { from_type_copy::<Wide>() }
thorough {
#[unwind(48)] fn vt_vec_d_a() { vectors::<D>(0, 5) }
#[unwind(48)] fn vt_vec_d_b() { vectors::<D>(6, 12) }
#[unwind(48)] fn vt_vec_b3_a() { vectors::<B3>(0, 5) }
#[unwind(48)] fn vt_vec_b3_b() { vectors::<B3>(6, 12) }
#[unwind(48)] fn vt_vec_box_a() { vectors::<Box<u32>>(0, 5) }
#[unwind(48)] fn vt_vec_box_b() { vectors::<Box<u32>>(6, 12) }
#[unwind(48)] fn vt_slice_h() { slices::<H>() }
#[unwind(48)] fn vt_slice_w3() { slices::<W3>() }
#[unwind(48)] fn vt_value_d() { values::<D>() }
#[unwind(48)] fn vt_value_b3() { values::<B3>() }
#[unwind(48)] fn vt_obj_h() { objects::<H>() }
#[unwind(48)] fn vt_copy_pad() { copies::<Pad>() }
#[unwind(48)] fn vt_copy_u128() { copies::<u128>() }
#[unwind(48)] fn vt_from_d() { from_type::<D>() }
#[unwind(80)] fn vt_from_wide() { from_type::<Wide>() }
#[unwind(48)] fn vt_from_copy_w3() { from_type_copy::<W3>() }
#[unwind(48)] fn vt_from_copy_u128() { from_type_copy::<u128>() }
}
}
