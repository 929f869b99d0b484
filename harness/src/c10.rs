//! Dynamic equality and hashing agree with the element type's own.
use crate::types::*;
use crate::vp;
use crate::*;
use dync::traits::*;
use dync::*;
use std::hash::{Hash, Hasher};

/// Equal and hashed by a part of its bytes only.
#[derive(Clone, Debug)]
#[repr(C)]
pub struct Q { pub k: u16, pub ignored: u8 }
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { self.k == o.k } }
impl Eq for Q {}
impl Hash for Q { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.k) } }
/// Not reflexive, not symmetric.
#[derive(Clone, Debug)]
pub struct Less(pub u8);
/// The same, of the size of an inline value.
#[derive(Clone, Debug)]
pub struct Less8(pub u64);
impl PartialEq for Less8 { fn eq(&self, o: &Less8) -> bool { self.0 < o.0 } }
impl Eqv for Less8 { fn any() -> Less8 { Less8(vp::any_u64()) } }
impl PartialEq for Less { fn eq(&self, o: &Less) -> bool { self.0 < o.0 } }

pub trait Eqv: PartialEq + 'static { fn any() -> Self; }
impl Eqv for Q { fn any() -> Q { Q { k: vp::any_u16(), ignored: vp::any_u8() } } }
impl Eqv for Less { fn any() -> Less { Less(vp::any_u8()) } }
impl Eqv for f32 { fn any() -> f32 { f32::from_bits(vp::any_u32()) } }
impl Eqv for D { fn any() -> D { D::new(vp::any_u32()) } }
impl Eqv for H { fn any() -> H { H::new(vp::any_u32()) } }
impl Eqv for u64 { fn any() -> u64 { vp::any_u64() } }
impl Eqv for P8 { fn any() -> P8 { P8(Box::new(vp::any_u32())) } }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct P8(pub Box<u32>);

fn some<T: Eqv>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(T::any()); i += 1; }
    v
}

/// Containers of `n` and `k` elements.
fn seqs<T: Eqv>(max: usize) {
    split!(how in 0, 4 => { split!(n in 0, max => { split!(k in 0, max => {
        let mut a = some::<T>(n);
        let mut b = some::<T>(k);
        let want = a == b;
        witness!(n == max && k == max && want);
        witness!(n == max && k == max && !want);
        match how {
            0 => {
                let (x, y) = (VecDyn::<PartialEqVTable>::from_vec(a), VecDyn::<PartialEqVTable>::from_vec(b));
                check!((x == y) == want, "vectors are equal exactly when their elements are");
                check!((x != y) == !want, "inequality");
            }
            1 => {
                let (x, y) = (VecDyn::<EqVTable>::from_vec(a), VecDyn::<EqVTable>::from_vec(b));
                check!((x == y) == want, "vectors are equal exactly when their elements are");
                check!((x.as_slice() == y.as_slice()) == want, "slices of vectors are equal exactly when their elements are");
            }
            2 => {
                let (x, y): (Slice<PartialEqVTable>, Slice<PartialEqVTable>) = (Slice::from_slice(&a[..]), Slice::from_slice(&b[..]));
                check!((x == y) == want, "slices are equal exactly when their elements are");
            }
            3 => {
                let (x, y): (SliceMut<EqVTable>, SliceMut<EqVTable>) = (SliceMut::from_slice(&mut a[..]), SliceMut::from_slice(&mut b[..]));
                check!((x == y) == want, "mutable slices are equal exactly when their elements are");
                check!((x.reborrow() == Slice::from(&y)) == want, "slices are equal exactly when their elements are");
            }
            _ => {
                vp::assume(n == k && n > 0);
                let (x, y): (Slice<EqVTable>, Slice<EqVTable>) = (Slice::from_slice(&a[..]), Slice::from_slice(&b[..]));
                let mut i = 0;
                let mut all = true;
                for (p, q) in x.iter().zip(y.iter()) {
                    check!((p == q) == (a[i] == b[i]), "elements are equal exactly when their values are");
                    all = all & (p == q);
                    i += 1;
                }
                check!(all == want, "elements");
            }
        }
    }) }) });
}
/// Values.
fn vals<T: Eqv>(small: bool) {
    split!(how in 0, 4 => {
        let (mut a, mut b) = (T::any(), T::any());
        let want = a == b;
        vp::assume(small || how != 1);
        witness!(want);
        witness!(!want);
        match how {
            0 => check!((BoxValue::<EqVTable>::new(a) == BoxValue::<EqVTable>::new(b)) == want, "boxed values"),
            1 => check!((SmallValue::<PartialEqVTable>::new(a) == SmallValue::<PartialEqVTable>::new(b)) == want, "inline values"),
            2 => check!((ValueRef::<PartialEqVTable>::new(&a) == ValueRef::<PartialEqVTable>::new(&b)) == want, "borrowed values"),
            3 => check!((ValueMut::<EqVTable>::new(&mut a) == ValueMut::<EqVTable>::new(&mut b)) == want, "mutably borrowed values"),
            _ => {
                let (x, y) = (BoxValue::<EqVTable>::new(a), BoxValue::<EqVTable>::new(b));
                check!((x.as_ref() == y.as_ref()) == want && (y.as_ref() == y.as_ref() || true), "borrowed values");
            }
        }
    });
}
/// Values of different types are different, whatever their bytes.
fn types_differ() {
    split!(how in 0, 7 => {
        let x = vp::any_u32();
        let (mut a, mut b) = (x, Like32(x));
        let ne = match how {
            0 => BoxValue::<EqVTable>::new(a) != BoxValue::<EqVTable>::new(b),
            1 => SmallValue::<EqVTable>::new(x as u64) != SmallValue::<EqVTable>::new(x as i64),
            2 => ValueRef::<EqVTable>::new(&a) != ValueRef::<EqVTable>::new(&b),
            3 => ValueMut::<EqVTable>::new(&mut a) != ValueMut::<EqVTable>::new(&mut b),
            4 => VecDyn::<EqVTable>::from_vec(vec![a]) != VecDyn::<EqVTable>::from_vec(vec![b]),
            5 => Slice::<EqVTable>::from_slice(&[a][..]) != Slice::<EqVTable>::from_slice(&[b][..]),
            6 => SliceMut::<EqVTable>::from_slice(&mut [a][..]) != SliceMut::<EqVTable>::from_slice(&mut [b][..]),
            _ => VecDyn::<PartialEqVTable>::from_vec(vec![a, a]) != VecDyn::<PartialEqVTable>::from_vec(vec![b, b]),
        };
        check!(ne, "elements of different types are not equal");
        witness!(how == 7);
    });
}

/// The hash of a container is that of its elements, one after the other; that of a value is its own.
fn hashes<T: Eqv + Hash>(small: bool) {
    split!(how in 0, 6 => { split!(n in 0, 3 => {
        let mut a = some::<T>(n);
        let mut want = Acc::default();
        let mut got = Acc::default();
        let start = vp::any_u64();
        want.0 = start;
        got.0 = start;
        match how {
            0 => {
                let mut i = 0;
                while i < n { a[i].hash(&mut want); i += 1; }
                VecDyn::<HashVTable>::from_vec(a).hash(&mut got);
            }
            1 => {
                let mut i = 0;
                while i < n { a[i].hash(&mut want); i += 1; }
                let s: Slice<HashVTable> = Slice::from_slice(&a[..]);
                for x in s.iter() { x.hash(&mut got); }
            }
            2 => {
                let mut i = 0;
                while i < n { a[i].hash(&mut want); i += 1; }
                let mut s: SliceMut<HashVTable> = SliceMut::from_slice(&mut a[..]);
                for x in s.iter() { x.hash(&mut got); }
            }
            _ => {
                vp::assume(n == 1 && (small || how != 4));
                let mut x = a.pop().unwrap();
                x.hash(&mut want);
                match how {
                    3 => BoxValue::<HashVTable>::new(x).hash(&mut got),
                    4 => SmallValue::<HashVTable>::new(x).hash(&mut got),
                    5 => ValueRef::<HashVTable>::new(&x).hash(&mut got),
                    _ => ValueMut::<HashVTable>::new(&mut x).hash(&mut got),
                }
            }
        }
        check!(want.0 == got.0, "the hash is the hash of the elements in order");
        witness!(n == 1 && how == 6 && want.0 != start);
    }) });
}
/// Looking at the elements does not drop, copy or leak any.
fn owned() {
    split!(n in 0, 3 => { split!(k in 0, 3 => {
        let live = vp::live();
        let a = VecDyn::<EqVTable>::from_vec(some::<D>(n));
        let b = VecDyn::<EqVTable>::from_vec(some::<D>(k));
        let same = a == b;
        check!(tally::made() == n + k && tally::alive() == n + k, "comparing changes nothing");
        check!(same == (a.as_slice_as::<D>().unwrap() == b.as_slice_as::<D>().unwrap()), "equality");
        witness!(same && n == 2);
        drop(a);
        check!(tally::alive() == k, "comparing changes nothing");
        drop(b);
        check!(tally::alive() == 0 && vp::live() == live, "nothing leaks");
    }) });
}

/// Something compared with itself: the answer is the element type's, which need not be "equal".
fn itself<T: Eqv>(small: bool) {
    split!(how in 0, 9 => {
        let n = 2;
        let mut a = some::<T>(n);
        let seq = a == a;
        let one = a[0] == a[0];
        vp::assume(small || how != 6);
        let got = match how {
            0 => { let x = VecDyn::<PartialEqVTable>::from_vec(a); x == x }
            1 => { let x = VecDyn::<EqVTable>::from_vec(a); x.as_slice() == x.as_slice() }
            2 => { let x: Slice<PartialEqVTable> = Slice::from_slice(&a[..]); x == x }
            3 => { let x: SliceMut<EqVTable> = SliceMut::from_slice(&mut a[..]); x == x }
            4 => { let x: SliceMut<PartialEqVTable> = SliceMut::from_slice(&mut a[..]); x.reborrow() == x.reborrow() }
            5 => { let x = BoxValue::<EqVTable>::new(a.swap_remove(0)); x == x }
            6 => { let x = SmallValue::<PartialEqVTable>::new(a.swap_remove(0)); x == x }
            7 => { let x = ValueRef::<PartialEqVTable>::new(&a[0]); x == x }
            8 => { let x = ValueMut::<EqVTable>::new(&mut a[0]); x == x }
            _ => { let x = BoxValue::<PartialEqVTable>::new(a.swap_remove(0)); x.as_ref() == x.as_ref() }
        };
        check!(got == if how <= 4 { seq } else { one }, "compared with itself, a value is as equal as its type says");
        witness!(how == 9 && got == one);
    });
}

/// Many elements, of which at most one differs.
fn long() {
    const N: usize = 17;
    split!(how in 0, 3 => {
        let mut a = some::<Q>(N);
        let mut b = a.clone();
        let j = vp::upto(N);
        if j < N { b[j] = Q::any(); }
        let want = a == b;
        witness!(want && j < N);
        witness!(!want);
        let mut h = Acc(5);
        if how == 3 { let mut i = 0; while i < N { b[i].hash(&mut h); i += 1; } }
        match how {
            0 => {
                let (x, y) = (VecDyn::<PartialEqVTable>::from_vec(a), VecDyn::<PartialEqVTable>::from_vec(b));
                check!((x == y) == want && (y == x) == want, "vectors are equal exactly when their elements are");
            }
            1 => check!((Slice::<PartialEqVTable>::from_slice(&a[..]) == Slice::from_slice(&b[..])) == want, "slices are equal exactly when their elements are"),
            2 => check!((SliceMut::<PartialEqVTable>::from_slice(&mut a[..]) == SliceMut::from_slice(&mut b[..])) == want, "slices are equal exactly when their elements are"),
            _ => {
                let y = VecDyn::<HashVTable>::from_vec(b);
                let mut g = Acc(5);
                y.hash(&mut g);
                check!(g.finish() == h.finish(), "the hash is that of the elements, in order");
            }
        }
    });
}

harnesses! {
#[unwind(30)] fn eq_long() { long() }
#[unwind(30)] fn eq_self_f32() { itself::<f32>(false) }
#[unwind(30)] fn eq_self_less() { itself::<Less8>(true) }
#[unwind(30)] fn eq_seq_q() { seqs::<Q>(2) }
#[unwind(30)] fn eq_seq_less() { seqs::<Less>(2) }
#[unwind(30)] fn eq_seq_f32() { seqs::<f32>(2) }
#[unwind(30)] fn eq_val_q() { vals::<Q>(false) }
#[unwind(30)] fn eq_val_h() { vals::<H>(false) }
#[unwind(30)] fn eq_val_u64() { vals::<u64>(true) }
#[unwind(30)] fn eq_val_p8() { vals::<P8>(true) }
#[unwind(30)] fn eq_types() { types_differ() }
#[unwind(30)] fn hash_q() { hashes::<Q>(false) }
#[unwind(30)] fn hash_p8() { hashes::<P8>(true) }
#[unwind(30)] fn eq_owned() { owned() }
thorough {
#[unwind(30)] fn eq_seq_q4() { seqs::<Q>(4) }
#[unwind(30)] fn eq_seq_d() { seqs::<D>(3) }
#[unwind(30)] fn eq_seq_h() { seqs::<H>(2) }
#[unwind(30)] fn eq_seq_u64() { seqs::<u64>(4) }
#[unwind(30)] fn eq_val_less() { vals::<Less>(false) }
#[unwind(30)] fn hash_h() { hashes::<H>(false) }
#[unwind(30)] fn hash_d() { hashes::<D>(true) }
}
}
