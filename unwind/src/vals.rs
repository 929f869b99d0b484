//! Panics in the middle of operations of single values.
use crate::*;
use dync::traits::{DropVTable, HasDrop};
use crate::vecs::V;

/// What the survivors of a panic can be used for.
fn see<T: Elt>(r: ValueRef<AllVTable>) { if let Some(x) = r.downcast::<T>() { x.see(); } }

macro_rules! value_harness {
    ($name:ident, $Value:ident, $clone_value:ident, $content:expr) => {
        pub fn $name<T: Elt>(last: u8) where AllVTable: VTable<T> {
            {
                let mut a: Option<$Value<AllVTable>> = Some($Value::new(T::new(any())));
                let mut b: Option<$Value<AllVTable>> = Some($Value::new(T::new(any())));
                let mut c = None;
                let mut t = T::new(any());
                risky(|| match choose(0, last) {
                    0 => drop(a.take()),
                    1 => c = a.clone(),
                    2 => { a == b; }
                    3 => { a.hash(&mut H(0)); }
                    4 => show(&a),
                    5 => a.as_mut().unwrap().as_mut().assign(b.take().unwrap()),
                    6 => a.as_mut().unwrap().as_mut().swap(&mut b.as_mut().unwrap().as_mut()),
                    7 => { a.as_mut().unwrap().as_mut().clone_from_other(b.as_ref().unwrap().as_ref()); }
                    8 => c = Some(a.as_ref().unwrap().as_ref().$clone_value()),
                    9 => c = Some(a.as_mut().unwrap().as_mut().$clone_value()),
                    10 => { if let Some(x) = a.take().unwrap().downcast::<T>() { let x: T = $content(x); x.see(); } }
                    11 => { check(a.take().unwrap().downcast::<u64>().is_none(), "a wrong type is refused") }
                    12 => { let (r, s) = (a.as_ref().unwrap().as_ref(), b.as_ref().unwrap().as_ref()); r == s; r.hash(&mut H(0)); show(&r); }
                    13 => { let mut m = ValueMut::<AllVTable>::new(&mut t); m.assign(a.take().unwrap()); }
                    14 => { let mut m = ValueMut::<AllVTable>::new(&mut t); m.clone_from_other(a.as_ref().unwrap().as_ref()); }
                    15 => { let d: $Value<DropVTable> = a.take().unwrap().upcast(); drop(d) }
                    16 => { let mut m = a.as_mut().unwrap().as_mut(); m.assign(wrong()); }
                    17 => { let mut m = a.as_mut().unwrap().as_mut(); m.clone_from_other(wrong().as_ref()); }
                    _ => {
                        let mut v = V::with_type::<T>();
                        v.push(wrong());
                        v.push_cloned(a.as_ref().unwrap().as_ref());
                        for x in v.iter_as::<T>().unwrap() { x.see(); }
                    }
                });
                t.see();
                for x in [&a, &b, &c] { if let Some(x) = x { see::<T>(x.as_ref()) } }
                match choose(0, 3) {
                    0 => { drop((a, b, c)) }
                    1 => { let d = a.clone(); if let Some(x) = &d { see::<T>(x.as_ref()) } drop((c, b, a)) }
                    2 => { if let (Some(x), Some(y)) = (&mut a, b) { x.as_mut().assign(y); see::<T>(x.as_ref()) } }
                    _ => { if let Some(x) = a { let x: T = $content(x.downcast::<T>().unwrap()); x.see(); } }
                }
            }
            end();
        }
    };
}

#[repr(C)]
#[derive(Clone, PartialEq, Hash, Debug)]
pub struct Other(S8);
impl All for Other {}
fn wrong() -> BoxValue<AllVTable> { BoxValue::new(Other(S8::new(200))) }
use crate::vecs::end;

value_harness!(boxed, BoxValue, clone_value, |x: Box<T>| *x);
value_harness!(small, SmallValue, clone_small_value, |x: T| x);


harnesses! {
    uw_boxed_p: boxed<P>(18);
    uw_boxed_q: boxed<Q3>(18);
    uw_boxed_a: boxed<A64>(18);
    uw_small_s: small<S8>(18);
}
