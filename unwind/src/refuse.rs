//! dync panics to refuse something: every element stays where it is, and nothing leaks.
use crate::vecs::*;
use crate::*;
use dync::traits::HasDrop;

/// The elements, by content.
fn contents<T: Elt>(v: &V) -> Vec<u8> { v.iter_as::<T>().unwrap().map(|x| x.see()).collect() }

/// Refused operations of a vector of owned elements.
pub fn owned<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most) as usize;
        let mut v = make::<T>(n as u8);
        let mut w = make::<T>(2);
        let (before, other) = (contents::<T>(&v), contents::<T>(&w));
        let far = n + 1 + choose(0, 1) as usize;
        let op = choose(0, 15);
        let p = catch(|| match op {
            0 => v.rotate_left(far),
            1 => v.rotate_right(far),
            2 => { v.get(far); }
            3 => { v.get_mut(far); }
            4 => { v.as_slice().subslice(far..); }
            5 => { v.as_slice().subslice(1..far); }
            6 => { v.as_mut_slice().subslice_mut(..far); }
            7 => { v.as_slice().split_at(far); }
            8 => { v.as_mut_slice().split_at(far); }
            9 => v.as_mut_slice().swap(0, far),
            10 => v.as_mut_slice().rotate_left(far),
            11 => { v.as_slice().get(far); }
            12 => { v.as_mut_slice().get_mut(far); }
            13 => { v.as_slice().chunks_exact(0); }
            14 => v.as_mut_slice().swap(far, far),
            _ => { v.as_mut_slice().rotate_right(far); }
        });
        if op != 14 { check(p, "what is out of bounds is refused"); unsafe { vp_witness(3) } }
        check(contents::<T>(&v) == before, "the elements are those there were");
        check(v.element_type_id() == std::any::TypeId::of::<T>(), "the element type is what it was");
        check(contents::<T>(&w) == other, "the elements of another vector are those there were");
        v.push_as(T::new(1));
        check(v.len() == before.len() + 1, "the vector can be used");
        check(v.append(&mut w).is_some() && v.len() == before.len() + 3, "the vector can be used");
        drop(v);
        drop(w);
    }
    end();
}

/// The same while unwinding: the vector is dropped by the panic, which does not become an abort.
pub fn unwound<T: Elt>(most: u8) where AllVTable: VTable<T> {
    {
        let n = length(most) as usize;
        let v = make::<T>(n as u8);
        let far = n + 1;
        let op = choose(0, 3);
        let p = catch(move || {
            let mut v = v;
            match op {
                0 => v.rotate_left(far),
                1 => v.rotate_right(far),
                2 => { v.get(far); }
                _ => v.as_mut_slice().swap(0, far),
            }
        });
        check(p, "what is out of bounds is refused");
    }
    end();
}

type C = VecCopy<()>;
type E3 = [u8; 3];
fn e3() -> E3 { [any(), any(), any()] }

/// Refused operations of vectors of Copy elements, and iterators that panic.
pub fn copied(most: u8) {
    {
        let n = length(most) as usize;
        let mut xs: Vec<E3> = Vec::new();
        let mut i = 0;
        while i < n { xs.push(e3()); i += 1 }
        let mut v = C::from_vec(xs.clone());
        let far = n + 1 + choose(0, 1) as usize;
        let mut grown = 0;
        let op = choose(0, 15);
        let p = risky(|| match op {
            0 => v.rotate_left(far),
            1 => v.rotate_right(far),
            2 => { v.get_ref(far); }
            3 => { v.get_mut(far); }
            4 => { v.as_slice().subslice(far..); }
            5 => { v.as_mut_slice().subslice_mut(1..far); }
            6 => { v.as_slice().split_at(far); }
            7 => v.as_mut_slice().swap(0, far),
            8 => v.as_mut_slice().rotate_left(far),
            9 => { let w = vec![[1u8; 3]; far]; v.as_mut_slice().copy_from_slice(&w); }
            10 => { let w = C::from_vec(vec![7u8; far]); v.extend(w.iter()); }
            11 => { v.reserve(usize::MAX / 2); }
            12 => {
                let w = C::from_vec(vec![[9u8; 3]; 2]);
                v.extend(w.iter().map(|x| { point(); grown += 1; x }));
            }
            13 => {
                let w = C::from_vec(vec![[9u8; 3]; 2]);
                let c: C = w.iter().map(|x| { point(); x }).collect();
                check(c.len() == 2, "collected");
            }
            14 => { for mut e in v.iter_mut() { point(); e.swap(&mut CopyValueMut::new(&mut e3())); point() } }
            _ => { v.reserve(usize::MAX); }
        });
        unsafe { if !vp_thrown() && (op < 12 || op > 14) { check(p, "what is out of bounds is refused"); vp_witness(3) } }
        check(v.element_type_id() == std::any::TypeId::of::<E3>(), "the element type is what it was");
        if op < 12 || op > 14 {
            check(v.as_slice_as::<E3>().unwrap() == &xs[..], "the elements are those there were");
        } else if op == 12 {
            check(v.as_slice_as::<E3>().unwrap()[..n] == xs[..], "the elements are those there were");
            check(v.len() <= n + 2, "no more elements than were given");
            let mut i = n;
            while i < v.len() { check(*v.get_ref_as::<E3>(i).unwrap() == [9u8; 3], "the elements that were given"); i += 1 }
        } else {
            check(v.len() == n, "as many elements as there were");
            for x in v.iter_as::<E3>().unwrap() { let _ = x[0] == x[2]; }
        }
        v.push_as([3u8; 3]);
        check(*v.get_ref_as::<E3>(v.len() - 1).unwrap() == [3u8; 3], "the vector can be used");
    }
    check(unsafe { vp_live() } == 0, "all memory is released");
    if unsafe { vp_thrown() } { unsafe { vp_witness(2) } } else { unsafe { vp_witness(1) } }
}
pub fn copied_u<T>(most: u8) { copied(most) }

harnesses! {
    uw_refuse_p: owned<P>(3);
    uw_refuse_q: owned<Q3>(3);
    uw_refuse_a: owned<A64>(2);
    uw_unwound_p: unwound<P>(2);
    uw_unwound_q: unwound<Q3>(2);
    uw_copied: copied_u<u8>(2);
}
