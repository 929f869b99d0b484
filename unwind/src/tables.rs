//! Behaviour tables of every set of behaviours, written in several orders, and the conversions between them.
use crate::vecs::V;
use crate::*;
use dync::traits::*;
use std::any::TypeId;

// How often each of the type's own functions was called: clone, eq, hash, fmt.
static mut CALLS: [u8; 4] = [0; 4];
fn called(k: usize) { unsafe { CALLS[k] += 1 } }
/// since the last time
fn calls() -> [u8; 4] { unsafe { let c = CALLS; CALLS = [0; 4]; c } }

macro_rules! kel {
    ($name:ident $(#[$attr:meta])* { $($f:ident: $t:ty = $e:expr),* } |$x:ident|, |$s:ident| $val:expr) => {
        $(#[$attr])* pub struct $name { id: u8, $($f: $t),* }
        impl El for $name {
            fn new($x: u8) -> Self { $name { id: born(), $($f: $e),* } }
            fn see(&self) -> u8 { seen(self.id); let $s = self; $val }
        }
        impl Clone for $name { fn clone(&self) -> Self { called(0); <$name as El>::new(self.see()) } }
        impl Drop for $name { fn drop(&mut self) { self.see(); died(self.id) } }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { called(1); self.see() >> 1 == o.see() >> 1 } }
        impl Eq for $name {}
        impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { called(2); h.write_u8(self.see() >> 1) } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { called(3); self.see(); f.write_str(if self.see() & 1 == 1 { "o" } else { "e" }) } }
    };
}
kel!(KB { b: Box<u8> = Box::new(x) } |x|, |s| *s.b);
kel!(K3 { v: u8 = x, w: u8 = !x } |x|, |s| { check(s.w == !s.v, "an element is torn"); s.v });
kel!(K8 #[repr(C)] { v: u8 = x, w: u16 = 9, z: u32 = 5 } |x|, |s| { check(s.w == 9 && s.z == 5, "an element is torn"); s.v });
kel!(K32 #[repr(align(32))] { b: Box<u8> = Box::new(x) } |x|, |s| *s.b);

pub struct Sum(pub u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(7) ^ *x as u64 } }
}
fn sum<T: Hash>(x: &T) -> u64 { let mut h = Sum(1); x.hash(&mut h); h.0 }
/// what the elements' own hashes give, one after the other
fn sum_of(m: &[u8]) -> u64 { let mut h = Sum(1); for x in m { h.write_u8(*x >> 1) } h.0 }
struct Text([u8; 40], usize);
impl fmt::Write for Text { fn write_str(&mut self, s: &str) -> fmt::Result { for b in s.bytes() { check(self.1 < 40, "nothing but the elements is shown"); self.0[self.1] = b; self.1 += 1 } Ok(()) } }
fn text<T: fmt::Debug>(x: &T) -> Text { let mut t = Text([0; 40], 0); check(fmt::write(&mut t, format_args!("{:?}", x)).is_ok(), "the elements can be shown"); t }

fn made<T: El>(m: &[u8]) -> Vec<T> { let mut v = Vec::with_capacity(m.len()); for x in m { v.push(T::new(*x)) } v }
fn sees<T: El>(v: &[T], m: &[u8]) {
    check(v.len() == m.len(), "length");
    let mut i = 0;
    for x in v { check(x.see() == m[i], "an element is changed"); i += 1 }
}
fn holds<T: El, V: HasDrop>(v: &VecDyn<V>, m: &[u8]) {
    check(v.element_type_id() == TypeId::of::<T>() && v.element_size() == std::mem::size_of::<T>(), "the element type is kept");
    let s = v.as_slice_as::<T>();
    check(s.is_some(), "the element type is kept");
    sees(s.unwrap(), m)
}

// What a vector of the elements `m` does through its table.
fn clones<T: El, V: HasDrop + HasClone + Clone>(v: VecDyn<V>, _: VecDyn<V>, m: &[u8], _: &[u8]) {
    calls();
    let mut w = v.clone();
    check(calls() == [m.len() as u8, 0, 0, 0], "cloning calls the type's own function for each element");
    holds::<T, V>(&w, m);
    drop(v);
    holds::<T, V>(&w, m);
    let n = m.len();
    if n == 0 { return }
    calls();
    let b = w.get(n - 1).clone_value();
    check(calls() == [1, 0, 0, 0], "cloning calls the type's own function");
    check(b.as_ref().downcast::<T>().map(|t| t.see()) == Some(m[n - 1]), "a clone of an element");
    w.get_mut(0).clone_from_other(b.as_ref()).unwrap();
    check(w.get_ref_as::<T>(0).unwrap().see() == m[n - 1], "cloned into an element");
    let c = b.clone();
    w.push_cloned(c.as_ref()).unwrap();
    check(calls() == [3, 0, 0, 0], "cloning calls the type's own function");
    check(w.len() == n + 1 && w.get_ref_as::<T>(n).unwrap().see() == m[n - 1], "a clone is added");
}
fn equal(m: &[u8], k: &[u8]) -> bool {
    let mut i = 0;
    while i < m.len() { if i >= k.len() || m[i] >> 1 != k[i] >> 1 { return false } i += 1 }
    m.len() == k.len()
}
fn compares<T: El, V: HasDrop + HasPartialEq>(v: VecDyn<V>, w: VecDyn<V>, m: &[u8], k: &[u8]) {
    calls();
    check((v == w) == equal(m, k), "equality is the type's own");
    let c = calls();
    check(c[0] == 0 && c[2] == 0 && c[3] == 0, "equality calls nothing else");
    check(m.len() == 0 || m.len() != k.len() || c[1] > 0, "equality calls the type's own function");
    check((v.as_slice() == w.as_slice()) == equal(m, k), "equality is the type's own");
    if m.len() > 0 && k.len() > 0 {
        calls();
        check((v.get(0) == w.get(0)) == (m[0] >> 1 == k[0] >> 1), "equality is the type's own");
        check(calls() == [0, 1, 0, 0], "equality calls the type's own function");
    }
    holds::<T, V>(&v, m);
    holds::<T, V>(&w, k);
}
fn equates<T: El, V: HasDrop + HasPartialEq + HasEq>(v: VecDyn<V>, w: VecDyn<V>, m: &[u8], k: &[u8]) {
    fn is<E: Eq>(a: &E, b: &E) -> bool { a == b }
    check(is(&v, &w) == equal(m, k), "equality is the type's own");
    check((v.as_slice() == w.as_slice()) == equal(m, k), "equality is the type's own");
}
fn hashes<T: El, V: HasDrop + HasHash>(v: VecDyn<V>, _: VecDyn<V>, m: &[u8], _: &[u8]) {
    calls();
    check(sum(&v) == sum_of(m), "the hash is the type's own");
    check(calls() == [0, 0, m.len() as u8, 0], "hashing calls the type's own function for each element");
    if m.len() > 0 { check(sum(&v.get(0)) == sum_of(&m[..1]), "the hash is the type's own") }
    holds::<T, V>(&v, m);
}
fn shows<T: El, V: HasDrop + HasDebug>(v: VecDyn<V>, _: VecDyn<V>, m: &[u8], _: &[u8]) {
    calls();
    let t = text(&v);
    check(calls() == [0, 0, 0, m.len() as u8], "formatting calls the type's own function for each element");
    let mut i = 0;
    // [e, o]
    check(t.0[0] == b'[' && t.1 == if m.len() == 0 { 2 } else { 3 * m.len() }, "the elements are shown");
    while i < m.len() { check(t.0[3 * i + 1] == if m[i] & 1 == 1 { b'o' } else { b'e' }, "an element shows itself"); i += 1 }
    if m.len() > 0 { check(text(&v.get(0)).0[0] == t.0[1], "an element shows itself") }
    holds::<T, V>(&v, m);
}

macro_rules! base { (clones) => { CloneVTable }; (compares) => { PartialEqVTable }; (equates) => { EqVTable }; (hashes) => { HashVTable }; (shows) => { DebugVTable } }
macro_rules! tables {
    ($($t:ident $v:ident ($($b:tt)*) $($f:ident)*;)*) => {
        $( #[dync_trait(dync_crate_name = "dync")] pub trait $t: $($b)* {}
        impl $t for KB {} impl $t for K3 {} impl $t for K8 {} impl $t for K32 {} )*
        pub trait Every: El + Eq $(+ $t)* {}
        impl<T: El + Eq $(+ $t)*> Every for T {}
        mod each { use super::*; $( #[allow(non_snake_case)] pub fn $t<T: Every>(how: u8, m: &[u8], k: &[u8]) {
            let v = || VecDyn::<$v>::from_vec(made::<T>(m));
            let w = || VecDyn::<$v>::from_vec(made::<T>(k));
            let mut i = 0;
            if how == i {
                let d: VecDyn<DropVTable> = v().upcast();
                holds::<T, DropVTable>(&d, m);
                let e = VecDyn::<$v>::with_type_from(&v());
                holds::<T, $v>(&e, &[]);
                let b = BoxValue::<$v>::new(T::new(3));
                let c: BoxValue<DropVTable> = b.upcast();
                check(c.downcast::<T>().map(|t| t.see()) == Some(3), "a value is kept");
            }
            $( i += 1; if how == i { $f::<T, $v>(v(), w(), m, k) }
            i += 1; if how == i { $f::<T, base!($f)>(v().upcast(), w().upcast(), m, k) } )*
        } )* }
        fn tables<T: Every>(n: u8) {
            {
                let fs: &[(fn(u8, &[u8], &[u8]), u8)] = &[$((each::$t::<T>, 0 $(+ { let _ = stringify!($f); 2 })*)),*];
                let i = choose(0, fs.len() as u8 - 1) as usize;
                let how = choose(0, fs[i].1);
                let (m, k) = ([any(), any()], [any(), any()]);
                let (a, b) = if n == 0 { let a = choose(0, 2); (a, a) } else { (n, choose(0, 2)) };
                (fs[i].0)(how, &m[..a as usize], &k[..b as usize]);
            }
            all_gone()
        }
    };
}
fn all_gone() {
    check(living() == 0, "every element is dropped");
    check(unsafe { vp_live() } == 0, "all memory is released");
    unsafe { vp_witness(1) }
}
tables! {
    TC TCVTable (Clone) clones;
    TP TPVTable (PartialEq) compares;
    TH THVTable (std::hash::Hash) hashes;
    TD TDVTable (std::fmt::Debug) shows;
    TCP TCPVTable (Clone + PartialEq) clones compares;
    TPC TPCVTable (PartialEq + Clone) clones compares;
    TCH TCHVTable (Clone + std::hash::Hash) clones hashes;
    THC THCVTable (std::hash::Hash + Clone) clones hashes;
    TCD TCDVTable (Clone + std::fmt::Debug) clones shows;
    TDC TDCVTable (std::fmt::Debug + Clone) clones shows;
    TPE TPEVTable (PartialEq + Eq) compares equates;
    TEP TEPVTable (Eq + PartialEq) compares equates;
    TPH TPHVTable (PartialEq + std::hash::Hash) compares hashes;
    THP THPVTable (std::hash::Hash + PartialEq) compares hashes;
    TPD TPDVTable (PartialEq + std::fmt::Debug) compares shows;
    TDP TDPVTable (std::fmt::Debug + PartialEq) compares shows;
    THD THDVTable (std::hash::Hash + std::fmt::Debug) hashes shows;
    TDH TDHVTable (std::fmt::Debug + std::hash::Hash) hashes shows;
    TCPE TCPEVTable (Clone + PartialEq + Eq) clones compares equates;
    TEPC TEPCVTable (Eq + PartialEq + Clone) clones compares equates;
    TPECm TPECmVTable (PartialEq + Send + Eq + Clone + Sync) clones compares equates;
    TCPH TCPHVTable (Clone + PartialEq + std::hash::Hash) clones compares hashes;
    THPC THPCVTable (std::hash::Hash + PartialEq + Clone) clones compares hashes;
    TPHCm TPHCmVTable (PartialEq + Send + std::hash::Hash + Clone + Sync) clones compares hashes;
    TCPD TCPDVTable (Clone + PartialEq + std::fmt::Debug) clones compares shows;
    TDPC TDPCVTable (std::fmt::Debug + PartialEq + Clone) clones compares shows;
    TPDCm TPDCmVTable (PartialEq + Send + std::fmt::Debug + Clone + Sync) clones compares shows;
    TCHD TCHDVTable (Clone + std::hash::Hash + std::fmt::Debug) clones hashes shows;
    TDHC TDHCVTable (std::fmt::Debug + std::hash::Hash + Clone) clones hashes shows;
    THDCm THDCmVTable (std::hash::Hash + Send + std::fmt::Debug + Clone + Sync) clones hashes shows;
    TPEH TPEHVTable (PartialEq + Eq + std::hash::Hash) compares equates hashes;
    THEP THEPVTable (std::hash::Hash + Eq + PartialEq) compares equates hashes;
    TEHPm TEHPmVTable (Eq + Send + std::hash::Hash + PartialEq + Sync) compares equates hashes;
    TPED TPEDVTable (PartialEq + Eq + std::fmt::Debug) compares equates shows;
    TDEP TDEPVTable (std::fmt::Debug + Eq + PartialEq) compares equates shows;
    TEDPm TEDPmVTable (Eq + Send + std::fmt::Debug + PartialEq + Sync) compares equates shows;
    TPHD TPHDVTable (PartialEq + std::hash::Hash + std::fmt::Debug) compares hashes shows;
    TDHP TDHPVTable (std::fmt::Debug + std::hash::Hash + PartialEq) compares hashes shows;
    THDPm THDPmVTable (std::hash::Hash + Send + std::fmt::Debug + PartialEq + Sync) compares hashes shows;
    TCPEH TCPEHVTable (Clone + PartialEq + Eq + std::hash::Hash) clones compares equates hashes;
    THEPC THEPCVTable (std::hash::Hash + Eq + PartialEq + Clone) clones compares equates hashes;
    TPEHCm TPEHCmVTable (PartialEq + Send + Eq + std::hash::Hash + Clone + Sync) clones compares equates hashes;
    TCPED TCPEDVTable (Clone + PartialEq + Eq + std::fmt::Debug) clones compares equates shows;
    TDEPC TDEPCVTable (std::fmt::Debug + Eq + PartialEq + Clone) clones compares equates shows;
    TPEDCm TPEDCmVTable (PartialEq + Send + Eq + std::fmt::Debug + Clone + Sync) clones compares equates shows;
    TCPHD TCPHDVTable (Clone + PartialEq + std::hash::Hash + std::fmt::Debug) clones compares hashes shows;
    TDHPC TDHPCVTable (std::fmt::Debug + std::hash::Hash + PartialEq + Clone) clones compares hashes shows;
    TPHDCm TPHDCmVTable (PartialEq + Send + std::hash::Hash + std::fmt::Debug + Clone + Sync) clones compares hashes shows;
    TPEHD TPEHDVTable (PartialEq + Eq + std::hash::Hash + std::fmt::Debug) compares equates hashes shows;
    TDHEP TDHEPVTable (std::fmt::Debug + std::hash::Hash + Eq + PartialEq) compares equates hashes shows;
    TEHDPm TEHDPmVTable (Eq + Send + std::hash::Hash + std::fmt::Debug + PartialEq + Sync) compares equates hashes shows;
    TCPEHD TCPEHDVTable (Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug) clones compares equates hashes shows;
    TDHEPC TDHEPCVTable (std::fmt::Debug + std::hash::Hash + Eq + PartialEq + Clone) clones compares equates hashes shows;
    TPEHDCm TPEHDCmVTable (PartialEq + Send + Eq + std::hash::Hash + std::fmt::Debug + Clone + Sync) clones compares equates hashes shows;
}

// Inherited behaviours.
#[dync_mod(dync_crate_name = "dync")]
pub mod chain {
    pub trait L1: Clone {}
    pub trait L2: L1 + PartialEq {}
    pub trait L3: std::hash::Hash + L2 {}
    pub trait L4: L3 + std::fmt::Debug + Eq {}
    pub trait M1: std::fmt::Debug + PartialEq {}
    pub trait M2: M1 + Clone {}
    pub trait Z: L4 + M2 {}
}
use chain::*;
macro_rules! chained { ($($t:ident)*) => { $( impl L1 for $t {} impl L2 for $t {} impl L3 for $t {} impl L4 for $t {} impl M1 for $t {} impl M2 for $t {} impl Z for $t {} )* } }
chained!(KB K3 K8 K32);
pub trait Chain: El + Eq + Z {}
impl<T: El + Eq + Z> Chain for T {}
macro_rules! ways { ($how:ident $T:ident $v:ident $w:ident $m:ident $k:ident: $($n:literal $f:ident $t:ty: $($via:ty),*;)*) => { match $how {
    $( $n => $f::<$T, $t>($v()$(.upcast::<$via>())*.upcast::<$t>(), $w()$(.upcast::<$via>())*.upcast::<$t>(), &$m, &$k), )* _ => check(false, "") } } }
fn chains<T: Chain>(_: u8) {
    {
        let (a, b) = (choose(0, 2) as usize, choose(0, 1) as usize);
        let (m, k) = ([any(), any()], [any(), any()]);
        let (m, k) = (m[..a].to_vec(), k[..if b == 0 { a } else { 2 - a }].to_vec());
        let v = || VecDyn::<ZVTable>::from_vec(made::<T>(&m));
        let w = || VecDyn::<ZVTable>::from_vec(made::<T>(&k));
        let how = choose(0, 18);
        ways! { how T v w m k:
            0 clones ZVTable:;
            1 compares ZVTable:;
            2 equates ZVTable:;
            3 hashes ZVTable:;
            4 shows ZVTable:;
            5 clones L1VTable: L4VTable, L3VTable, L2VTable;
            6 clones CloneVTable: L4VTable, L3VTable, L2VTable, L1VTable;
            7 compares L2VTable: L4VTable;
            8 compares PartialEqVTable: L4VTable, L2VTable;
            9 hashes L3VTable: L4VTable;
            10 hashes HashVTable: L4VTable, L3VTable;
            11 shows M1VTable: M2VTable;
            12 shows DebugVTable: M2VTable, M1VTable;
            13 compares PartialEqVTable: M2VTable, M1VTable;
            14 clones CloneVTable: M2VTable;
            15 equates L4VTable:;
            16 equates EqVTable: L4VTable;
            17 shows L4VTable:;
            18 clones M2VTable:;
        }
    }
    all_gone()
}
harnesses! {
    w12_kb: tables<KB>(0);
    w12_k3: tables<K3>(0);
    w12_k8: tables<K8>(1);
    w12_k32: tables<K32>(2);
    w12_chain_kb: chains<KB>(0);
    w12_chain_k3: chains<K3>(0);
}
