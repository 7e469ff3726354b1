#![allow(unused_imports, unused_variables, dead_code, unused_parens, unused_mut, unused_assignments, non_snake_case, unused_braces, unreachable_code, non_camel_case_types)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::clone::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
// the target has 64-bit words
global size_of usize == 8;
// ------------------------------------------------------------------ trusted shim: panics
// A panic of the code under contract.  `vpanic` must be proved unreachable; `vabort` ends the execution of the
// program (the function never returns), which is only allowed where the ghost condition `g` has been proved.
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { panic!() }
#[verifier::external_body]
pub fn vabort<T>(g: Ghost<bool>) -> (r: T) requires g@ ensures false { panic!() }
#[verifier::external_body]
pub fn vpanic_unit() requires false { panic!() }
#[verifier::external_body]
pub fn vabort_unit(g: Ghost<bool>) requires g@ ensures false { panic!() }
/// unwrap where the contract names the inputs on which it may panic
pub trait VUnwrap<T>: Sized {
    spec fn good(self) -> bool;
    spec fn val(self) -> T;
    fn vunwrap(self, g: Ghost<bool>) -> (r: T) requires self.good() || g@ ensures self.good(), r == self.val();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn good(self) -> bool { self is Some }
    open spec fn val(self) -> T { self->0 }
    #[verifier::external_body]
    fn vunwrap(self, g: Ghost<bool>) -> (r: T) { self.unwrap() }
}
impl<'a, T: Copy> VUnwrap<T> for &'a Option<T> {
    open spec fn good(self) -> bool { *self is Some }
    open spec fn val(self) -> T { self->0 }
    #[verifier::external_body]
    fn vunwrap(self, g: Ghost<bool>) -> (r: T) { self.unwrap() }
}
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn good(self) -> bool { self is Ok }
    open spec fn val(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vunwrap(self, g: Ghost<bool>) -> (r: T) { match self { Ok(x) => x, Err(_) => panic!() } }
}
#[verifier::external_body]
pub fn opaque_string() -> (r: String) { String::new() }

// ------------------------------------------------------------------ trusted shim: std functions without a vstd contract
pub assume_specification<T> [std::cmp::max] (a: T, b: T) -> (r: T) where T: std::cmp::Ord + std::marker::Destruct
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { a } else { b });
pub assume_specification<T> [std::cmp::min] (a: T, b: T) -> (r: T) where T: std::cmp::Ord + std::marker::Destruct
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a });
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8)
    ensures r as int == (if (x as int) < 0 { -(x as int) } else { x as int });
#[verifier::external_body]
pub fn vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i])
{ vec![x; n] }

pub assume_specification<T> [<[T]>::to_vec] (x: &[T]) -> (r: Vec<T>) where T: Clone
    ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(x@[i], #[trigger] r@[i]);
/// the items of an array or slice
pub trait Items: Sized { type T; spec fn items(&self) -> Seq<Self::T>; fn to_items(self) -> (r: Vec<Self::T>) ensures r@ == self.items(); }
impl<'a, T: Copy> Items for &'a [T] { type T = T; open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn to_items(self) -> (r: Vec<T>) { self.to_vec() } }
impl<T: Copy, const N: usize> Items for [T; N] { type T = T; open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn to_items(self) -> (r: Vec<T>) { self.to_vec() } }
pub fn vec_from<X: Items>(x: X) -> (r: Vec<X::T>) ensures r@ == x.items() { x.to_items() }

/// Vec<T> into an array, by `try_into`
#[verifier::external_body]
pub fn arr_from<T, const N: usize>(v: Vec<T>) -> (r: Result<[T; N], Vec<T>>)
    ensures match r { Ok(a) => v@.len() == N && a@ == v@, Err(x) => v@.len() != N && x == v }
{ v.try_into() }

/// `?` spelled out: the conversion of the error type.
pub trait VFrom<E>: Sized {
    spec fn vfrom_req(e: E) -> bool;
    spec fn vfrom_spec(e: E) -> Self;
    fn vfrom(e: E) -> (r: Self) requires Self::vfrom_req(e) ensures r == Self::vfrom_spec(e);
}

// ------------------------------------------------------------------ trusted shim: std::collections::BTreeMap
pub trait BKey: Sized {
    spec fn klt(a: Self, b: Self) -> bool;
}
impl BKey for usize { open spec fn klt(a: usize, b: usize) -> bool { a < b } }
impl BKey for [u32; 2] { open spec fn klt(a: [u32; 2], b: [u32; 2]) -> bool { a@[0] < b@[0] || (a@[0] == b@[0] && a@[1] < b@[1]) } }
impl BKey for [u8; 2] { open spec fn klt(a: [u8; 2], b: [u8; 2]) -> bool { a@[0] < b@[0] || (a@[0] == b@[0] && a@[1] < b@[1]) } }
impl BKey for [usize; 2] { open spec fn klt(a: [usize; 2], b: [usize; 2]) -> bool { a@[0] < b@[0] || (a@[0] == b@[0] && a@[1] < b@[1]) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<K, V> View for BMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
pub open spec fn listing<K: BKey, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> K::klt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
pub open spec fn listing_ref<K: BKey, V>(s: Seq<(K, &V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> K::klt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
pub open spec fn listing_refs<K: BKey, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> K::klt(*(#[trigger] s[i]).0, *(#[trigger] s[j]).0)
}
/// the entries in ascending order of their keys
pub uninterp spec fn bm_list<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub uninterp spec fn bm_refs<'a, K, V>(m: Map<K, V>) -> Seq<(K, &'a V)>;
/// an array taken apart by value
#[verifier::external_body]
pub fn arr2<T>(a: [T; 2]) -> (r: (T, T)) ensures r.0 == a@[0], r.1 == a@[1] { let [x, y] = a; (x, y) }
#[verifier::external_body]
pub fn arr3<T>(a: [T; 3]) -> (r: (T, T, T)) ensures r.0 == a@[0], r.1 == a@[1], r.2 == a@[2] { let [x, y, z] = a; (x, y, z) }
impl<K: BKey + Ord + Copy, V> BMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { BMap { m: Default::default() } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { self.m.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { self.m.is_empty() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None })
    { self.m.insert(k, v) }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None })
    { self.m.remove(k) }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { self.m.contains_key(k) }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && self@[*k] == *v, None => !self@.dom().contains(*k) }
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { self.m.get_mut(k) }
    #[verifier::external_body]
    pub fn append(&mut self, o: &mut Self)
        ensures final(self)@ == old(self)@.union_prefer_right(old(o)@), final(o)@ == Map::<K, V>::empty()
    { self.m.append(&mut o.m) }
    #[verifier::external_body]
    pub fn into_pairs(self) -> (r: Vec<(K, V)>) ensures listing(r@, self@), r@ == bm_list(self@) { self.m.into_iter().collect() }
    #[verifier::external_body]
    pub fn pairs(&self) -> (r: Vec<(K, &V)>) ensures listing_ref(r@, self@), r@ == bm_refs::<K, V>(self@) { self.m.iter().map(|(k, v)| (*k, v)).collect() }
    #[verifier::external_body]
    pub fn ref_pairs(&self) -> (r: Vec<(&K, &V)>) ensures listing_refs(r@, self@) { self.m.iter().collect() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { self.m.clear() }
}
impl<K: Clone, V: Clone> Clone for BMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { BMap { m: self.m.clone() } }
}
#[verifier::external_body]
pub fn bmap_take<K: BKey + Ord + Copy, V>(m: &mut BMap<K, V>) -> (r: BMap<K, V>)
    ensures r@ == old(m)@, final(m)@ == Map::<K, V>::empty()
{ std::mem::take(m) }
impl<K, V> Default for BMap<K, V> { #[verifier::external_body] fn default() -> Self { BMap { m: Default::default() } } }

// ------------------------------------------------------------------ trusted shim: f64 read as a real number
#[verifier::external_body]
#[derive(Copy)]
pub struct F { x: f64 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: F) ensures r == *self { *self } }
impl F {
    pub uninterp spec fn v(self) -> real;
    #[verifier::external_body]
    pub fn lit(n: i128, d: i128) -> (r: F) requires d > 0 ensures r@ == (n as int as real) / (d as int as real) { F { x: n as f64 / d as f64 } }
    #[verifier::external_body]
    pub fn of_u64(n: u64) -> (r: F) ensures r@ == n as int as real { F { x: n as f64 } }
    #[verifier::external_body]
    pub fn zero() -> (r: F) ensures r@ == 0real { F { x: 0.0 } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F) ensures r@ == rabs(self@) { F { x: self.x.abs() } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) requires self@ >= 0real ensures r@ >= 0real, r@ * r@ == self@ { F { x: self.x.sqrt() } }
}
#[verifier::external_body]
pub exec const F_EPSILON: F ensures 0real < F_EPSILON@ < 1real { F { x: f64::EPSILON } }
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
impl View for F { type V = real; open spec fn view(&self) -> real { self.v() } }
// division: nothing is claimed about a zero divisor
macro_rules! fop { ($tr:ident, $sp:ident, $pu:ident, $f:ident, $ob:ident, $rq:ident, $s:ident, $op:tt, $ok:expr) => { verus! {
    impl $sp<F> for F {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: F) -> bool { true }
        open spec fn $s(self, rhs: F) -> F { self.$pu(rhs) }
    }
    impl core::ops::$tr<F> for F {
        type Output = F;
        #[verifier::external_body]
        fn $f(self, rhs: F) -> (r: F) ensures $ok(self.v(), rhs.v()) ==> r@ == self@ $op rhs@ { F { x: self.x $op rhs.x } }
    }
} } }
impl F {
    #[verifier::external_body]
    pub fn frac_pi_4() -> (r: F) ensures r@ == qpi() { F { x: std::f64::consts::FRAC_PI_4 } }
    /// atan is increasing with atan 1 = pi/4 and atan of infinity = pi/2: for a quotient of two numbers that are not
    /// negative (and not both zero) comparing with pi/4 compares them
    #[verifier::external_body]
    pub fn atan(self) -> (r: F)
        ensures forall|a: F, b: F| self == #[trigger] a.fdiv(b) && a@ >= 0real && b@ >= 0real && (a@ > 0real || b@ > 0real) ==> (r@ < qpi() <==> a@ < b@)
    { F { x: self.x.atan() } }
    #[verifier::external_body]
    pub fn trunc(self) -> (r: F) ensures self@ >= 0real ==> r@ == rfloor(self@) { F { x: self.x.trunc() } }
    #[verifier::external_body]
    pub fn fract(self) -> (r: F) ensures self@ >= 0real ==> r@ == self@ - rfloor(self@) { F { x: self.x.fract() } }
    #[verifier::external_body]
    pub fn round(self) -> (r: F) ensures self@ >= 0real ==> r@ == rround(self@) { F { x: self.x.round() } }
    /// both zeros have the value zero, so nothing is claimed about the sign of zero
    #[verifier::external_body]
    pub fn is_sign_positive(self) -> (r: bool) ensures self@ > 0real ==> r, self@ < 0real ==> !r { self.x.is_sign_positive() }
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: FBits) requires self@ >= 0real ensures r@ == self@ { FBits { b: self.x.to_bits() } }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F) ensures n >= 0 ==> r@ == rpow(self@, n as nat) { F { x: self.x.powi(n) } }
}
pub uninterp spec fn qpi() -> real;
pub open spec fn rfloor(x: real) -> real { x.floor() as real }
pub open spec fn rround(x: real) -> real { (x + 1real / 2real).floor() as real }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { rpow(x, (n - 1) as nat) * x } }
/// the bit pattern of a number that is not negative: ordered like the number
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FBits { b: u64 }
impl View for FBits { type V = real; uninterp spec fn view(&self) -> real; }
impl FBits {
    #[verifier::external_body]
    pub fn cmp(&self, o: &FBits) -> (r: Ordering) ensures r == rcmp(self@, o@) { self.b.cmp(&o.b) }
}
pub open spec fn rcmp(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
impl F {
    /// the machine operations, whatever their rounding
    pub uninterp spec fn fadd(self, rhs: F) -> F;
    pub uninterp spec fn fsub(self, rhs: F) -> F;
    pub uninterp spec fn fmul(self, rhs: F) -> F;
    pub uninterp spec fn fdiv(self, rhs: F) -> F;
    #[verifier::external_body]
    pub fn add_assign(&mut self, rhs: F) ensures *final(self) == old(self).fadd(rhs), final(self)@ == old(self)@ + rhs@ { self.x += rhs.x }
    #[verifier::external_body]
    pub fn sub_assign(&mut self, rhs: F) ensures final(self)@ == old(self)@ - rhs@ { self.x -= rhs.x }
    #[verifier::external_body]
    pub fn mul_assign(&mut self, rhs: F) ensures final(self)@ == old(self)@ * rhs@ { self.x *= rhs.x }
}
/// the machine sum, treated as mathematical (as in the contracts of + and +=)
pub axiom fn fadd_real(a: F, b: F) ensures a.fadd(b)@ == a@ + b@;
fop!(Add, AddSpecImpl, fadd, add, obeys_add_spec, add_req, add_spec, +, |a: real, b: real| true);
fop!(Sub, SubSpecImpl, fsub, sub, obeys_sub_spec, sub_req, sub_spec, -, |a: real, b: real| true);
fop!(Mul, MulSpecImpl, fmul, mul, obeys_mul_spec, mul_req, mul_spec, *, |a: real, b: real| true);
fop!(Div, DivSpecImpl, fdiv, div, obeys_div_spec, div_req, div_spec, /, |a: real, b: real| b != 0real);
macro_rules! fopr { ($tr:ident, $sp:ident, $pu:ident, $f:ident, $ob:ident, $rq:ident, $s:ident, $op:tt, $ok:expr, $l:ty, $r:ty) => { verus! {
    impl $sp<$r> for $l {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, rhs: $r) -> bool { true }
        open spec fn $s(self, rhs: $r) -> F { self.$pu(rhs.id()) }
    }
    impl core::ops::$tr<$r> for $l {
        type Output = F;
        #[verifier::external_body]
        fn $f(self, rhs: $r) -> (r: F) ensures $ok(self.v(), rhs.v()) ==> r@ == self@ $op rhs@ { F { x: self.x $op rhs.x } }
    }
} } }
macro_rules! foprs { ($($a:tt)*) => {
    fopr!($($a)*, F, &F);
    fopr!($($a)*, &F, F);
    fopr!($($a)*, &F, &F);
} }
foprs!(Add, AddSpecImpl, fadd, add, obeys_add_spec, add_req, add_spec, +, |a: real, b: real| true);
foprs!(Sub, SubSpecImpl, fsub, sub, obeys_sub_spec, sub_req, sub_spec, -, |a: real, b: real| true);
foprs!(Mul, MulSpecImpl, fmul, mul, obeys_mul_spec, mul_req, mul_spec, *, |a: real, b: real| true);
foprs!(Div, DivSpecImpl, fdiv, div, obeys_div_spec, div_req, div_spec, /, |a: real, b: real| b != 0real);
impl F { pub open spec fn id(self) -> F { self } }
impl NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> F;
}
impl core::ops::Neg for F {
    type Output = F;
    #[verifier::external_body]
    fn neg(self) -> (r: F) ensures r@ == 0real - self@ { F { x: -self.x } }
}
impl PartialEqSpecImpl<F> for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &F) -> bool { self.v() == other.v() }
}
impl PartialEq<F> for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) { self.x == o.x } }
impl PartialOrdSpecImpl<F> for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &F) -> Option<Ordering> {
        if self.v() < other.v() { Some(Ordering::Less) } else if self.v() == other.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl PartialOrd<F> for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<Ordering>) { self.x.partial_cmp(&o.x) } }
} // verus!
