#![feature(allocator_api)]
#![allow(unused_imports, dead_code, non_snake_case, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, unused_assignments, path_statements, unused_must_use, non_camel_case_types, mismatched_lifetime_syntaxes)]
// Model layer `m`: contracts of the standard-library items the crate uses.
// Everything marked external_body here is ASSUMED (the trusted base); the rest is verified.
use vstd::prelude::*;

verus! {

pub mod m {
use vstd::prelude::*;
use core::alloc::Allocator;

// ---------------------------------------------------------------- assertions and constants
/// Run-time assertion: must hold.
pub fn must(b: bool) requires b {}
/// Panic: must be unreachable.
#[verifier::external_body]
pub fn must_not_reach() -> ! requires false { panic!() }
/// Compile-time assertion: if the program compiles, it holds.
#[verifier::external_body]
pub fn const_assert(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub fn const_panic() -> ! { panic!() }
/// Compile-time arithmetic: overflow is a compile error, so the result is exact.
#[verifier::external_body]
pub fn const_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
#[verifier::external_body]
pub fn const_sub(a: usize, b: usize) -> (r: usize) ensures r == a - b { a - b }
#[verifier::external_body]
pub fn const_mul(a: usize, b: usize) -> (r: usize) ensures r == a * b { a * b }
#[verifier::external_body]
pub fn const_div(a: usize, b: usize) -> (r: usize) ensures b != 0, r as int == a as int / b as int { a / b }
#[verifier::external_body]
pub fn const_rem(a: usize, b: usize) -> (r: usize) ensures b != 0, r as int == a as int % b as int { a % b }
#[verifier::external_body]
pub fn const_unwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }

// ---------------------------------------------------------------- function parameters
/// A user function with state: `step` relates state, argument, result and next state.
pub trait FnM<A>: Sized {
    type Out;
    spec fn finv(&self) -> bool;
    spec fn step(self, a: A, r: Self::Out, post: Self) -> bool;
    fn call_m(&mut self, a: A) -> (r: Self::Out)
        requires old(self).finv(),
        ensures final(self).finv(), (*old(self)).step(a, r, *final(self));
}
/// The same for predicates that may modify a value in place.
pub trait FnMRef<K, V>: Sized {
    spec fn step(self, k: K, v0: V, r: bool, v1: V, post: Self) -> bool;
    fn call_r(&mut self, k: K, v: &mut V) -> (r: bool)
        ensures (*old(self)).step(k, *old(v), r, *final(v), *final(self));
}

/// The results of calling the function once on each of `ks`, in order.
pub open spec fn ran<F: FnM<(K,)>, K>(f: F, ks: Seq<K>, outs: Seq<F::Out>, ss: Seq<F>) -> bool {
    &&& ss.len() == outs.len() + 1
    &&& outs.len() <= ks.len()
    &&& ss[0] == f
    &&& forall|i: int| #![trigger outs[i]] #![trigger ss[i + 1]] 0 <= i < outs.len() ==> ss[i].step((ks[i],), outs[i], ss[i + 1])
}

// ---------------------------------------------------------------- iterators
/// `std::iter::Iterator` with the meaning of "an iterator over a finite sequence":
/// `rem` is the sequence still to come, `abs` what is observable of an item
/// (for `&mut V`: the value now and the value when the borrow ends).
pub trait Iterator: Sized {
    type Item;
    type A;
    #[verifier::prophetic]
    spec fn abs(x: Self::Item) -> Self::A;
    spec fn inv(&self) -> bool;
    spec fn rem(&self) -> Seq<Self::A>;
    /// The size hint is exact.
    spec fn exact() -> bool;
    proof fn rem_bound(&self)
        requires self.inv(),
        ensures self.rem().len() <= usize::MAX;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            match r {
                None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
                Some(x) => old(self).rem().len() > 0 && Self::abs(x) == old(self).rem()[0]
                    && final(self).rem() == old(self).rem().drop_first(),
            };
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv(),
        ensures r.0 <= self.rem().len(),
            r.1 matches Some(u) ==> self.rem().len() <= u,
            Self::exact() ==> r == (self.rem().len() as usize, Some(self.rem().len() as usize));
    fn count(self) -> (r: usize)
        requires self.inv(),
        ensures r == self.rem().len(),
    {
        let ghost s0 = self;
        let mut me = self;
        let mut n: usize = 0;
        proof { me.rem_bound(); }
        loop
            invariant me.inv(), n + me.rem().len() == s0.rem().len(), s0.rem().len() <= usize::MAX,
            ensures me.rem().len() == 0,
            decreases me.rem().len(),
        {
            match me.next() { None => break, Some(_) => { n = n + 1; } }
        }
        n
    }
    fn last(self) -> (r: Option<Self::Item>)
        requires self.inv(),
        ensures match r {
            None => self.rem().len() == 0,
            Some(x) => self.rem().len() > 0 && Self::abs(x) == self.rem().last(),
        },
    {
        let ghost s0 = self.rem();
        let mut me = self;
        let mut l: Option<Self::Item> = None;
        loop
            invariant me.inv(),
                match l {
                    None => me.rem() == s0,
                    Some(x) => s0.len() > 0 && (if me.rem().len() == 0 { Self::abs(x) == s0.last() }
                        else { me.rem().last() == s0.last() }),
                },
            ensures me.rem().len() == 0,
            decreases me.rem().len(),
        {
            match me.next() { None => break, Some(x) => { l = Some(x); } }
        }
        l
    }
    fn nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            match r {
                None => old(self).rem().len() <= n && final(self).rem().len() == 0,
                Some(x) => old(self).rem().len() > n && Self::abs(x) == old(self).rem()[n as int]
                    && final(self).rem() == old(self).rem().skip(n + 1),
            },
    {
        let ghost s0 = self.rem();
        let mut i: usize = 0;
        while i < n
            invariant self.inv(), i <= n, i <= s0.len(), self.rem() == s0.skip(i as int), s0 == old(self).rem(),
            decreases n - i,
        {
            match self.next() {
                None => return None,
                Some(_) => { i = i + 1; }
            }
            proof { assert(self.rem() =~= s0.skip(i as int)); }
        }
        let r = self.next();
        proof { if r.is_some() { assert(self.rem() =~= s0.skip(n + 1)); } }
        r
    }
}
pub trait ExactSizeIterator: Iterator {
    proof fn is_exact() ensures Self::exact();
    fn len(&self) -> (r: usize)
        requires self.inv(),
        ensures r == self.rem().len();
}
pub trait DoubleEndedIterator: Iterator {
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            match r {
                None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
                Some(x) => old(self).rem().len() > 0 && Self::abs(x) == old(self).rem().last()
                    && final(self).rem() == old(self).rem().drop_last(),
            };
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn ii_pre(self) -> bool;
    spec fn ii_post(self, r: Self::IntoIter) -> bool;
    fn into_iter(self) -> (r: Self::IntoIter)
        requires self.ii_pre(),
        ensures self.ii_post(r), r.inv();
}
impl<I: Iterator> IntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn ii_pre(self) -> bool { self.inv() }
    open spec fn ii_post(self, r: I) -> bool { r == self }
    fn into_iter(self) -> I { self }
}
pub trait FromIterator<A>: Sized {
    spec fn fi_post(s: Seq<A>, r: Self) -> bool;
    spec fn fi_pre(s: Seq<A>) -> bool;
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> (r: Self)
        where I::IntoIter: Iterator<Item = A, A = A>
        requires
            iter.ii_pre(),
            forall|x: A| #[trigger] <I::IntoIter as Iterator>::abs(x) == x,
            forall|it: I::IntoIter| #[trigger] iter.ii_post(it) ==> Self::fi_pre(it.rem()),
        ensures exists|it: I::IntoIter| #[trigger] iter.ii_post(it) && Self::fi_post(it.rem(), r);
}

// ---------------------------------------------------------------- adapters
/// `Iterator::map`: ASSUMED to give the results of calling the function on the items, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct Map<I, F> { i: I, f: F }
impl<I: Iterator, F: FnM<(I::Item,)>> Map<I, F> {
    pub uninterp spec fn view(&self) -> Seq<F::Out>;
}
impl<I: Iterator, F: FnM<(I::Item,)>> Iterator for Map<I, F> {
    type Item = F::Out;
    type A = F::Out;
    #[verifier::prophetic]
    open spec fn abs(x: F::Out) -> F::Out { x }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<F::Out> { self@ }
    open spec fn exact() -> bool { false }
    #[verifier::external_body]
    proof fn rem_bound(&self) {}
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<F::Out>) { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
pub trait IterAdapt: Iterator {
    fn map<F: FnM<(<Self as Iterator>::Item,)>>(self, f: F) -> (r: Map<Self, F>)
        where Self: Iterator<A = <Self as Iterator>::Item>
        requires self.inv(), f.finv(), forall|x: <Self as Iterator>::Item| #[trigger] <Self as Iterator>::abs(x) == x,
        ensures r.inv(), r.rem().len() == self.rem().len(),
            exists|ss: Seq<F>| #[trigger] ran(f, self.rem(), r.rem(), ss);
    fn zip<J: IntoIterator>(self, other: J) -> (r: Zip<Self, J::IntoIter>)
        requires self.inv(), other.ii_pre(),
        ensures r.inv(), r.a == self, other.ii_post(r.b);
}
impl<I: Iterator> IterAdapt for I {
    #[verifier::external_body]
    fn map<F: FnM<(<Self as Iterator>::Item,)>>(self, f: F) -> (r: Map<Self, F>)
        where Self: Iterator<A = <Self as Iterator>::Item>
    { unimplemented!() }
    fn zip<J: IntoIterator>(self, other: J) -> (r: Zip<Self, J::IntoIter>)
    { Zip { a: self, b: other.into_iter() } }
}
pub struct Zip<I, J> { pub a: I, pub b: J }
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> {
    type Item = (I::Item, J::Item);
    type A = (I::A, J::A);
    #[verifier::prophetic]
    open spec fn abs(x: (I::Item, J::Item)) -> (I::A, J::A) { (I::abs(x.0), J::abs(x.1)) }
    open spec fn inv(&self) -> bool { self.a.inv() && self.b.inv() }
    open spec fn rem(&self) -> Seq<(I::A, J::A)> {
        Seq::new(if self.a.rem().len() <= self.b.rem().len() { self.a.rem().len() } else { self.b.rem().len() },
            |i: int| (self.a.rem()[i], self.b.rem()[i]))
    }
    open spec fn exact() -> bool { false }
    proof fn rem_bound(&self) { self.a.rem_bound(); self.b.rem_bound(); }
    fn next(&mut self) -> (r: Option<(I::Item, J::Item)>) {
        let ghost z = *self;
        match self.a.next() {
            None => { proof { assert(self.rem() =~= z.rem()); } None }
            Some(x) => match self.b.next() {
                None => { proof { assert(self.rem() =~= z.rem()); } None }
                Some(y) => { proof { assert(self.rem() =~= z.rem().drop_first()); } Some((x, y)) }
            }
        }
    }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { (0, None) }
}

// ---------------------------------------------------------------- std::ops::Range<usize>
pub struct Range<Idx> { pub start: Idx, pub end: Idx }
impl Range<usize> {
    pub open spec fn n(&self) -> nat { if self.start <= self.end { (self.end - self.start) as nat } else { 0 } }
}
impl Iterator for Range<usize> {
    type Item = usize;
    type A = usize;
    #[verifier::prophetic]
    open spec fn abs(x: usize) -> usize { x }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<usize> { Seq::new(self.n(), |i: int| (self.start + i) as usize) }
    open spec fn exact() -> bool { true }
    proof fn rem_bound(&self) {}
    fn next(&mut self) -> (r: Option<usize>)
        ensures
            r is Some ==> r == Some(old(self).start) && final(self).start == old(self).start + 1 && old(self).start < old(self).end,
            r is None ==> *final(self) == *old(self),
            final(self).end == old(self).end,
    {
        if self.start < self.end {
            let n = self.start;
            self.start = n + 1;
            proof { assert(<Self as Iterator>::abs(n) == n); assert(self.inv()); assert(old(self).rem()[0] == n); assert(self.rem() =~= old(self).rem().drop_first()); }
            Some(n)
        } else { None }
    }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) {
        if self.start < self.end { (self.end - self.start, Some(self.end - self.start)) } else { (0, Some(0)) }
    }
    fn count(self) -> (r: usize) { if self.start < self.end { self.end - self.start } else { 0 } }
}
impl ExactSizeIterator for Range<usize> {
    proof fn is_exact() {}
    fn len(&self) -> (r: usize) { if self.start < self.end { self.end - self.start } else { 0 } }
}
impl DoubleEndedIterator for Range<usize> {
    fn next_back(&mut self) -> (r: Option<usize>)
        ensures
            r is Some ==> r == Some(final(self).end) && final(self).end == old(self).end - 1 && old(self).start < old(self).end,
            r is None ==> *final(self) == *old(self),
            final(self).start == old(self).start,
    {
        if self.start < self.end {
            self.end = self.end - 1;
            proof { assert(self.rem() =~= old(self).rem().drop_last()); }
            Some(self.end)
        } else { None }
    }
}
impl Clone for Range<usize> {
    fn clone(&self) -> (r: Self) ensures r == *self { Range { start: self.start, end: self.end } }
}

// ---------------------------------------------------------------- std::slice, std::vec, std::array iterators
pub mod slice {
use vstd::prelude::*;
use super::{Iterator, ExactSizeIterator, DoubleEndedIterator};
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IterMut<'a, T> { i: std::slice::IterMut<'a, T> }
impl<'a, T> IterMut<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<(T, T)>;
}
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    type A = (T, T);
    #[verifier::prophetic]
    open spec fn abs(x: &'a mut T) -> (T, T) { (*x, *final(x)) }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<(T, T)> { self@ }
    open spec fn exact() -> bool { true }
    #[verifier::external_body]
    proof fn rem_bound(&self) {}
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a mut T>) { std::iter::Iterator::next(&mut self.i) }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { std::iter::Iterator::size_hint(&self.i) }
}
impl<'a, T> ExactSizeIterator for IterMut<'a, T> {
    proof fn is_exact() {}
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { std::iter::ExactSizeIterator::len(&self.i) }
}
impl<'a, T> DoubleEndedIterator for IterMut<'a, T> {
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<&'a mut T>) { std::iter::DoubleEndedIterator::next_back(&mut self.i) }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Iter<'a, T> { i: std::slice::Iter<'a, T> }
impl<'a, T> Iter<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    type A = T;
    #[verifier::prophetic]
    open spec fn abs(x: &'a T) -> T { *x }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<T> { self@ }
    open spec fn exact() -> bool { true }
    #[verifier::external_body]
    proof fn rem_bound(&self) {}
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>) { std::iter::Iterator::next(&mut self.i) }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { std::iter::Iterator::size_hint(&self.i) }
}
impl<'a, T> ExactSizeIterator for Iter<'a, T> {
    proof fn is_exact() {}
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { std::iter::ExactSizeIterator::len(&self.i) }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<&'a T>) { std::iter::DoubleEndedIterator::next_back(&mut self.i) }
}
impl<'a, T> Clone for Iter<'a, T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { Iter { i: self.i.clone() } }
}
impl<'a, T> Iter<'a, T> {
    #[verifier::external_body]
    pub fn from_slice(s: &'a [T]) -> (r: Self) ensures r@ == s@ { Iter { i: s.iter() } }
}
impl<'a, T> IterMut<'a, T> {
    /// The slice still to come; values as they are now.
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &super::Sl<T>) ensures r@ == self@.map_values(|x: (T, T)| x.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice_mut(s: &'a mut [T]) -> (r: Self)
        ensures r@.len() == old(s)@.len(), final(s)@.len() == old(s)@.len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (old(s)@[i], final(s)@[i]),
    { IterMut { i: s.iter_mut() } }
}
#[verifier::external_body]
pub fn from_ref<T>(s: &T) -> (r: &[T]) ensures r@ == seq![*s] { std::slice::from_ref(s) }
#[verifier::external_body]
pub fn from_mut<T>(s: &mut T) -> (r: &mut [T])
    ensures r@ == seq![*old(s)], final(r)@ == seq![*final(s)]
{ std::slice::from_mut(s) }
}

pub mod vec {
use vstd::prelude::*;
use super::{Iterator, ExactSizeIterator, DoubleEndedIterator};
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IntoIter<T> { i: std::vec::IntoIter<T> }
impl<T> IntoIter<T> { pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn of(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &super::Sl<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    type A = T;
    #[verifier::prophetic]
    open spec fn abs(x: T) -> T { x }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<T> { self@ }
    open spec fn exact() -> bool { true }
    #[verifier::external_body]
    proof fn rem_bound(&self) {}
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { std::iter::Iterator::next(&mut self.i) }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { std::iter::Iterator::size_hint(&self.i) }
}
impl<T> ExactSizeIterator for IntoIter<T> {
    proof fn is_exact() {}
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { std::iter::ExactSizeIterator::len(&self.i) }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<T>) { std::iter::DoubleEndedIterator::next_back(&mut self.i) }
}
impl<T: Clone> Clone for IntoIter<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures super::cloned_seq(self@, r@) { IntoIter { i: self.i.clone() } }
}
}

pub mod array {
use vstd::prelude::*;
use super::{Iterator, ExactSizeIterator, DoubleEndedIterator, FnM};
/// `array::from_fn`: the results of calling the function on `0..N`, in order.
#[verifier::external_body]
pub fn from_fn<F: FnM<(usize,)>, const N: usize>(f: F) -> (r: [F::Out; N])
    requires f.finv()
    ensures exists|ss: Seq<F>| #[trigger] super::ran(f, upto(N as nat), r@, ss) { unimplemented!() }
/// `0..n`.
pub open spec fn upto(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IntoIter<T, const N: usize> { i: std::array::IntoIter<T, N> }
impl<T, const N: usize> IntoIter<T, N> { pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn of(v: [T; N]) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &super::Sl<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T, const N: usize> Iterator for IntoIter<T, N> {
    type Item = T;
    type A = T;
    #[verifier::prophetic]
    open spec fn abs(x: T) -> T { x }
    open spec fn inv(&self) -> bool { true }
    open spec fn rem(&self) -> Seq<T> { self@ }
    open spec fn exact() -> bool { true }
    #[verifier::external_body]
    proof fn rem_bound(&self) {}
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { std::iter::Iterator::next(&mut self.i) }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { std::iter::Iterator::size_hint(&self.i) }
}
impl<T, const N: usize> ExactSizeIterator for IntoIter<T, N> {
    proof fn is_exact() {}
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { std::iter::ExactSizeIterator::len(&self.i) }
}
impl<T, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<T>) { std::iter::DoubleEndedIterator::next_back(&mut self.i) }
}
impl<T: Clone, const N: usize> Clone for IntoIter<T, N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures super::cloned_seq(self@, r@) { IntoIter { i: self.i.clone() } }
}
}

/// A borrowed slice whose `.iter()` is the contracted iterator.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sl<T> { p: core::marker::PhantomData<T> }
impl<T> Sl<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: slice::Iter<'a, T>) ensures r@ == self@ { unimplemented!() }
}

/// Element-wise `Clone`.
pub open spec fn cloned_seq<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> cloned::<T>(a[i], #[trigger] b[i])
}

/// `.iter()`, `.iter_mut()` on owned storage.
pub trait IterExt<T> {
    spec fn items(&self) -> Seq<T>;
    fn iter<'a>(&'a self) -> (r: slice::Iter<'a, T>)
        ensures r@ == self.items();
    fn iter_mut<'a>(&'a mut self) -> (r: slice::IterMut<'a, T>)
        ensures r@.len() == old(self).items().len(), final(self).items().len() == old(self).items().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (old(self).items()[i], final(self).items()[i]);
}
impl<T> IterExt<T> for Box<[T]> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: slice::Iter<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn iter_mut<'a>(&'a mut self) -> (r: slice::IterMut<'a, T>) { unimplemented!() }
}
impl<T, const S: usize> IterExt<T> for [T; S] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: slice::Iter<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn iter_mut<'a>(&'a mut self) -> (r: slice::IterMut<'a, T>) { unimplemented!() }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = vec::IntoIter<T>;
    open spec fn ii_pre(self) -> bool { true }
    open spec fn ii_post(self, r: vec::IntoIter<T>) -> bool { r@ == self@ }
    fn into_iter(self) -> (r: vec::IntoIter<T>) { vec::IntoIter::of(self) }
}
impl<T, const S: usize> IntoIterator for [T; S] {
    type Item = T;
    type IntoIter = array::IntoIter<T, S>;
    open spec fn ii_pre(self) -> bool { true }
    open spec fn ii_post(self, r: array::IntoIter<T, S>) -> bool { r@ == self@ }
    fn into_iter(self) -> (r: array::IntoIter<T, S>) { array::IntoIter::of(self) }
}
impl<'a, T, const S: usize> IntoIterator for &'a [T; S] {
    type Item = &'a T;
    type IntoIter = slice::Iter<'a, T>;
    open spec fn ii_pre(self) -> bool { true }
    open spec fn ii_post(self, r: slice::Iter<'a, T>) -> bool { r@ == self@ }
    fn into_iter(self) -> (r: slice::Iter<'a, T>) { self.iter() }
}

// ---------------------------------------------------------------- boxed slices, vectors
pub trait OptExt<T> {}
pub trait BoxExt<T> {
    spec fn bview(&self) -> Seq<T>;
    fn into_vec(self) -> (r: Vec<T>) ensures r@ == self.bview();
    fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures final(self).bview().len() == old(self).bview().len(), match r {
            None => i >= old(self).bview().len() && final(self).bview() == old(self).bview(),
            Some(x) => i < old(self).bview().len() && *x == old(self).bview()[i as int]
                && final(self).bview() == old(self).bview().update(i as int, *final(x)),
        };
}
impl<T> BoxExt<T> for Box<[T]> {
    open spec fn bview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<T>) { <[T]>::into_vec(self) }
    fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { let s: &mut [T] = self; s.get_mut(i) }
}
pub assume_specification<T: Clone, A: Allocator + Clone>[ <Box<[T], A> as Clone>::clone ](b: &Box<[T], A>) -> (r: Box<[T], A>)
    ensures cloned_seq(b@, r@);
/// `Box::<[T]>::default()`.
#[verifier::external_body]
pub fn box_default<T>() -> (r: Box<[T]>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vec_from_elem(x: u64, n: usize) -> (r: Vec<u64>)
    ensures r@ == Seq::new(n as nat, |i: int| x)
{ std::vec![x; n] }
pub assume_specification<T, A: Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
#[verifier::external_body]
pub fn slice_to<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body]
pub fn slice_from<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len() ensures r@ == s@.skip(n as int) { &s[n..] }
#[verifier::external_body]
pub fn slice_range<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body]
pub fn slice_full<T>(s: &[T]) -> (r: &[T]) ensures r@ == s@ { s }

/// `a & b`, with references allowed on the left.
pub trait BAnd<R>: Sized {
    type O;
    spec fn band_sp(self, r: R) -> Self::O;
    fn band(self, r: R) -> (o: Self::O) ensures o == self.band_sp(r);
}
pub fn band<L: BAnd<R>, R>(l: L, r: R) -> (o: L::O) ensures o == l.band_sp(r) { l.band(r) }
impl BAnd<u64> for u64 { type O = u64; open spec fn band_sp(self, r: u64) -> u64 { self & r } fn band(self, r: u64) -> u64 { self & r } }
impl<'a> BAnd<u64> for &'a u64 { type O = u64; open spec fn band_sp(self, r: u64) -> u64 { *self & r } fn band(self, r: u64) -> u64 { *self & r } }
impl BAnd<usize> for usize { type O = usize; open spec fn band_sp(self, r: usize) -> usize { self & r } fn band(self, r: usize) -> usize { self & r } }
impl BAnd<u32> for u32 { type O = u32; open spec fn band_sp(self, r: u32) -> u32 { self & r } fn band(self, r: u32) -> u32 { self & r } }
impl BAnd<bool> for bool { type O = bool; open spec fn band_sp(self, r: bool) -> bool { self && r } fn band(self, r: bool) -> bool { if self { r } else { false } } }

/// Bits set in `lo..hi`.
pub open spec fn ones(w: u64, lo: int, hi: int) -> nat
    decreases hi - lo
{ if lo >= hi { 0 } else { (if (w >> (lo as u64)) & 1 == 1 { 1nat } else { 0nat }) + ones(w, lo + 1, hi) } }
pub assume_specification[ u64::count_ones ](w: u64) -> (r: u32)
    ensures r == ones(w, 0, 64);
pub assume_specification[ u64::checked_shr ](w: u64, s: u32) -> (r: Option<u64>)
    ensures s < 64 ==> r == Some(w >> (s as u64)), s >= 64 ==> r is None;
#[verifier::external_body]
pub proof fn box_of<T>(x: T) -> (b: Box<T>) ensures *b == x { unimplemented!() }
/// Arrays are their elements.
#[verifier::external_body]
pub proof fn array_ext<T, const N: usize>(a: [T; N], b: [T; N]) requires a@ == b@ ensures a == b {}
#[verifier::external_body]
pub proof fn array_of<T, const N: usize>(s: Seq<T>) -> (r: [T; N]) requires s.len() == N ensures r@ == s { unimplemented!() }
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0 ensures r as int == (a as int + b as int - 1) / (b as int);

pub mod mem {
use vstd::prelude::*;
#[verifier::external_body]
pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { std::mem::replace(d, v) }
#[verifier::external_body]
pub fn forget<T: super::Owns>(x: T) requires x.owns_nothing() { std::mem::forget(x) }
/// Only the instance the crate uses: options.
#[verifier::external_body]
pub fn take<T>(d: &mut Option<T>) -> (r: Option<T>) ensures r == *old(d), *final(d) == None::<T> { std::mem::take(d) }
#[verifier::external_body]
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
// Layout of a type parameter: any value, so what depends on it must be right for all of them.
#[verifier::external_body]
pub fn size_of<T>() -> usize { std::mem::size_of::<T>() }
#[verifier::external_body]
pub fn align_of<T>() -> usize { std::mem::align_of::<T>() }
#[verifier::external_body]
pub fn size_of_val<T>(x: &T) -> usize { std::mem::size_of_val(x) }
#[verifier::external_body]
pub const fn needs_drop<T>() -> bool { std::mem::needs_drop::<T>() }
}
pub assume_specification<T>[ core::mem::drop ](x: T);
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);

// ---------------------------------------------------------------- std::ops::Index
pub trait Index<Idx> {
    type Output;
    spec fn ix_pre(&self, i: Idx) -> bool;
    spec fn ix(&self, i: Idx) -> Self::Output;
    fn index(&self, index: Idx) -> (r: &Self::Output)
        requires self.ix_pre(index),
        ensures *r == self.ix(index);
}
pub trait IndexMut<Idx>: Index<Idx> + Sized {
    spec fn ix_upd(pre: Self, i: Idx, v: Self::Output, post: Self) -> bool;
    fn index_mut(&mut self, index: Idx) -> (r: &mut Self::Output)
        requires old(self).ix_pre(index),
        ensures *r == old(self).ix(index), Self::ix_upd(*old(self), index, *final(r), *final(self));
}

// ---------------------------------------------------------------- MaybeUninit, raw slot pointers, forget
/// `std::mem::MaybeUninit`: `view` is the value the slot owns, if any. Dropping one does nothing.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { i: std::mem::MaybeUninit<T> }
impl<T> MaybeUninit<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r@ == Some(v) { unimplemented!() }
    /// Leaks what the slot owned, so the slot must own nothing.
    #[verifier::external_body]
    pub fn write(&mut self, v: T) -> (r: &mut T)
        requires old(self)@ is None
        ensures *r == v, final(self)@ == Some(*final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_drop(&mut self)
        requires old(self)@ is Some
        ensures final(self)@ is None { unimplemented!() }
    /// Takes the value out (the bits stay, the slot owns nothing any more).
    #[verifier::external_body]
    pub fn assume_init_read(&mut self) -> (r: T)
        requires old(self)@ is Some
        ensures final(self)@ is None, old(self)@ == Some(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T)
        requires self@ is Some
        ensures self@ == Some(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_ref(&self) -> (r: &T)
        requires self@ is Some
        ensures self@ == Some(*r) { unimplemented!() }
}
/// The pointer `<[MaybeUninit<T>]>::as_mut_ptr` returns, and the same cast to `*mut T`.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SlotPtr<'a, T> { p: core::marker::PhantomData<&'a mut T> }
impl<'a, T> SlotPtr<'a, T> {
    /// The slots when the pointer was made, and when its last use is over.
    pub uninterp spec fn cur(&self) -> Seq<MaybeUninit<T>>;
    #[verifier::prophetic]
    pub uninterp spec fn fin(&self) -> Seq<MaybeUninit<T>>;
    pub uninterp spec fn off(&self) -> int;
    /// `*mut MaybeUninit<T>` as `*mut T`: same address, same layout.
    #[verifier::external_body]
    pub fn cast<U>(self) -> (r: SlotPtr<'a, T>)
        ensures r.cur() == self.cur(), r.fin() == self.fin(), r.off() == self.off() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: SlotPtr<'a, T>)
        requires 0 <= self.off() + n <= self.cur().len()
        ensures r.cur() == self.cur(), r.fin() == self.fin(), r.off() == self.off() + n { unimplemented!() }
    /// `ptr.write(v)` does not drop what was there: the slot must own nothing.
    #[verifier::external_body]
    pub fn write(self, v: T)
        requires 0 <= self.off() < self.cur().len(), self.cur()[self.off()]@ is None
        ensures self.fin().len() == self.cur().len(), self.fin()[self.off()]@ == Some(v),
            forall|i: int| 0 <= i < self.cur().len() && i != self.off() ==> (#[trigger] self.fin()[i]) == self.cur()[i] { unimplemented!() }
}
pub trait SlotExt<T> {
    fn as_mut_ptr<'a>(&'a mut self) -> (r: SlotPtr<'a, T>);
}
impl<T, const S: usize> SlotExt<T> for [MaybeUninit<T>; S] {
    #[verifier::external_body]
    fn as_mut_ptr<'a>(&'a mut self) -> (r: SlotPtr<'a, T>)
        ensures r.cur() == old(self)@, r.fin() == final(self)@, r.off() == 0 { unimplemented!() }
}
/// `transmute_copy::<[MaybeUninit<T>; S], [T; S]>(&a)`: every slot must own a value; the values are now owned by the result.
#[verifier::external_body]
pub fn transmute_copy<T, const S: usize>(a: &mut [MaybeUninit<T>; S]) -> (r: [T; S])
    requires forall|i: int| 0 <= i < S ==> (#[trigger] old(a)@[i])@ is Some
    ensures forall|i: int| #![trigger r@[i]] #![trigger final(a)@[i]] 0 <= i < S ==> old(a)@[i]@ == Some(r@[i]) && final(a)@[i]@ is None { unimplemented!() }
/// What `mem::forget` must not be given: something that still owns values.
pub trait Owns: Sized { spec fn owns_nothing(self) -> bool; }
pub mod ptr {
use vstd::prelude::*;
/// Only on slots, whose drop does nothing.
#[verifier::external_body]
pub fn drop_in_place<T>(s: &mut [super::MaybeUninit<T>]) ensures final(s)@ == old(s)@ { unimplemented!() }
}
#[verifier::external_body]
pub fn slice_range_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == r@.len(),
        final(s)@ == old(s)@.take(a as int) + final(r)@ + old(s)@.skip(b as int) { unimplemented!() }

// ---------------------------------------------------------------- either::Either, std::convert::Infallible
/// A type without values.
#[verifier::external_body]
pub struct Infallible { i: std::convert::Infallible }
impl Infallible {
    #[verifier::external_body]
    pub proof fn never(self) ensures false {}
}
/// `match x {}` on a type without values.
#[verifier::external_body]
pub fn absurd(x: &Infallible) -> ! { match x.i {} }
pub enum Either<L, R> { Left(L), Right(R) }

// ---------------------------------------------------------------- std::sync::atomic
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum MemOrdering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl MemOrdering {
    pub open spec fn load_ok(self) -> bool { self != MemOrdering::Release && self != MemOrdering::AcqRel }
    pub open spec fn store_ok(self) -> bool { self != MemOrdering::Acquire && self != MemOrdering::AcqRel }
}
/// One atomic operation on the cell, with everything it was given and returned.
pub ghost enum AtomicEvent {
    Load { o: MemOrdering, v: usize },
    Store { o: MemOrdering, v: usize },
    Cas { old: usize, new: usize, s: MemOrdering, f: MemOrdering, r: Result<usize, usize> },
    Swap { o: MemOrdering, new: usize, old: usize },
    WeakCas { old: usize, new: usize, s: MemOrdering, f: MemOrdering, r: Result<usize, usize> },
}
/// `AtomicUsize` used for ordinals of `T`. The cell is shared: between any two operations other
/// threads may change it, but only through operations that obey these preconditions, so every value
/// read is an ordinal of `T`. `log` are the operations performed through this handle.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AtomicUsize<T> { i: std::sync::atomic::AtomicUsize, p: core::marker::PhantomData<T> }
impl<T: crate::Ordinal> AtomicUsize<T> {
    pub uninterp spec fn log(&self) -> Seq<AtomicEvent>;
    /// The value the cell was created with.
    pub uninterp spec fn initial(&self) -> usize;
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Self)
        requires v < T::count()
        ensures r.initial() == v, r.log() == Seq::<AtomicEvent>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&mut self, o: MemOrdering) -> (r: usize)
        requires o.load_ok()
        ensures r < T::count(), final(self).initial() == old(self).initial(),
            final(self).log() == old(self).log().push(AtomicEvent::Load { o, v: r }) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, v: usize, o: MemOrdering)
        requires v < T::count(), o.store_ok()
        ensures final(self).initial() == old(self).initial(),
            final(self).log() == old(self).log().push(AtomicEvent::Store { o, v }) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, v: usize, o: MemOrdering) -> (r: usize)
        requires v < T::count()
        ensures r < T::count(), final(self).initial() == old(self).initial(),
            final(self).log() == old(self).log().push(AtomicEvent::Swap { o, new: v, old: r }) { unimplemented!() }
    /// May fail although the values are equal.
    #[verifier::external_body]
    pub fn compare_exchange_weak(&mut self, old_: usize, new: usize, s: MemOrdering, f: MemOrdering) -> (r: Result<usize, usize>)
        requires new < T::count(), f.load_ok()
        ensures match r { Ok(v) => v == old_ && v < T::count(), Err(v) => v < T::count() },
            final(self).initial() == old(self).initial(),
            final(self).log() == old(self).log().push(AtomicEvent::WeakCas { old: old_, new, s, f, r }) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&mut self, old_: usize, new: usize, s: MemOrdering, f: MemOrdering) -> (r: Result<usize, usize>)
        requires new < T::count(), f.load_ok()
        ensures match r { Ok(v) => v == old_ && v < T::count(), Err(v) => v < T::count() },
            final(self).initial() == old(self).initial(),
            final(self).log() == old(self).log().push(AtomicEvent::Cas { old: old_, new, s, f, r }) { unimplemented!() }
}

// ---------------------------------------------------------------- std::fmt
/// What is written to a formatter: single characters of literal text, and the notations of the
/// standard builders around the renderings of their entries. How the builders and the options of the
/// formatter lay these out as characters is std's.
pub ghost enum Doc {
    Ch(char),
    Map(Seq<(Seq<Doc>, Seq<Doc>)>),
    Set(Seq<Seq<Doc>>),
    List(Seq<Seq<Doc>>),
    Tuple(Seq<Doc>, Seq<Doc>),
}
/// Literal text.
pub open spec fn lit(s: Seq<char>) -> Seq<Doc> { s.map_values(|c: char| Doc::Ch(c)) }
pub proof fn lemma_lit(a: Seq<char>, b: Seq<char>) ensures lit(a + b) == lit(a) + lit(b) { assert(lit(a + b) =~= lit(a) + lit(b)); }
#[verifier::external_body]
pub struct FmtError { i: u8 }
/// `std::fmt::Formatter`: `view` is what has been written so far.
#[verifier::external_body]
pub struct Formatter<'a> { i: core::marker::PhantomData<&'a mut u8> }
/// `std::fmt::Debug`: an implementation writes `doc` of the value, or reports an error of the formatter.
pub trait Debug {
    /// When the value may be rendered.
    spec fn shows(&self) -> bool;
    spec fn doc(&self) -> Seq<Doc>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result<(), FmtError>)
        requires self.shows(),
        ensures r is Ok ==> final(f)@ == old(f)@ + self.doc();
}
pub open spec fn all_show<T: Debug>() -> bool { forall|x: T| #[trigger] x.shows() }
impl<'a, T: Debug> Debug for &'a T {
    open spec fn shows(&self) -> bool { (*self).shows() }
    open spec fn doc(&self) -> Seq<Doc> { (*self).doc() }
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result<(), FmtError>) { (*self).fmt(f) }
}
impl<A: Debug, B: Debug> Debug for (A, B) {
    open spec fn shows(&self) -> bool { self.0.shows() && self.1.shows() }
    open spec fn doc(&self) -> Seq<Doc> { seq![Doc::Tuple(self.0.doc(), self.1.doc())] }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl Debug for () {
    open spec fn shows(&self) -> bool { true }
    uninterp spec fn doc(&self) -> Seq<Doc>;
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result<(), FmtError>) { unimplemented!() }
}
pub open spec fn docs<T: Debug>(s: Seq<T>) -> Seq<Seq<Doc>> { s.map_values(|x: T| x.doc()) }
pub open spec fn doc_pairs<K: Debug, V: Debug>(s: Seq<(K, V)>) -> Seq<(Seq<Doc>, Seq<Doc>)> { s.map_values(|x: (K, V)| (x.0.doc(), x.1.doc())) }
impl<'a> Formatter<'a> {
    pub uninterp spec fn view(&self) -> Seq<Doc>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self)@ == old(self)@ + lit(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_map<'b>(&'b mut self) -> (r: DebugMap<'b>)
        ensures r.start() == old(self)@, r.end() == final(self)@, r.items() == Seq::<(Seq<Doc>, Seq<Doc>)>::empty(), !r.done() { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_set<'b>(&'b mut self) -> (r: DebugSet<'b>)
        ensures r.start() == old(self)@, r.end() == final(self)@, r.items() == Seq::<Seq<Doc>>::empty(), !r.done() { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_list<'b>(&'b mut self) -> (r: DebugList<'b>)
        ensures r.start() == old(self)@, r.end() == final(self)@, r.items() == Seq::<Seq<Doc>>::empty(), !r.done() { unimplemented!() }
}
/// One literal piece of a `write!`.
pub fn fmt_lit(f: &mut Formatter<'_>, s: &str) -> (r: Result<(), FmtError>)
    ensures r is Ok ==> final(f)@ == old(f)@ + lit(s@) { f.write_str(s) }
/// `std::fmt::DebugMap`: `start` what the formatter held before, `end` what it holds when the builder's
/// borrow ends, which `finish` decides.
#[verifier::external_body]
pub struct DebugMap<'b> { i: core::marker::PhantomData<&'b mut u8> }
impl<'b> DebugMap<'b> {
    pub uninterp spec fn start(&self) -> Seq<Doc>;
    pub uninterp spec fn end(&self) -> Seq<Doc>;
    pub uninterp spec fn items(&self) -> Seq<(Seq<Doc>, Seq<Doc>)>;
    pub uninterp spec fn done(&self) -> bool;
    pub open spec fn with(&self, n: Self, items: Seq<(Seq<Doc>, Seq<Doc>)>) -> bool {
        n.start() == self.start() && n.end() == self.end() && n.done() == self.done() && n.items() == self.items() + items
    }
    /// `abs` of the iterator's items must not lose anything that is rendered.
    #[verifier::external_body]
    pub fn entries<K: Debug, V: Debug, AK: Debug, AV: Debug, D: IntoIterator<Item = (K, V)>>(&mut self, d: D) -> (r: &mut Self)
        where D::IntoIter: Iterator<Item = (K, V), A = (AK, AV)>
        requires d.ii_pre(), !old(self).done(),
            forall|k: K| #[trigger] k.shows(), forall|v: V| #[trigger] v.shows(),
            forall|x: (K, V)| (#[trigger] <D::IntoIter as Iterator>::abs(x)).0.doc() == x.0.doc() && <D::IntoIter as Iterator>::abs(x).1.doc() == x.1.doc(),
        ensures exists|it: D::IntoIter| #[trigger] d.ii_post(it) && old(self).with(*r, doc_pairs(it.rem())), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<K: Debug, V: Debug>(&mut self, k: &K, v: &V) -> (r: &mut Self)
        requires k.shows(), v.shows(), !old(self).done(),
        ensures old(self).with(*r, seq![(k.doc(), v.doc())]), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result<(), FmtError>)
        requires !old(self).done(),
        ensures final(self).done(), r is Ok ==> old(self).end() == old(self).start() + seq![Doc::Map(old(self).items())] { unimplemented!() }
}
#[verifier::external_body]
pub struct DebugSet<'b> { i: core::marker::PhantomData<&'b mut u8> }
impl<'b> DebugSet<'b> {
    pub uninterp spec fn start(&self) -> Seq<Doc>;
    pub uninterp spec fn end(&self) -> Seq<Doc>;
    pub uninterp spec fn items(&self) -> Seq<Seq<Doc>>;
    pub uninterp spec fn done(&self) -> bool;
    pub open spec fn with(&self, n: Self, items: Seq<Seq<Doc>>) -> bool {
        n.start() == self.start() && n.end() == self.end() && n.done() == self.done() && n.items() == self.items() + items
    }
    #[verifier::external_body]
    pub fn entries<X: Debug, Y: Debug, D: IntoIterator<Item = X>>(&mut self, d: D) -> (r: &mut Self)
        where D::IntoIter: Iterator<Item = X, A = Y>
        requires d.ii_pre(), !old(self).done(), forall|x: X| #[trigger] x.shows(),
            forall|x: X| (#[trigger] <D::IntoIter as Iterator>::abs(x)).doc() == x.doc(),
        ensures exists|it: D::IntoIter| #[trigger] d.ii_post(it) && old(self).with(*r, docs(it.rem())), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<X: Debug>(&mut self, x: &X) -> (r: &mut Self)
        requires x.shows(), !old(self).done(),
        ensures old(self).with(*r, seq![x.doc()]), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result<(), FmtError>)
        requires !old(self).done(),
        ensures final(self).done(), r is Ok ==> old(self).end() == old(self).start() + seq![Doc::Set(old(self).items())] { unimplemented!() }
}
#[verifier::external_body]
pub struct DebugList<'b> { i: core::marker::PhantomData<&'b mut u8> }
impl<'b> DebugList<'b> {
    pub uninterp spec fn start(&self) -> Seq<Doc>;
    pub uninterp spec fn end(&self) -> Seq<Doc>;
    pub uninterp spec fn items(&self) -> Seq<Seq<Doc>>;
    pub uninterp spec fn done(&self) -> bool;
    pub open spec fn with(&self, n: Self, items: Seq<Seq<Doc>>) -> bool {
        n.start() == self.start() && n.end() == self.end() && n.done() == self.done() && n.items() == self.items() + items
    }
    #[verifier::external_body]
    pub fn entries<X: Debug, Y: Debug, D: IntoIterator<Item = X>>(&mut self, d: D) -> (r: &mut Self)
        where D::IntoIter: Iterator<Item = X, A = Y>
        requires d.ii_pre(), !old(self).done(), forall|x: X| #[trigger] x.shows(),
            forall|x: X| (#[trigger] <D::IntoIter as Iterator>::abs(x)).doc() == x.doc(),
        ensures exists|it: D::IntoIter| #[trigger] d.ii_post(it) && old(self).with(*r, docs(it.rem())), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<X: Debug>(&mut self, x: &X) -> (r: &mut Self)
        requires x.shows(), !old(self).done(),
        ensures old(self).with(*r, seq![x.doc()]), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Result<(), FmtError>)
        requires !old(self).done(),
        ensures final(self).done(), r is Ok ==> old(self).end() == old(self).start() + seq![Doc::List(old(self).items())] { unimplemented!() }
}
pub mod fmt {
    pub use super::{Debug, Formatter, DebugMap, DebugSet, DebugList};
    pub use super::FmtError as Error;
    pub type Result = core::result::Result<(), super::FmtError>;
}

} // mod m
}
