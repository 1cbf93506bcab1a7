#![allow(unused_imports, dead_code, non_snake_case, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, unused_assignments, path_statements, unused_must_use, non_camel_case_types, mismatched_lifetime_syntaxes)]
// Model layer for the derive macro's code generator: contracts of the standard-library, `syn` and `quote`
// items it uses. Everything marked external_body or uninterp here is ASSUMED (the trusted base).
use vstd::prelude::*;

verus! {

pub mod m {
use vstd::prelude::*;

/// The macro does not panic,
pub fn must(b: bool) requires b, ensures b { }
#[verifier::external_body]
pub fn must_not_reach() -> ! requires false, ensures false { panic!() }
pub fn expect<T>(x: Option<T>) -> (r: T) requires x is Some, ensures x == Some(r) { match x { Some(r) => r, None => must_not_reach() } }
/// except when a number does not fit, which is then a compile error of the declaration: the contracts are about the code
/// the macro returns.
#[verifier::external_body]
pub fn expect_fits<T>(x: Option<T>) -> (r: T) ensures x == Some(r) { x.unwrap() }

// ---------------------------------------------------------------- function parameters
pub trait FnM<A>: Sized {
    type Out;
    spec fn finv(&self) -> bool;
    /// What the function needs of its argument.
    open spec fn pre(a: A) -> bool { true }
    spec fn step(self, a: A, r: Self::Out, post: Self) -> bool;
    fn call_m(&mut self, a: A) -> (r: Self::Out)
        requires old(self).finv(), Self::pre(a),
        ensures final(self).finv(), (*old(self)).step(a, r, *final(self));
}
/// The results of calling the function once on each of `ks`, in order.
pub open spec fn ran<F: FnM<(K,)>, K>(f: F, ks: Seq<K>, outs: Seq<F::Out>, ss: Seq<F>) -> bool {
    &&& ss.len() == outs.len() + 1
    &&& outs.len() == ks.len()
    &&& ss[0] == f
    &&& forall|i: int| #![trigger outs[i]] #![trigger ss[i + 1]] 0 <= i < outs.len() ==> ss[i].step((ks[i],), outs[i], ss[i + 1])
}

// ---------------------------------------------------------------- iterators
/// Any of the iterators the generator uses, all of them finite and without effects: the items still to come.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { p: core::marker::PhantomData<T> }
impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn chain<J: IntoIterator<Item = T>>(self, j: J) -> (r: It<T>) ensures r@ == self@ + j.items() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<J: IntoIterator>(self, j: J) -> (r: It<(T, J::Item)>)
        ensures r@.len() == (if self@.len() <= j.items().len() { self@.len() } else { j.items().len() }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (self@[i], j.items()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<F: FnM<(T,)>>(self, f: F) -> (r: It<F::Out>)
        requires f.finv(), forall|i: int| 0 <= i < self@.len() ==> F::pre((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), exists|ss: Seq<F>| #[trigger] ran(f, self@, r@, ss) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<T>) ensures r@ == self@.map_values(|x: &'a T| *x) { unimplemented!() }
}
impl<'a> It<&'a crate::syn::Ident> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<crate::syn::Ident>) ensures r@ == self@.map_values(|x: &'a crate::syn::Ident| *x) { unimplemented!() }
}
pub trait Iterator: Sized {
    type Item;
    spec fn rem(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
        };
}
impl<T> Iterator for It<T> {
    type Item = T;
    open spec fn rem(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
pub trait IntoIterator: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: It<Self::Item>) ensures r@ == self.items();
}
impl<T> IntoIterator for It<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    fn into_iter(self) -> (r: It<T>) { self }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: It<T>) { unimplemented!() }
}
impl<T, const N: usize> IntoIterator for [T; N] {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: It<T>) { unimplemented!() }
}
/// The elements of a borrowed sequence, borrowed.
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| { let r: &'a T = &x; r }) }
pub open spec fn owned<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
impl<'a, T> IntoIterator for &'a [T] {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn into_iter(self) -> (r: It<&'a T>) { unimplemented!() }
}
/// `.iter()`.
pub trait IterExt<T> {
    spec fn elems(&self) -> Seq<T>;
    fn iter_m<'a>(&'a self) -> (r: It<&'a T>) ensures r@ == refs::<'a, T>(self.elems());
}
impl<T> IterExt<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_m<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> IterExt<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_m<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn extend<T, J: IntoIterator<Item = T>>(v: &mut Vec<T>, j: J) ensures final(v)@ == old(v)@ + j.items() { unimplemented!() }
#[verifier::external_body]
pub fn slice_from<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len() ensures r@ == s@.skip(n as int) { &s[n..] }
// names the extraction imports everywhere
pub trait DoubleEndedIterator {}
pub trait ExactSizeIterator {}
pub trait FromIterator {}
pub trait FnMRef {}
pub trait IterAdapt {}
pub trait OptExt {}
pub trait BoxExt {}
}

pub mod proc_macro2 {
use vstd::prelude::*;
#[verifier::external_body]
pub struct TokenStream {}
/// Where a name is resolved: at the macro's use (the user's names, fields, variants), or in a scope of the
/// macro's own, where no name of the user's is.
#[derive(Clone, Copy)]
pub struct Span { pub own: bool }
impl Span {
    pub fn mixed_site() -> (r: Span) ensures r.own { Span { own: true } }
}
}

// ---------------------------------------------------------------- syntax trees
pub mod syn {
use vstd::prelude::*;
use crate::m::{It, IterExt, refs};
#[verifier::external_body]
pub struct Expr {}
#[verifier::external_body]
pub struct Type {}
#[verifier::external_body]
pub struct Ident {}
#[verifier::external_body]
pub struct Stmt {}
#[verifier::external_body]
pub struct Error {}
#[verifier::external_body]
pub struct LitInt {}
#[verifier::external_body]
pub struct Pat {}
#[verifier::external_body]
pub struct Arm {}
#[verifier::external_body]
pub struct Index {}
impl Index {
    pub uninterp spec fn value(&self) -> nat;
    #[verifier::external_body]
    pub fn from(i: usize) -> (r: Index) ensures r.value() == i { unimplemented!() }
}
impl Clone for Ident {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
}
/// The name with this text, resolved in the macro's own scope or not.
pub uninterp spec fn ident_of(text: crate::q::Text, own: bool) -> Ident;
impl Ident {
    #[verifier::external_body]
    pub fn new<X: crate::q::IsText + ?Sized>(text: &X, s: crate::proc_macro2::Span) -> (r: Ident) ensures r == ident_of(text.text(), s.own) { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub struct Field { pub ident: Option<Ident>, pub ty: Type }
#[verifier::external_body]
pub struct FieldsNamed {}
#[verifier::external_body]
pub struct FieldsUnnamed {}
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
impl Fields {
    /// The fields in declaration order.
    pub uninterp spec fn view(&self) -> Seq<Field>;
}
impl IterExt<Field> for Fields {
    open spec fn elems(&self) -> Seq<Field> { self@ }
    #[verifier::external_body]
    fn iter_m<'a>(&'a self) -> (r: It<&'a Field>) { unimplemented!() }
}
pub struct Variant { pub ident: Ident, pub fields: Fields }
#[verifier::external_body]
pub struct Variants {}
impl Variants {
    /// The variants in declaration order.
    pub uninterp spec fn view(&self) -> Seq<Variant>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl IterExt<Variant> for Variants {
    open spec fn elems(&self) -> Seq<Variant> { self@ }
    #[verifier::external_body]
    fn iter_m<'a>(&'a self) -> (r: It<&'a Variant>) { unimplemented!() }
}
pub struct DataStruct { pub fields: Fields }
pub struct DataEnum { pub variants: Variants }
#[verifier::external_body]
pub struct DataUnion {}
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
#[verifier::external_body]
pub struct Generics {}
#[verifier::external_body]
pub struct ImplGenerics {}
#[verifier::external_body]
pub struct TypeGenerics {}
#[verifier::external_body]
pub struct WhereClause {}
impl Generics {
    /// `<T: A>`, `<T>`, `where …`: the three parts of the same generics.
    #[verifier::external_body]
    pub fn split_for_impl(&self) -> (r: (ImplGenerics, TypeGenerics, WhereClause)) ensures r.0.of() == *self, r.1.of() == *self, r.2.of() == *self { unimplemented!() }
}
impl ImplGenerics { pub uninterp spec fn of(&self) -> Generics; }
impl TypeGenerics { pub uninterp spec fn of(&self) -> Generics; }
impl WhereClause { pub uninterp spec fn of(&self) -> Generics; }
pub struct DeriveInput { pub ident: Ident, pub generics: Generics, pub data: Data }
/// The declaration the macro is given. The compiler has parsed it as an item and checks it as one, so it keeps
/// what the language guarantees of declarations (`input_ok`).
pub uninterp spec fn is_decl(ts: crate::proc_macro2::TokenStream) -> bool;
pub uninterp spec fn decl(ts: crate::proc_macro2::TokenStream) -> DeriveInput;
#[verifier::external_body]
pub fn parse_input(ts: crate::proc_macro2::TokenStream) -> (r: Result<DeriveInput>) ensures (r is Ok) == is_decl(ts), r matches Ok(d) ==> d == decl(ts) && crate::ordinal::input_ok(d) { unimplemented!() }
impl Clone for Expr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Expr) ensures r == *self { unimplemented!() }
}
impl Error {
    #[verifier::external_body]
    pub fn new(s: crate::proc_macro2::Span, msg: &str) -> Error { unimplemented!() }
}
impl LitInt {
    pub uninterp spec fn value(&self) -> nat;
    /// The text is a `usize` literal.
    #[verifier::external_body]
    pub fn new(text: &crate::q::Digits, s: crate::proc_macro2::Span) -> (r: LitInt) ensures r.value() == text.value() { unimplemented!() }
}
}

// ---------------------------------------------------------------- meaning of the quoted templates
pub mod q {
use vstd::prelude::*;
use crate::syn;
use crate::syn::{Expr, Type, LitInt, Ident};
#[verifier::external_body]
pub fn sp() -> (r: crate::proc_macro2::Span) ensures !r.own { unimplemented!() }
/// A template whose meaning is not stated.
#[verifier::external_body]
pub fn unknown<T>() -> T { unimplemented!() }

// ------------------------------------------------ names
#[verifier::external_body]
pub struct Text {}
pub trait IsText { spec fn text(&self) -> Text; }
impl IsText for Text { open spec fn text(&self) -> Text { *self } }
pub uninterp spec fn str_text(s: Seq<char>) -> Text;
impl IsText for str { open spec fn text(&self) -> Text { str_text(self@) } }
/// `f0`, `f1`, …
pub uninterp spec fn f_text(i: int) -> Text;
#[verifier::external_body]
pub fn t_f(i: usize) -> (r: Text) ensures r == f_text(i as int) { unimplemented!() }
/// Whether the name is resolved in the macro's own scope.
pub uninterp spec fn own(i: Ident) -> bool;
pub broadcast axiom fn axiom_own(t: Text, o: bool) ensures own(#[trigger] syn::ident_of(t, o)) == o;
pub broadcast axiom fn axiom_f(i: int, j: int) requires 0 <= i, 0 <= j, #[trigger] syn::ident_of(f_text(i), false) == #[trigger] syn::ident_of(f_text(j), false) ensures i == j;
pub broadcast axiom fn axiom_unit(f: syn::Fields) requires f is Unit ensures (#[trigger] f@).len() == 0;
/// Only a field declared with a name has one.
pub broadcast axiom fn axiom_named(f: syn::Fields, i: int) requires 0 <= i < f@.len() ensures ((#[trigger] f@[i]).ident is Some) == (f is Named);
pub broadcast group group_names { axiom_own, axiom_f, axiom_unit, axiom_named }

// ------------------------------------------------ values
/// A run-time value.
#[verifier::external_body]
pub struct Val {}
/// What generated code runs in: `self`, the variables that hold values, the variables that hold numbers.
pub ghost struct Env { pub slf: Val, pub vals: Map<Ident, Val>, pub nums: Map<Ident, nat> }
/// `let x = v`: hides another `x`.
pub open spec fn bind_val(env: Env, x: Ident, v: Val) -> Env { Env { slf: env.slf, vals: env.vals.insert(x, v), nums: env.nums.remove(x) } }
pub open spec fn bind_num(env: Env, x: Ident, n: nat) -> Env { Env { slf: env.slf, vals: env.vals.remove(x), nums: env.nums.insert(x, n) } }
/// `<T as Ordinal>::ORDINAL_SIZE`
pub uninterp spec fn tsize(t: Type) -> nat;
/// `Ordinal::ordinal(&v)`
pub uninterp spec fn vord(v: Val) -> nat;
/// `<T as Ordinal>::from_ordinal(n).unwrap()`, for `n` below the size.
pub uninterp spec fn vfrom(t: Type, n: nat) -> Val;
/// The field at a position, or with a name.
pub uninterp spec fn fld(v: Val, i: int) -> Val;
pub uninterp spec fn fldn(v: Val, name: Ident) -> Val;
/// `Self(a, b, …)`, `Self { x: a, y: b, … }`; and of a variant.
pub uninterp spec fn mk(vs: Seq<Val>) -> Val;
pub uninterp spec fn mkn(names: Seq<Ident>, vs: Seq<Val>) -> Val;
pub uninterp spec fn mkv(variant: Ident, vs: Seq<Val>) -> Val;
pub uninterp spec fn mkvn(variant: Ident, names: Seq<Ident>, vs: Seq<Val>) -> Val;
/// The name of the value's variant.
pub uninterp spec fn variant(v: Val) -> Ident;
/// The number a generated expression evaluates to (as a mathematical integer).
pub uninterp spec fn ev(e: Expr, env: Env) -> nat;
/// The value a generated expression evaluates or refers to.
pub uninterp spec fn vv(e: Expr, env: Env) -> Val;
/// The expression is this name.
pub uninterp spec fn name(e: Expr) -> Ident;
/// What the body of `from_ordinal` returns.
pub enum Res { Panic, Is(Option<Val>) }
pub uninterp spec fn res(e: Expr, env: Env) -> Res;

#[verifier::external_body]
pub struct Digits {}
impl Digits { pub uninterp spec fn value(&self) -> nat; }

pub open spec fn sum(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] + sum(s.drop_first()) } }
pub open spec fn prod(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 1 } else { s[0] * prod(s.drop_first()) } }
pub open spec fn evs(s: Seq<Expr>, env: Env) -> Seq<nat> { s.map_values(|e: Expr| ev(e, env)) }
pub open spec fn vvs(s: Seq<Expr>, env: Env) -> Seq<Val> { s.map_values(|e: Expr| vv(e, env)) }

// ------------------------------------------------ expressions
#[verifier::external_body]
pub fn t_size(ty: &Type) -> (r: Expr) ensures forall|env: Env| #[trigger] ev(r, env) == tsize(*ty) { unimplemented!() }
#[verifier::external_body]
pub fn t_ord(value: &Expr) -> (r: Expr) ensures forall|env: Env| #[trigger] ev(r, env) == vord(vv(*value, env)) { unimplemented!() }
#[verifier::external_body]
pub fn t_digits(value: &u64) -> (r: Digits) ensures r.value() == *value { unimplemented!() }
/// One name or literal.
pub trait Tok { spec fn is(&self, r: Expr) -> bool; }
impl Tok for LitInt { open spec fn is(&self, r: Expr) -> bool { forall|env: Env| #[trigger] ev(r, env) == self.value() } }
impl Tok for Ident { open spec fn is(&self, r: Expr) -> bool { is_name(*self, r) } }
impl<'a> Tok for &'a Ident { open spec fn is(&self, r: Expr) -> bool { is_name(**self, r) } }
pub open spec fn is_name(i: Ident, r: Expr) -> bool {
    &&& name(r) == i
    &&& forall|env: Env| #[trigger] ev(r, env) == env.nums[i]
    &&& forall|env: Env| #[trigger] vv(r, env) == env.vals[i]
}
#[verifier::external_body]
pub fn t_tok<T: Tok>(c: &T) -> (r: Expr) ensures c.is(r) { unimplemented!() }
#[verifier::external_body]
pub fn t_sum(first: &Expr, rest: crate::m::It<Expr>) -> (r: Expr)
    ensures forall|env: Env| #[trigger] ev(r, env) == ev(*first, env) + sum(evs(rest@, env)) { unimplemented!() }
#[verifier::external_body]
pub fn t_product(first: &Expr, rest: crate::m::It<Expr>) -> (r: Expr)
    ensures forall|env: Env| #[trigger] ev(r, env) == ev(*first, env) * prod(evs(rest@, env)) { unimplemented!() }
#[verifier::external_body]
pub fn t_const(e: &Expr) -> (r: Expr) ensures forall|env: Env| #[trigger] ev(r, env) == ev(*e, env) { unimplemented!() }
/// `x - e`
#[verifier::external_body]
pub fn t_minus(x: &Ident, e: &Expr) -> (r: Expr)
    ensures forall|env: Env| env.nums[*x] >= ev(*e, env) ==> #[trigger] ev(r, env) == env.nums[*x] - ev(*e, env) { unimplemented!() }
/// `&self.x`, `&self.0`
pub trait Member { spec fn of(&self, v: Val) -> Val; }
impl Member for Ident { open spec fn of(&self, v: Val) -> Val { fldn(v, *self) } }
impl<'a> Member for &'a Ident { open spec fn of(&self, v: Val) -> Val { fldn(v, **self) } }
impl Member for syn::Index { open spec fn of(&self, v: Val) -> Val { fld(v, self.value() as int) } }
#[verifier::external_body]
pub fn t_field<M: Member>(m: &M) -> (r: Expr) ensures forall|env: Env| #[trigger] vv(r, env) == m.of(env.slf) { unimplemented!() }
#[verifier::external_body]
pub fn t_self_unit() -> (r: Expr) ensures forall|env: Env| #[trigger] vv(r, env) == mk(Seq::empty()) { unimplemented!() }
#[verifier::external_body]
pub fn t_self_tuple(es: &Vec<Expr>) -> (r: Expr) ensures forall|env: Env| #[trigger] vv(r, env) == mk(vvs(es@, env)) { unimplemented!() }
/// `Self { #(#names: #es,)* }`: as many of each.
#[verifier::external_body]
pub fn t_self_named(names: &Vec<Ident>, es: &Vec<Expr>) -> (r: Expr)
    ensures names@.len() == es@.len() ==> forall|env: Env| #[trigger] vv(r, env) == mkn(names@, vvs(es@, env)) { unimplemented!() }
/// `Self::V`, `Self::V(a, b, …)`, `Self::V { a, b, … }`, as an expression or as a pattern.
pub trait VUnit: Sized { spec fn unit_is(r: Self, v: Ident) -> bool; }
pub trait VTuple<A>: Sized { spec fn tuple_is(r: Self, v: Ident, a: A) -> bool; }
pub trait VNamed<A>: Sized { spec fn named_is(r: Self, v: Ident, a: A) -> bool; }
impl VUnit for Expr { open spec fn unit_is(r: Expr, v: Ident) -> bool { forall|env: Env| #[trigger] vv(r, env) == mkv(v, Seq::empty()) } }
impl VTuple<Vec<Expr>> for Expr { open spec fn tuple_is(r: Expr, v: Ident, a: Vec<Expr>) -> bool { forall|env: Env| #[trigger] vv(r, env) == mkv(v, vvs(a@, env)) } }
/// Each field takes the value of the variable of its name.
impl VNamed<Vec<Expr>> for Expr {
    open spec fn named_is(r: Expr, v: Ident, a: Vec<Expr>) -> bool { forall|env: Env| #[trigger] vv(r, env) == mkvn(v, names(a@), vvs(a@, env)) }
}
pub open spec fn names(a: Seq<Expr>) -> Seq<Ident> { a.map_values(|e: Expr| name(e)) }
impl VUnit for syn::Pat { open spec fn unit_is(r: syn::Pat, v: Ident) -> bool { pat(r) == Pattern::Unit(v) } }
impl<'a> VTuple<&'a [Ident]> for syn::Pat { open spec fn tuple_is(r: syn::Pat, v: Ident, a: &'a [Ident]) -> bool { pat(r) == Pattern::Tuple(v, a@) } }
impl<'a> VNamed<&'a [Ident]> for syn::Pat { open spec fn named_is(r: syn::Pat, v: Ident, a: &'a [Ident]) -> bool { pat(r) == Pattern::Named(v, a@) } }
#[verifier::external_body]
pub fn t_variant_unit<R: VUnit>(v: &Ident) -> (r: R) ensures R::unit_is(r, *v) { unimplemented!() }
#[verifier::external_body]
pub fn t_variant_tuple<A, R: VTuple<A>>(v: &Ident, a: &A) -> (r: R) ensures R::tuple_is(r, *v, *a) { unimplemented!() }
#[verifier::external_body]
pub fn t_variant_named<A, R: VNamed<A>>(v: &Ident, a: &A) -> (r: R) ensures R::named_is(r, *v, *a) { unimplemented!() }

// ------------------------------------------------ match on self
pub enum Pattern { Unit(Ident), Tuple(Ident, Seq<Ident>), Named(Ident, Seq<Ident>) }
pub uninterp spec fn pat(p: syn::Pat) -> Pattern;
pub uninterp spec fn arm_pat(a: syn::Arm) -> Pattern;
pub uninterp spec fn arm_body(a: syn::Arm) -> Expr;
#[verifier::external_body]
pub fn t_arm(p: &syn::Pat, e: &Expr) -> (r: syn::Arm) ensures arm_pat(r) == pat(*p), arm_body(r) == *e { unimplemented!() }
pub open spec fn pat_variant(p: Pattern) -> Ident { match p { Pattern::Unit(v) => v, Pattern::Tuple(v, _) => v, Pattern::Named(v, _) => v } }
/// The variables of the pattern hold the fields.
pub open spec fn pat_env(p: Pattern, env: Env) -> Env {
    match p {
        Pattern::Unit(v) => env,
        Pattern::Tuple(v, xs) => bind_all(env, xs, Seq::new(xs.len(), |i: int| fld(env.slf, i))),
        Pattern::Named(v, xs) => bind_all(env, xs, Seq::new(xs.len(), |i: int| fldn(env.slf, xs[i]))),
    }
}
pub open spec fn bind_all(env: Env, xs: Seq<Ident>, vs: Seq<Val>) -> Env decreases xs.len() {
    if xs.len() == 0 { env } else { bind_val(bind_all(env, xs.drop_last(), vs.drop_last()), xs.last(), vs.last()) }
}
/// The first arm whose variant it is (the compiler checks that there is one).
#[verifier::external_body]
pub fn t_match(arms: &Vec<syn::Arm>) -> (r: Expr)
    ensures forall|env: Env, k: int| 0 <= k < arms@.len() && pat_variant(arm_pat(arms@[k])) == variant(env.slf)
        && (forall|j: int| 0 <= j < k ==> pat_variant(arm_pat(#[trigger] arms@[j])) != variant(env.slf))
        ==> #[trigger] ev(r, env) == ev(arm_body(#[trigger] arms@[k]), pat_env(arm_pat(arms@[k]), env)) { unimplemented!() }

// ------------------------------------------------ statements
pub enum GStmt {
    /// `let mut x = e;`
    Let(Ident, Expr),
    /// `let x = <T as Ordinal>::from_ordinal(r % e).unwrap();`
    Digit(Ident, Type, Ident, Expr),
    /// `r /= e;`
    Div(Ident, Expr),
    /// `if r != 0 { return None }`
    Zero(Ident),
    /// `if x < e { return b; }`
    Less(Ident, Expr, Expr),
    /// The value of `Self::ORDINAL_SIZE` is computed.
    Force,
    /// `if Self::ORDINAL_SIZE == 0 { return None }`
    GuardZero,
}
pub uninterp spec fn gs(s: syn::Stmt) -> GStmt;
pub enum Out { Stop(Res), Go(Env) }
pub open spec fn exec(s: GStmt, env: Env) -> Out {
    match s {
        GStmt::Let(x, e) => Out::Go(bind_num(env, x, ev(e, env))),
        GStmt::Digit(x, t, r, e) =>
            if ev(e, env) == 0 || !env.nums.dom().contains(r) || env.nums[r] % ev(e, env) >= tsize(t) { Out::Stop(Res::Panic) }
            else { Out::Go(bind_val(env, x, vfrom(t, env.nums[r] % ev(e, env)))) },
        GStmt::Div(r, e) =>
            if ev(e, env) == 0 || !env.nums.dom().contains(r) { Out::Stop(Res::Panic) } else { Out::Go(bind_num(env, r, env.nums[r] / ev(e, env))) },
        GStmt::Zero(r) =>
            if !env.nums.dom().contains(r) { Out::Stop(Res::Panic) } else if env.nums[r] != 0 { Out::Stop(Res::Is(None)) } else { Out::Go(env) },
        GStmt::Less(x, e, b) =>
            if !env.nums.dom().contains(x) { Out::Stop(Res::Panic) } else if env.nums[x] < ev(e, env) { Out::Stop(res(b, env)) } else { Out::Go(env) },
        // only at the start of a function, see `Imp`
        GStmt::Force | GStmt::GuardZero => Out::Stop(Res::Panic),
    }
}
pub open spec fn run(ss: Seq<GStmt>, env: Env) -> Out decreases ss.len() {
    if ss.len() == 0 { Out::Go(env) }
    else { match run(ss.drop_last(), env) { Out::Go(e) => exec(ss.last(), e), o => o } }
}
pub open spec fn gss(s: Seq<syn::Stmt>) -> Seq<GStmt> { s.map_values(|x: syn::Stmt| gs(x)) }
#[verifier::external_body]
pub fn t_let(x: &Ident, e: &Expr) -> (r: syn::Stmt) ensures gs(r) == GStmt::Let(*x, *e) { unimplemented!() }
#[verifier::external_body]
pub fn t_digit(x: &Ident, t: &Type, rem: &Ident, e: &Expr) -> (r: syn::Stmt) ensures gs(r) == GStmt::Digit(*x, *t, *rem, *e) { unimplemented!() }
#[verifier::external_body]
pub fn t_div(rem: &Ident, e: &Expr) -> (r: syn::Stmt) ensures gs(r) == GStmt::Div(*rem, *e) { unimplemented!() }
#[verifier::external_body]
pub fn t_zero(rem: &Ident) -> (r: syn::Stmt) ensures gs(r) == GStmt::Zero(*rem) { unimplemented!() }
#[verifier::external_body]
pub fn t_less(x: &Ident, e: &Expr, b: &Expr) -> (r: syn::Stmt) ensures gs(r) == GStmt::Less(*x, *e, *b) { unimplemented!() }
#[verifier::external_body]
pub fn t_force() -> (r: syn::Stmt) ensures gs(r) == GStmt::Force { unimplemented!() }
#[verifier::external_body]
pub fn t_guard_zero() -> (r: syn::Stmt) ensures gs(r) == GStmt::GuardZero { unimplemented!() }
/// An implementation of `Ordinal`.
pub ghost struct Imp { pub generics: syn::Generics, pub name: Ident, pub size: Expr, pub check: syn::Stmt, pub ord: Expr, pub var: Ident, pub guard: syn::Stmt, pub from: Expr }
pub uninterp spec fn imp(ts: crate::proc_macro2::TokenStream) -> Imp;
/// `ORDINAL_SIZE`, a constant.
pub open spec fn imp_size(i: Imp) -> nat { ev(i.size, arbitrary()) }
/// `v.ordinal()`
pub open spec fn imp_ordinal(i: Imp, v: Val) -> nat { ev(i.ord, Env { slf: v, vals: Map::empty(), nums: Map::empty() }) }
/// `from_ordinal(n)`
pub open spec fn imp_from(i: Imp, n: nat) -> Res {
    if gs(i.guard) == GStmt::GuardZero && imp_size(i) == 0 { Res::Is(None) } else { res(i.from, Env { slf: arbitrary(), vals: Map::empty(), nums: Map::empty().insert(i.var, n) }) }
}
/// The whole implementation.
#[verifier::external_body]
pub fn t_impl(ig: syn::ImplGenerics, name: &Ident, tg: syn::TypeGenerics, wc: syn::WhereClause, size: &Expr, check: &syn::Stmt, ord: &Expr, var: &Ident, guard: &syn::Stmt, from: &Expr) -> (r: crate::proc_macro2::TokenStream)
    ensures ig.of() == tg.of() && ig.of() == wc.of() ==> imp(r) == (Imp { generics: ig.of(), name: *name, size: *size, check: *check, ord: *ord, var: *var, guard: *guard, from: *from }) { unimplemented!() }
#[verifier::external_body]
pub fn t_ordinal_name() -> (r: Ident) ensures r == syn::ident_of(str_text("ordinal"@), false) { unimplemented!() }
/// `{ #(#ss)* Some(#build) }`
#[verifier::external_body]
pub fn t_some(ss: &Vec<syn::Stmt>, build: &Expr) -> (r: Expr)
    ensures forall|env: Env| #[trigger] res(r, env) == (match run(gss(ss@), env) { Out::Stop(x) => x, Out::Go(e) => Res::Is(Some(vv(*build, e))) }) { unimplemented!() }
/// `{ #(#ss)* let _ignore = #x; None }`
#[verifier::external_body]
pub fn t_none(ss: &Vec<syn::Stmt>, x: &Ident) -> (r: Expr)
    ensures forall|env: Env| #[trigger] res(r, env) == (match run(gss(ss@), env) { Out::Stop(x) => x, Out::Go(e) => Res::Is(None) }) { unimplemented!() }
}

} // verus!
