// Vocabulary of the contracts: shadows of the std items the extracted code uses, and the model of
// the things outside the repository (codec, store, cipher). Everything marked external_body or
// uninterp here is trusted; it is listed in every evidence file.
use std::sync::Arc;
use core::marker::PhantomData;
use core::ops::Range;
use vstd::prelude::*;
use vstd::std_specs::clone::*;
verus! {
broadcast use {lemma_take_all, lemma_skip_none, axiom_raw, axiom_unzip_empty, lemma_xor, lemma_steps, lemma_suffix};
global size_of usize == 8;
pub open spec fn vu64(x: u64) -> int { x as int }

// ---------------------------------------------------------------- errors, panics
/// the items selected by a mask
pub open spec fn picks<A>(take: Seq<bool>, s: Seq<A>, n: int) -> Seq<A> decreases n {
    if n <= 0 { Seq::empty() } else if take[n - 1] { picks(take, s, n - 1).push(s[n - 1]) } else { picks(take, s, n - 1) }
}
pub open spec fn flats<A>(s: Seq<Option<A>>, n: int) -> Seq<A> decreases n {
    if n <= 0 { Seq::empty() } else { match s[n - 1] { Some(x) => flats(s, n - 1).push(x), None => flats(s, n - 1) } }
}

#[verifier::external_body]
pub struct VxError { _p: u8 }
pub type Result<A, E = VxError> = core::result::Result<A, E>;
#[verifier::external_body]
pub fn vx_err() -> VxError { unimplemented!() }
#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }
/// assert!(c): the argument has to be provable
pub fn vx_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn vx_panic<A>() -> A requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_diverge<A>() -> A ensures false no_unwind { loop {} }
pub open spec fn vx_same<A>(a: A, b: A) -> bool { a == b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }

// ---------------------------------------------------------------- iterators as sequences
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct It<A> { _p: PhantomData<A> }
impl<A> View for It<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Peek<A> { _p: PhantomData<A> }
impl<A> View for Peek<A> { type V = Seq<A>; uninterp spec fn view(&self) -> Seq<A>; }

pub open spec fn refs<'a, A>(s: Seq<A>) -> Seq<&'a A> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn ints(a: int, b: int) -> Seq<int> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| a + i) }

pub trait VxFor<A> { spec fn for_seq(&self) -> Seq<A>; }
#[verifier::external_body]
pub fn vx_for<A, I: VxFor<A>>(i: I) -> (r: It<A>) ensures r@ == i.for_seq() { unimplemented!() }
impl<A> VxFor<A> for It<A> { open spec fn for_seq(&self) -> Seq<A> { self@ } }
impl<A> VxFor<A> for Vec<A> { open spec fn for_seq(&self) -> Seq<A> { self@ } }
impl<'a, A> VxFor<&'a A> for &'a Vec<A> { open spec fn for_seq(&self) -> Seq<&'a A> { refs(self@) } }
impl<'a, A> VxFor<&'a A> for &'a [A] { open spec fn for_seq(&self) -> Seq<&'a A> { refs(self@) } }
impl VxFor<usize> for Range<usize> { open spec fn for_seq(&self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } }
impl VxFor<u64> for Range<u64> { open spec fn for_seq(&self) -> Seq<u64> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u64) } }

pub trait VxFrom<A>: Sized { spec fn from_seq(s: Seq<A>, r: Self) -> bool; }
impl<A> VxFrom<A> for Vec<A> { open spec fn from_seq(s: Seq<A>, r: Self) -> bool { r@ == s } }
impl<C: CompactSeq> VxFrom<C::Item> for C { open spec fn from_seq(s: Seq<C::Item>, r: Self) -> bool { r.seq() == s } }
pub open spec fn somes<A>(s: Seq<Option<A>>) -> Seq<A> { s.map_values(|x: Option<A>| x.unwrap()) }
impl<A> VxFrom<Option<A>> for Option<Vec<A>> {
    open spec fn from_seq(s: Seq<Option<A>>, r: Self) -> bool {
        if forall|i: int| 0 <= i < s.len() ==> s[i] is Some { r is Some && r.unwrap()@ == somes(s) } else { r is None }
    }
}
impl<A> It<A> {
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: A) requires old(self)@.len() > 0 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<A>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_map<B, F: Fn(A) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: Fn(A) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), true),
            !r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && call_ensures(f, (self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_any<F: Fn(A) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures !r ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), false),
            r ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && call_ensures(f, (self@[i],), true)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_position<F: Fn(A) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r is None ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), false),
            r is Some ==> r.unwrap() < self@.len() && call_ensures(f, (self@[r.unwrap() as int],), true)
                && forall|i: int| #![trigger self@[i]] 0 <= i < r.unwrap() ==> call_ensures(f, (self@[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<B: VxFrom<A>>(self) -> (r: B) ensures B::from_seq(self@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: It<A>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, A)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: It<A>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<B, I: VxFor<B>>(self, o: I) -> (r: It<(A, B)>)
        ensures r@.len() == (if self@.len() <= o.for_seq().len() { self@.len() } else { o.for_seq().len() }), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o.for_seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&A) -> bool>(self, f: F) -> (r: It<A>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],))
        ensures exists|t: Seq<bool>| r@ == #[trigger] picks(t, self@, self@.len() as int) && t.len() == self@.len() && forall|i: int| #![trigger t[i]] #![trigger self@[i]] 0 <= i < t.len() ==> call_ensures(f, (&self@[i],), t[i]),
            forall|k: int| 0 <= k < r@.len() ==> exists|i: int| 0 <= i < self@.len() && #[trigger] r@[k] == #[trigger] self@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter_map<B, F: Fn(A) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures exists|t: Seq<Option<B>>| r@ == #[trigger] flats(t, t.len() as int) && t.len() == self@.len() && forall|i: int| #![trigger t[i]] #![trigger self@[i]] 0 <= i < t.len() ==> call_ensures(f, (self@[i],), t[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<A>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: Peek<A>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_max(self) -> (r: Option<A>) where A: VxInt
        ensures self@.len() == 0 <==> r is None,
            r is Some ==> self@.contains(r.unwrap()) && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).int() <= r.unwrap().int()
    { unimplemented!() }
    /// the sum of the values; that the total is below 2^63 is assumed (see DESIGN.md)
    #[verifier::external_body]
    pub fn vx_sum<B: VxInt>(self) -> (r: B) where A: VxInt ensures forall|c: Seq<int>| #![trigger sum_ints(c)] c.len() == self@.len() && (forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == self@[j].int()) ==> r.int() == sum_ints(c), r.int() <= i64::MAX { unimplemented!() }
}
impl<'a, A: Copy> It<&'a A> {
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<A>) ensures r@ == self@.map_values(|x: &A| *x) { unimplemented!() }
}
impl<'a, A: Clone> It<&'a A> {
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<A>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned(*self@[i], #[trigger] r@[i]) { unimplemented!() }
}
impl<A> Peek<A> {
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&A>)
        ensures final(self)@ == old(self)@, old(self)@.len() == 0 <==> r is None, r is Some ==> *r.unwrap() == old(self)@[0]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<A>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
pub trait VxRoom<A>: Sized { spec fn pr(self) -> Option<A>; fn vx_room(self) -> (r: A) ensures self.pr() == Some(r); }
impl<A> VxRoom<A> for Option<A> {
    open spec fn pr(self) -> Option<A> { self }
    /// aborts: running out of keystream positions is not a violation
    fn vx_room(self) -> (r: A) { match self { Some(x) => x, None => vx_diverge() } }
}
pub trait VxSliceIter<A> {
    spec fn sl(&self) -> Seq<A>;
    fn vx_iter(&self) -> (r: It<&A>) ensures r@ == refs(self.sl()), forall|i: int| #![trigger self.sl()[i]] #![trigger r@[i]] 0 <= i < self.sl().len() ==> *r@[i] == self.sl()[i];
}
impl<A> VxSliceIter<A> for [A] {
    open spec fn sl(&self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&A>) { unimplemented!() }
}
pub trait IntoIterator: Sized {
    type Item;
    spec fn ii(&self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: It<Self::Item>) ensures r@ == self.ii();
}
impl<A> IntoIterator for Vec<A> {
    type Item = A;
    open spec fn ii(&self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<A>) { unimplemented!() }
}
impl<A> IntoIterator for It<A> {
    type Item = A;
    open spec fn ii(&self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<A>) { unimplemented!() }
}
impl<'a, A> IntoIterator for &'a [A] {
    type Item = &'a A;
    open spec fn ii(&self) -> Seq<&'a A> { refs(self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<&'a A>) { unimplemented!() }
}
impl<A> IntoIterator for Option<A> {
    type Item = A;
    open spec fn ii(&self) -> Seq<A> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<A>) { unimplemented!() }
}
pub trait VxRange<A>: Sized {
    spec fn rs(&self) -> Seq<A>;
    fn vx_rev(self) -> (r: It<A>) ensures r@ == self.rs().reverse();
    fn vx_map<B, F: Fn(A) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self.rs().len() ==> call_requires(f, (#[trigger] self.rs()[i],))
        ensures r@.len() == self.rs().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self.rs()[i],), r@[i]);
    fn vx_filter_map<B, F: Fn(A) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self.rs().len() ==> call_requires(f, (#[trigger] self.rs()[i],))
        ensures exists|t: Seq<Option<B>>| r@ == #[trigger] flats(t, t.len() as int) && t.len() == self.rs().len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> call_ensures(f, (self.rs()[i],), t[i]);
}
impl VxRange<usize> for Range<usize> {
    open spec fn rs(&self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    #[verifier::external_body]
    fn vx_rev(self) -> (r: It<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_map<B, F: Fn(usize) -> B>(self, f: F) -> (r: It<B>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_filter_map<B, F: Fn(usize) -> Option<B>>(self, f: F) -> (r: It<B>) { unimplemented!() }
}

// ---------------------------------------------------------------- integers
pub trait VxInt: Sized { spec fn int(&self) -> int; }
impl VxInt for u64 { open spec fn int(&self) -> int { *self as int } }
impl VxInt for u32 { open spec fn int(&self) -> int { *self as int } }
impl VxInt for usize { open spec fn int(&self) -> int { *self as int } }
impl VxInt for i32 { open spec fn int(&self) -> int { *self as int } }
pub open spec fn sum_ints(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_ints(s.drop_last()) + s.last() } }
pub trait VxMinMax: Sized + VxInt {
    fn vx_min(self, o: Self) -> (r: Self) ensures r == (if self.int() <= o.int() { self } else { o });
    fn vx_max(self, o: Self) -> (r: Self) ensures r == (if self.int() >= o.int() { self } else { o });
}
pub trait VxSat: Sized { 
    spec fn sat_add(self, o: Self) -> Self;
    spec fn sat_sub(self, o: Self) -> Self;
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r == self.sat_add(o);
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r == self.sat_sub(o);
}
impl VxSat for u64 {
    open spec fn sat_add(self, o: Self) -> Self { if self + o <= u64::MAX { (self + o) as u64 } else { u64::MAX } }
    open spec fn sat_sub(self, o: Self) -> Self { if self >= o { (self - o) as u64 } else { 0 } }
    fn vx_saturating_add(self, o: Self) -> (r: Self) { if self <= u64::MAX - o { self + o } else { u64::MAX } }
    fn vx_saturating_sub(self, o: Self) -> (r: Self) { if self >= o { self - o } else { 0 } }
}
macro_rules! minmax { ($($t:ty)*) => { $( verus! {
impl VxMinMax for $t {
    fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn vx_max(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
}
} )* } }
minmax!(u64 u32 usize i32);

// ---------------------------------------------------------------- options, vectors, slices
pub trait VxOpt2<A>: Sized {
    spec fn p(self) -> Option<A>;
    fn vx_unwrap(self) -> (r: A) requires self.p() is Some ensures self.p() == Some(r);
    fn vx_expect(self, s: &str) -> (r: A) requires self.p() is Some ensures self.p() == Some(r);
    fn vx_unwrap_or(self, d: A) -> (r: A) ensures r == (if self.p() is Some { self.p().unwrap() } else { d });
    fn vx_map<B, F: FnOnce(A) -> B>(self, f: F) -> (r: Option<B>)
        requires self.p() is Some ==> call_requires(f, (self.p().unwrap(),))
        ensures (r is Some) == (self.p() is Some), r is Some ==> call_ensures(f, (self.p().unwrap(),), r.unwrap());
    fn vx_ok_or_else<F: FnOnce() -> VxError>(self, f: F) -> (r: Result<A>)
        requires self.p() is None ==> call_requires(f, ())
        ensures (r is Ok) == (self.p() is Some), r is Ok ==> self.p() == Some(r->Ok_0);
}
pub trait VxOpt3<A>: Sized {
    spec fn p3(&self) -> Option<A>;
    fn vx_as_ref(&self) -> (r: Option<&A>) ensures (r is Some) == (self.p3() is Some), r is Some ==> *r.unwrap() == self.p3().unwrap();
    fn vx_and_then<B, F: FnOnce(A) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires self.p3() is Some ==> call_requires(f, (self.p3().unwrap(),))
        ensures self.p3() is None ==> r is None, self.p3() is Some ==> call_ensures(f, (self.p3().unwrap(),), r);
}
impl<A> VxOpt3<A> for Option<A> {
    open spec fn p3(&self) -> Option<A> { *self }
    fn vx_as_ref(&self) -> (r: Option<&A>) { match self { Some(x) => Some(x), None => None } }
    fn vx_and_then<B, F: FnOnce(A) -> Option<B>>(self, f: F) -> (r: Option<B>) { match self { Some(x) => f(x), None => None } }
}
pub trait VxTake<A>: Sized { spec fn pt(&self) -> Option<A>; fn vx_take(&mut self) -> (r: Option<A>) ensures r == old(self).pt(), final(self).pt() is None; }
impl<A> VxTake<A> for Option<A> { open spec fn pt(&self) -> Option<A> { *self } #[verifier::external_body] fn vx_take(&mut self) -> (r: Option<A>) { unimplemented!() } }
pub trait VxOptCloned<A: Clone>: Sized { spec fn pc(&self) -> Option<A>; fn vx_cloned(self) -> (r: Option<A>) ensures (r is Some) == (self.pc() is Some), r is Some ==> cloned(self.pc().unwrap(), r.unwrap()); }
impl<'a, A: Clone> VxOptCloned<A> for Option<&'a A> {
    open spec fn pc(&self) -> Option<A> { match self { Some(x) => Some(**x), None => None } }
    fn vx_cloned(self) -> (r: Option<A>) { match self { Some(x) => Some(x.clone()), None => None } }
}
impl<A> VxOpt2<A> for Option<A> {
    open spec fn p(self) -> Option<A> { self }
    #[verifier::external_body] fn vx_unwrap(self) -> (r: A) { unimplemented!() }
    fn vx_expect(self, s: &str) -> (r: A) { match self { Some(x) => x, None => vx_panic() } }
    fn vx_unwrap_or(self, d: A) -> (r: A) { match self { Some(x) => x, None => d } }
    fn vx_map<B, F: FnOnce(A) -> B>(self, f: F) -> (r: Option<B>) { match self { Some(x) => Some(f(x)), None => None } }
    fn vx_ok_or_else<F: FnOnce() -> VxError>(self, f: F) -> (r: Result<A>) { match self { Some(x) => Ok(x), None => Err(f()) } }
}
pub fn vx_ok<A>(a: A) -> (r: Result<A>) ensures r == Ok::<A, VxError>(a) { Ok(a) }
pub fn vx_some<A>(a: A) -> (r: Option<A>) ensures r == Some(a) { Some(a) }
#[verifier::external_body]
pub fn vx_repeat<A: Copy>(a: A, n: usize) -> (r: Vec<A>) ensures r@ == Seq::new(n as nat, |i: int| a), n <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec1<A>(a: A) -> (r: Vec<A>) ensures r@ == seq![a] { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec2<A>(a: A, b: A) -> (r: Vec<A>) ensures r@ == seq![a, b] { unimplemented!() }
pub trait VxSlice<A> {
    spec fn s(&self) -> Seq<A>;
    fn vx_first(&self) -> (r: Option<&A>) ensures self.s().len() == 0 <==> r is None, r is Some ==> *r.unwrap() == self.s()[0];
    fn vx_last(&self) -> (r: Option<&A>) ensures self.s().len() == 0 <==> r is None, r is Some ==> *r.unwrap() == self.s().last();
    fn vx_to_vec(&self) -> (r: Vec<A>) where A: Clone ensures r@.len() == self.s().len(), forall|i: int| 0 <= i < r@.len() ==> cloned(self.s()[i], #[trigger] r@[i]);
    fn vx_windows(&self, n: usize) -> (r: It<&[A]>) requires n > 0
        ensures r@.len() == (if self.s().len() >= n { self.s().len() - n + 1 } else { 0 }), forall|i: int| #![trigger r@[i]] #![trigger self.s()[i]] 0 <= i < r@.len() ==> r@[i]@ == self.s().subrange(i, i + n);
    fn vx_sub(&self, lo: usize, hi: usize) -> (r: &[A]) requires lo <= hi <= self.s().len() ensures r@ == self.s().subrange(lo as int, hi as int);
    fn vx_from(&self, lo: usize) -> (r: &[A]) requires lo <= self.s().len() ensures r@ == self.s().skip(lo as int);
    fn vx_split_last(&self) -> (r: Option<(&A, &[A])>)
        ensures self.s().len() == 0 <==> r is None, r is Some ==> *r.unwrap().0 == self.s().last() && r.unwrap().1@ == self.s().drop_last();
}
impl<A> VxSlice<A> for [A] {
    open spec fn s(&self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&A>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&A>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<A>) where A: Clone { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: It<&[A]>) { unimplemented!() }
    #[verifier::external_body] fn vx_sub(&self, lo: usize, hi: usize) -> (r: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, lo: usize) -> (r: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last(&self) -> (r: Option<(&A, &[A])>) { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn dflt(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::dflt(r); }
impl<A> VxDefault for Vec<A> { open spec fn dflt(r: Self) -> bool { r@ == Seq::<A>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
impl VxDefault for String { open spec fn dflt(r: Self) -> bool { true } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for u64 { open spec fn dflt(r: Self) -> bool { r == 0 } fn vx_default() -> (r: Self) { 0 } }
pub trait VxOptD<A: VxDefault>: Sized { spec fn pd(self) -> Option<A>; fn vx_unwrap_or_default(self) -> (r: A) ensures self.pd() is Some ==> r == self.pd().unwrap(), self.pd() is None ==> A::dflt(r); }
impl<A: VxDefault> VxOptD<A> for Option<A> {
    open spec fn pd(self) -> Option<A> { self }
    fn vx_unwrap_or_default(self) -> (r: A) { match self { Some(x) => x, None => A::vx_default() } }
}
pub trait VxVec<A> {
    spec fn vv(&self) -> Seq<A>;
    fn vx_last_mut(&mut self) -> (r: Option<&mut A>)
        ensures old(self).vv().len() == 0 ==> r is None && final(self).vv() == old(self).vv(),
            old(self).vv().len() > 0 ==> r is Some && *r.unwrap() == old(self).vv().last() && final(self).vv() == old(self).vv().update(old(self).vv().len() - 1, *final(r.unwrap()));
    fn vx_as_ref(&self) -> (r: &[A]) ensures r@ == self.vv();
    fn vx_splice(&mut self, r: Range<usize>, o: Option<A>) requires r.start <= r.end <= old(self).vv().len()
        ensures final(self).vv() == old(self).vv().take(r.start as int) + (match o { Some(x) => seq![x], None => Seq::empty() }) + old(self).vv().skip(r.end as int);
}
impl<A> VxVec<A> for Vec<A> {
    open spec fn vv(&self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vx_last_mut(&mut self) -> (r: Option<&mut A>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vx_splice(&mut self, r: Range<usize>, o: Option<A>) { unimplemented!() }
}

/// a clone that is the same value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }

// ---------------------------------------------------------------- conversions
pub trait From<A>: Sized { spec fn from_ens(a: A, r: Self) -> bool; fn from(a: A) -> (r: Self) ensures Self::from_ens(a, r); }
pub trait VxInto<B>: Sized { spec fn into_ens(self, r: B) -> bool; fn vx_into(self) -> (r: B) ensures self.into_ens(r); }
impl<A, B: From<A>> VxInto<B> for A { open spec fn into_ens(self, r: B) -> bool { B::from_ens(self, r) } fn vx_into(self) -> (r: B) { B::from(self) } }
pub use VxInto as Into;
impl<A> From<A> for A { open spec fn from_ens(a: A, r: Self) -> bool { r == a } fn from(a: A) -> (r: Self) { a } }
impl<A> From<Vec<A>> for Arc<[A]> {
    open spec fn from_ens(a: Vec<A>, r: Self) -> bool { r@ == a@ }
    #[verifier::external_body] fn from(a: Vec<A>) -> (r: Self) { unimplemented!() }
}

impl<'a> From<&'a str> for String {
    open spec fn from_ens(a: &'a str, r: Self) -> bool { true }
    #[verifier::external_body] fn from(a: &'a str) -> (r: Self) { unimplemented!() }
}
/// texts are not modelled
pub trait VxToString { fn vx_to_string(&self) -> (r: String); }
impl<A> VxToString for A { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

// ---------------------------------------------------------------- ranges
pub enum Bound<A> { Included(A), Excluded(A), Unbounded }
pub trait RangeBounds<A>: Sized {
    spec fn lo(&self) -> Bound<A>;
    spec fn hi(&self) -> Bound<A>;
    fn start_bound(&self) -> (r: Bound<A>) ensures r == self.lo();
    fn end_bound(&self) -> (r: Bound<A>) ensures r == self.hi();
}
pub open spec fn above(lo: Bound<u64>, x: int) -> bool { match lo { Bound::Included(a) => a <= x, Bound::Excluded(a) => a < x, Bound::Unbounded => true } }
pub open spec fn below(hi: Bound<u64>, x: int) -> bool { match hi { Bound::Included(a) => x <= a, Bound::Excluded(a) => x < a, Bound::Unbounded => true } }
pub open spec fn within<R: RangeBounds<u64>>(r: R, x: int) -> bool { above(r.lo(), x) && below(r.hi(), x) }
impl RangeBounds<u64> for Range<u64> {
    open spec fn lo(&self) -> Bound<u64> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<u64> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> (r: Bound<u64>) { Bound::Included(self.start) }
    fn end_bound(&self) -> (r: Bound<u64>) { Bound::Excluded(self.end) }
}
pub trait VxRangeContains<A>: RangeBounds<u64> { spec fn dummy(&self) -> bool; fn vx_contains(&self, x: &u64) -> (r: bool) ensures r == within(*self, *x as int); }
} // verus!
verus! {
#[verifier::external_body]
pub fn vx_static<X, E, F: Fn(&X) -> E>(a: F) -> (r: &'static F) ensures *r == a { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_empty<A>() -> (r: It<A>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_once<A>(a: A) -> (r: It<A>) ensures r@ == seq![a] { unimplemented!() }
pub trait IterExt: Sized {
    fn left_iter<R>(self) -> (r: EitherIter<Self, R>) ensures r == EitherIter::<Self, R>::Left(self);
    fn right_iter<L>(self) -> (r: EitherIter<L, Self>) ensures r == EitherIter::<L, Self>::Right(self);
}
impl<A> IterExt for A {
    fn left_iter<R>(self) -> (r: EitherIter<Self, R>) { EitherIter::Left(self) }
    fn right_iter<L>(self) -> (r: EitherIter<L, Self>) { EitherIter::Right(self) }
}
}
