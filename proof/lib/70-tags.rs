// banyan-utils: sets of tags, boolean expressions over tags, key sequences
pub mod tags_base {
use super::super::*;
verus! {
#[verifier::external_body] pub struct SmolStr { _p: u8 }
impl Clone for SmolStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------------------------------------------------------------- ordered collections
/// strictly increasing in the order of the items' type
pub uninterp spec fn ordered<X>(s: Seq<X>) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VecSet<A> { _p: PhantomData<A> }
impl<X> VecSet<[X; 4]> {
    /// the items in order
    pub uninterp spec fn sq(&self) -> Seq<X>;
    pub open spec fn set(&self) -> Set<X> { self.sq().to_set() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.sq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> (r: &[X]) ensures r@ == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<X>) ensures r@ == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_subset(&self, o: &Self) -> (r: bool) ensures r == self.set().subset_of(o.set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, o: &Self) -> (r: bool) ensures r == o.set().subset_of(self.set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_disjoint(&self, o: &Self) -> (r: bool) ensures r == self.set().disjoint(o.set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, it: It<X>) ensures final(self).set() == old(self).set().union(it@.to_set()), forall|s: Seq<X>| s.len() == it@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] it@[i] == s[i]) ==> final(self).set() == old(self).set().union(#[trigger] s.to_set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, x: X) ensures final(self).set() == old(self).set().insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, x: &X) -> (r: bool) ensures r == self.set().contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.sq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0) { unimplemented!() }
}
pub broadcast axiom fn axiom_vecset<X>(a: VecSet<[X; 4]>) ensures (#[trigger] a.sq()).no_duplicates() && ordered(a.sq());
/// a set has one representation
pub axiom fn axiom_vecset_eq<X>(a: VecSet<[X; 4]>, b: VecSet<[X; 4]>) requires a.set() == b.set() ensures a == b;
impl<X> Clone for VecSet<[X; 4]> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<X> VxSliceIter<X> for VecSet<[X; 4]> {
    open spec fn sl(&self) -> Seq<X> { self.sq() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&X>) { unimplemented!() }
}
impl<'a, X> VxFor<&'a X> for &'a VecSet<[X; 4]> { open spec fn for_seq(&self) -> Seq<&'a X> { refs(self.sq()) } }
impl<X> VxFor<X> for VecSet<[X; 4]> { open spec fn for_seq(&self) -> Seq<X> { self.sq() } }
impl<X> VxFrom<X> for VecSet<[X; 4]> { open spec fn from_seq(s: Seq<X>, r: Self) -> bool { r.set() == s.to_set() } }
impl<X> VxFrom<Option<X>> for Option<VecSet<[X; 4]>> {
    open spec fn from_seq(s: Seq<Option<X>>, r: Self) -> bool {
        if forall|i: int| 0 <= i < s.len() ==> s[i] is Some { r is Some && r.unwrap().set() == somes(s).to_set() } else { r is None }
    }
}
pub trait VxSearch<X> {
    spec fn ss(&self) -> Seq<X>;
    fn vx_binary_search(&self, x: &X) -> (r: Result<usize, usize>)
        requires ordered(self.ss())
        ensures r is Ok ==> r->Ok_0 < self.ss().len() && self.ss()[r->Ok_0 as int] == *x, r is Err ==> !self.ss().contains(*x);
}
impl<X> VxSearch<X> for [X] {
    open spec fn ss(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vx_binary_search(&self, x: &X) -> (r: Result<usize, usize>) { unimplemented!() }
}
pub trait VxGet<X> {
    spec fn gs(&self) -> Seq<X>;
    fn vx_get(&self, i: usize) -> (r: Option<&X>) ensures i < self.gs().len() ==> r is Some && *r.unwrap() == self.gs()[i as int], i >= self.gs().len() ==> r is None;
}
impl<X> VxGet<X> for Vec<X> {
    open spec fn gs(&self) -> Seq<X> { self@ }
    fn vx_get(&self, i: usize) -> (r: Option<&X>) { if i < self.len() { Some(&self[i]) } else { None } }
}
pub trait VxResult<A, E>: Sized {
    spec fn rp(self) -> Result<A, E>;
    fn vx_ok(self) -> (r: Option<A>) ensures r == (match self.rp() { Ok(a) => Some(a), Err(_) => None });
    fn vx_unwrap(self) -> (r: A) requires self.rp() is Ok ensures self.rp() == Ok::<A, E>(r);
}
impl<A, E> VxResult<A, E> for Result<A, E> {
    open spec fn rp(self) -> Result<A, E> { self }
    fn vx_ok(self) -> (r: Option<A>) { match self { Ok(a) => Some(a), Err(_) => None } }
    fn vx_unwrap(self) -> (r: A) { match self { Ok(a) => a, Err(_) => vx_panic() } }
}
pub trait VxOptElse<A>: Sized {
    spec fn pe(self) -> Option<A>;
    fn vx_unwrap_or_else<F: FnOnce() -> A>(self, f: F) -> (r: A)
        requires self.pe() is None ==> call_requires(f, ())
        ensures self.pe() is Some ==> self.pe() == Some(r), self.pe() is None ==> call_ensures(f, (), r);
}
impl<A> VxOptElse<A> for Option<A> {
    open spec fn pe(self) -> Option<A> { self }
    fn vx_unwrap_or_else<F: FnOnce() -> A>(self, f: F) -> (r: A) { match self { Some(x) => x, None => f() } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct BTreeSet<A> { _p: PhantomData<A> }
impl<A> BTreeSet<A> {
    pub uninterp spec fn sq(&self) -> Seq<A>;
    pub open spec fn set(&self) -> Set<A> { self.sq().to_set() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.sq().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<&A>) ensures r@ == refs(self.sq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<A>) ensures r@ == self.sq() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, a: A) ensures final(self).set() == old(self).set().insert(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove(&mut self, a: &A) ensures final(self).set() == old(self).set().remove(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.sq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0) { unimplemented!() }
}
pub broadcast axiom fn axiom_btreeset<X>(a: BTreeSet<X>) ensures (#[trigger] a.sq()).no_duplicates() && ordered(a.sq());
pub axiom fn axiom_btreeset_eq<X>(a: BTreeSet<X>, b: BTreeSet<X>) requires a.set() == b.set() ensures a == b;
impl<A> VxFor<A> for BTreeSet<A> { open spec fn for_seq(&self) -> Seq<A> { self.sq() } }
#[verifier::external_body]
pub fn vx_vecset1<X>(x: X) -> (r: VecSet<[X; 4]>) ensures r.set() == set![x] { unimplemented!() }
#[verifier::external_body]
pub fn vx_btreeset1<X>(x: X) -> (r: BTreeSet<X>) ensures r.set() == set![x] { unimplemented!() }

// ---------------------------------------------------------------- folds
/// the intermediate results of combining the items of s from the left
#[verifier::opaque]
pub open spec fn folded<A, F: Fn(A, A) -> A>(f: F, s: Seq<A>, acc: Seq<A>) -> bool {
    acc.len() == s.len() && s.len() > 0 && acc[0] == s[0] && forall|i: int| #![trigger acc[i]] 0 < i < s.len() ==> call_ensures(f, (acc[i - 1], s[i]), acc[i])
}
pub struct Reduce {}
impl Reduce {
    #[verifier::external_body]
    pub fn reduce<A, F: Fn(A, A) -> A>(it: It<A>, f: F) -> (r: Option<A>)
        requires forall|a: A, b: A| #[trigger] call_requires(f, (a, b))
        ensures it@.len() == 0 ==> r is None, it@.len() > 0 ==> r is Some && exists|acc: Seq<A>| #[trigger] folded(f, it@, acc) && acc.last() == r.unwrap()
    { unimplemented!() }
}
/// the parts one after the other
pub open spec fn join_parts<A>(parts: Seq<Seq<A>>) -> Seq<A> decreases parts.len() { if parts.len() == 0 { Seq::empty() } else { join_parts(parts.drop_last()) + parts.last() } }
impl<A> It<A> {
    #[verifier::external_body]
    pub fn vx_flat_map<B: IntoIterator, F: Fn(A) -> B>(self, f: F) -> (r: It<B::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures exists|p: Seq<B>| #![trigger parts_of(p)] p.len() == self@.len() && (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> call_ensures(f, (self@[i],), p[i])) && r@ == join_parts(parts_of(p))
    { unimplemented!() }
}
pub open spec fn parts_of<B: IntoIterator>(p: Seq<B>) -> Seq<Seq<B::Item>> { p.map_values(|b: B| b.ii()) }
pub open spec fn spot<A>(parts: Seq<Seq<A>>, i: int, j: int, x: A) -> bool { 0 <= i < parts.len() && 0 <= j < parts[i].len() && parts[i][j] == x }
pub open spec fn in_parts<A>(parts: Seq<Seq<A>>, x: A) -> bool { exists|i: int, j: int| #[trigger] spot(parts, i, j, x) }
/// membership in the join_parts parts
pub proof fn lemma_join_parts<A>(parts: Seq<Seq<A>>)
    ensures forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() ==> join_parts(parts).contains(#[trigger] parts[i][j]),
        forall|k: int| 0 <= k < join_parts(parts).len() ==> in_parts(parts, #[trigger] join_parts(parts)[k])
    decreases parts.len()
{
    if parts.len() > 0 {
        let p = parts.drop_last();
        lemma_join_parts(p);
        let a = join_parts(p);
        let l = parts.last();
        let r = join_parts(parts);
        assert(r == a + l);
        assert forall|i: int, j: int| 0 <= i < parts.len() && 0 <= j < parts[i].len() implies r.contains(#[trigger] parts[i][j]) by {
            if i < parts.len() - 1 {
                assert(p[i] == parts[i]);
                assert(a.contains(p[i][j]));
                let k = choose|k: int| 0 <= k < a.len() && a[k] == p[i][j];
                assert(r[k] == parts[i][j]);
            } else {
                assert(r[a.len() + j] == parts[i][j]);
            }
        }
        assert forall|k: int| 0 <= k < r.len() implies in_parts(parts, #[trigger] r[k]) by {
            if k < a.len() {
                assert(r[k] == a[k]);
                let (i, j) = choose|i: int, j: int| #[trigger] spot(p, i, j, a[k]);
                assert(parts[i] == p[i]);
                assert(spot(parts, i, j, r[k]));
            } else {
                let i = parts.len() - 1; let j = k - a.len(); assert(parts[i] == l); assert(0 <= j < parts[i].len()); assert(spot(parts, i, j, r[k]));
            }
        }
    }
}
}
}
pub use tags_base::*;
pub use tags_base::BTreeSet;
macro_rules! vecset { ($x:expr) => { vx_vecset1($x) }; }
macro_rules! btreeset { ($x:expr) => { vx_btreeset1($x) }; }
