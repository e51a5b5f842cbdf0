verus! {
pub trait Debug {}
pub trait Ord {}
impl Ord for u64 {}
pub trait DagCbor {}

// ---------------------------------------------------------------- what a user of banyan supplies
pub trait Summarizable<S> { spec fn summ(&self) -> S; fn summarize(&self) -> (r: S) ensures r == self.summ(); }
/// the types of a tree. `covers` relates a summary to the keys it stands for; the laws are what the
/// documentation demands of implementations ([Summarizable], [CompactSeq]); banyan-utils' own
/// implementation is verified against them.
pub trait TreeTypes: Sized {
    type Key;
    type Summary;
    type KeySeq: CompactSeq<Item = Self::Key> + Summarizable<Self::Summary> + VxClone;
    type SummarySeq: CompactSeq<Item = Self::Summary> + Summarizable<Self::Summary> + VxClone;
    type Link: Copy + PartialEq;
    spec fn covers(s: Self::Summary, k: Self::Key) -> bool;
    proof fn law_keys(ks: Self::KeySeq, j: int) requires 0 <= j < ks.seq().len() ensures Self::covers(ks.summ(), ks.seq()[j]);
    proof fn law_summaries(ss: Self::SummarySeq, j: int, k: Self::Key) requires 0 <= j < ss.seq().len(), Self::covers(ss.seq()[j], k) ensures Self::covers(ss.summ(), k);
    /// links can be compared
    proof fn law_link() ensures vstd::laws_eq::obeys_eq::<Self::Link>(), forall|a: Self::Link, b: Self::Link| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
}

// ---------------------------------------------------------------- queries
pub trait QueryModel<T: TreeTypes> { spec fn matches(&self, offset: int, key: T::Key) -> bool; }
/// the contract of a query: exact on the events of a leaf, conservative on branches, and it only clears
pub open spec fn exact<T: TreeTypes, Q: QueryModel<T> + ?Sized>(q: &Q, offset: int, keys: Seq<T::Key>, a: Seq<bool>, b: Seq<bool>) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| #![trigger b[j]] 0 <= j < b.len() && b[j] ==> a[j]
    &&& forall|j: int| #![trigger b[j]] 0 <= j < b.len() && j < keys.len() ==> b[j] == (a[j] && q.matches(offset + j, keys[j]))
}
pub open spec fn conservative<T: TreeTypes, Q: QueryModel<T> + ?Sized>(q: &Q, offset: int, count: int, summaries: Seq<T::Summary>, a: Seq<bool>, b: Seq<bool>) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| #![trigger b[j]] 0 <= j < b.len() && b[j] ==> a[j]
    &&& forall|j: int, o: int, k: T::Key| #![trigger b[j], q.matches(o, k)] 0 <= j < b.len() && j < summaries.len() && a[j] && offset <= o < offset + count
            && T::covers(summaries[j], k) && q.matches(o, k) ==> b[j]
}
pub trait Query<T: TreeTypes>: QueryModel<T> + Send + Sync + 'static {
    fn containing(&self, offset: u64, index: &LeafIndex<T>, res: &mut [bool])
        requires offset + index.keys.seq().len() <= u64::MAX
        ensures exact::<T, Self>(self, offset as int, index.keys.seq(), old(res)@, final(res)@);
    fn intersecting(&self, offset: u64, index: &BranchIndex<T>, res: &mut [bool])
        requires offset + index.count <= u64::MAX
        ensures conservative::<T, Self>(self, offset as int, index.count as int, index.summaries.seq(), old(res)@, final(res)@);
}
pub trait BoolSliceExt { spec fn bs(&self) -> Seq<bool>; fn vx_any(&self) -> (r: bool) ensures self.bs().len() >= 0, r == (exists|i: int| 0 <= i < self.bs().len() && #[trigger] self.bs()[i]); }
pub trait MutBoolSliceExt {
    spec fn mbs(&self) -> Seq<bool>;
    fn clear(&mut self) ensures final(self).mbs() == Seq::new(old(self).mbs().len(), |i: int| false);
    fn or_with(&mut self, rhs: &[bool])
        ensures final(self).mbs() == Seq::new(old(self).mbs().len(), |i: int| old(self).mbs()[i] || (i < rhs@.len() && rhs@[i]));
}
impl<R: RangeBounds<u64>> RangeBoundsExt<u64> for R {}
impl<R: RangeBounds<u64>> VxRangeContains<u64> for R {
    open spec fn dummy(&self) -> bool { true }
    #[verifier::external_body] fn vx_contains(&self, x: &u64) -> (r: bool) { unimplemented!() }
}
}
