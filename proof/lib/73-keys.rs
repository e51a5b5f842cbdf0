pub mod keys_lemmas {
use super::*;
verus! {
broadcast use {axiom_vecset, axiom_btreeset, lemma_member};
/// derived
impl Clone for Key { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TimeData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TimeData {}
impl<'a> VxInt for &'a u64 { open spec fn int(&self) -> int { **self as int } }
impl<A> It<A> {
    #[verifier::external_body]
    pub fn vx_min(self) -> (r: Option<A>) where A: VxInt
        ensures self@.len() == 0 <==> r is None,
            r is Some ==> self@.contains(r.unwrap()) && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].int() >= r.unwrap().int()
    { unimplemented!() }
}
/// the parts of the indices of nodes that queries look at
#[verifier::reject_recursive_types(T)]
pub struct BranchIndex<T> { pub summaries: KeySeq, pub _p: PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct LeafIndex<T> { pub keys: KeySeq, pub _p: PhantomData<T> }

// ---------------------------------------------------------------- keys
impl TimeData {
    pub open spec fn overlaps(self, o: TimeData) -> bool { self.max_time >= o.min_time && self.min_time <= o.max_time }
    pub open spec fn within(self, o: TimeData) -> bool { o.min_time <= self.min_time && self.max_time <= o.max_time }
}
/// a time and a set of tags
pub ghost struct Ev { pub time: TimeData, pub tags: Set<SmolStr> }
impl Key { pub open spec fn ev(self) -> Ev { Ev { time: self.time, tags: self.tags.set() } } }
/// an event is in a query's key: within its interval of time, and with none but its tags
pub open spec fn in_key(q: Key, e: Ev) -> bool { e.time.within(q.time) && e.tags.subset_of(q.tags.set()) }
/// what a summary says leaves room for an event in the query's key
pub open spec fn meets(q: Key, s: Ev) -> bool { q.time.overlaps(s.time) && !q.tags.set().disjoint(s.tags) }
pub open spec fn in_query(q: DnfQuery, e: Ev) -> bool { exists|k: int| 0 <= k < q.0.len() && in_key(#[trigger] q.0@[k], e) }
pub open spec fn meets_query(q: DnfQuery, s: Ev) -> bool { exists|k: int| 0 <= k < q.0.len() && meets(#[trigger] q.0@[k], s) }
/// a summary stands for an event (or for another summary)
pub open spec fn covers(s: Ev, e: Ev) -> bool { s.time.min_lamport <= e.time.min_lamport && e.time.within(s.time) && e.tags.subset_of(s.tags) }
/// summaries of summaries stand for the events too
pub proof fn lemma_covers_trans(a: Ev, b: Ev, c: Ev) requires covers(a, b), covers(b, c) ensures covers(a, c) {}
/// no event of the query is ruled out by anything that stands for it
pub proof fn lemma_conservative(q: DnfQuery, s: Ev, e: Ev)
    requires covers(s, e), in_query(q, e),
        // events without tags are the known finding "untagged-below-branch"
        !e.tags.is_empty(),
        e.time.min_time <= e.time.max_time
    ensures meets_query(q, s)
{
    let k = choose|k: int| 0 <= k < q.0.len() && in_key(#[trigger] q.0@[k], e);
    let x = choose|x: SmolStr| e.tags.contains(x);
    assert(e.tags.contains(x)) by { if forall|x: SmolStr| !e.tags.contains(x) { assert(e.tags =~= Set::empty()); } }
    assert(q.0@[k].tags.set().contains(x) && s.tags.contains(x));
    assert(meets(q.0@[k], s));
}

// ---------------------------------------------------------------- sequences of keys
impl KeySeq {
    /// one entry of every kind per key, and valid positions
    pub open spec fn wf(&self) -> bool { self.tags.wf() && self.min_lamport.len() == self.tags.elements.len() && self.min_time.len() == self.tags.elements.len() && self.max_time.len() == self.tags.elements.len() }
    pub open spec fn size(&self) -> nat { self.tags.elements.len() as nat }
    pub open spec fn time_at(&self, i: int) -> TimeData { TimeData { min_lamport: self.min_lamport@[i], min_time: self.min_time@[i], max_time: self.max_time@[i] } }
    pub open spec fn at(&self, i: int) -> Ev { Ev { time: self.time_at(i), tags: self.tags.elem(i) } }
}
pub open spec fn tags_of(s: Seq<Key>) -> Seq<TagSet> { s.map_values(|k: Key| k.tags) }
/// the query's key in terms of the positions in a table
pub open spec fn trans(table: Seq<SmolStr>, q: Key, t: TranslatedKey) -> bool {
    t.time == q.time && forall|i: u32| #[trigger] t.index_set.set().contains(i) == (i < table.len() && q.tags.set().contains(table[i as int]))
}
pub open spec fn trans_all(q: DnfQuery, t: TranslatedDnfQuery) -> bool {
    t.query.len() == q.0.len() && forall|k: int| #![trigger q.0@[k]] #![trigger t.query@[k]] 0 <= k < q.0.len() ==> trans(t.seq.tags.tags.sq(), q.0@[k], t.query@[k])
}
pub open spec fn t_in(t: TranslatedDnfQuery, i: int) -> bool {
    exists|k: int| 0 <= k < t.query.len() && t.seq.time_at(i).within((#[trigger] t.query@[k]).time) && t.seq.tags.elements@[i].set().subset_of(t.query@[k].index_set.set())
}
pub open spec fn t_meets(t: TranslatedDnfQuery, i: int) -> bool {
    exists|k: int| 0 <= k < t.query.len() && (#[trigger] t.query@[k]).time.overlaps(t.seq.time_at(i)) && !t.query@[k].index_set.set().disjoint(t.seq.tags.elements@[i].set())
}
pub proof fn lemma_trans(table: TagSet, q: Key, t: TranslatedKey, e: IndexSet)
    requires trans(table.sq(), q, t), forall|i: u32| #[trigger] e.set().contains(i) ==> i < table.sq().len()
    ensures e.set().subset_of(t.index_set.set()) == tags_at(table.sq(), e.set()).subset_of(q.tags.set()),
        t.index_set.set().disjoint(e.set()) == q.tags.set().disjoint(tags_at(table.sq(), e.set())),
{
    let ts = tags_at(table.sq(), e.set());
    let ps = t.index_set.set();
    assert forall|i: u32| #[trigger] e.set().contains(i) implies ts.contains(table.sq()[i as int]) by {}
    assert forall|x: SmolStr| #[trigger] ts.contains(x) implies exists|i: u32| e.set().contains(i) && #[trigger] table.sq()[i as int] == x by {}
    if e.set().subset_of(ps) { assert forall|x: SmolStr| ts.contains(x) implies q.tags.set().contains(x) by { let i = choose|i: u32| e.set().contains(i) && #[trigger] table.sq()[i as int] == x; assert(ps.contains(i)); } }
    if ts.subset_of(q.tags.set()) { assert forall|i: u32| e.set().contains(i) implies ps.contains(i) by { assert(ts.contains(table.sq()[i as int])); } }
    if ps.disjoint(e.set()) { assert forall|x: SmolStr| ts.contains(x) implies !q.tags.set().contains(x) by { let i = choose|i: u32| e.set().contains(i) && #[trigger] table.sq()[i as int] == x; assert(!ps.contains(i)); } }
    if q.tags.set().disjoint(ts) { assert forall|i: u32| e.set().contains(i) implies !ps.contains(i) by { assert(ts.contains(table.sq()[i as int])); } }
}
pub broadcast proof fn lemma_t(q: DnfQuery, t: TranslatedDnfQuery, i: int)
    requires trans_all(q, t), 0 <= i < t.seq.size(), t.seq.wf()
    ensures #![trigger t_in(t, i), in_query(q, t.seq.at(i))] #![trigger t_meets(t, i), meets_query(q, t.seq.at(i))]
        t_in(t, i) == in_query(q, t.seq.at(i)), t_meets(t, i) == meets_query(q, t.seq.at(i))
{
    let tb = t.seq.tags.tags;
    let e = t.seq.tags.elements@[i];
    assert(t.seq.tags.wf_set(e));
    assert forall|k: int| 0 <= k < q.0.len() implies #[trigger] trans(tb.sq(), q.0@[k], t.query@[k]) by {}
    if t_in(t, i) { let k = choose|k: int| 0 <= k < t.query.len() && t.seq.time_at(i).within((#[trigger] t.query@[k]).time) && e.set().subset_of(t.query@[k].index_set.set()); lemma_trans(tb, q.0@[k], t.query@[k], e); assert(in_key(q.0@[k], t.seq.at(i))); }
    if in_query(q, t.seq.at(i)) { let k = choose|k: int| 0 <= k < q.0.len() && in_key(#[trigger] q.0@[k], t.seq.at(i)); lemma_trans(tb, q.0@[k], t.query@[k], e); assert(t.query@[k].time == q.0@[k].time); }
    if t_meets(t, i) { let k = choose|k: int| 0 <= k < t.query.len() && (#[trigger] t.query@[k]).time.overlaps(t.seq.time_at(i)) && !t.query@[k].index_set.set().disjoint(e.set()); lemma_trans(tb, q.0@[k], t.query@[k], e); assert(meets(q.0@[k], t.seq.at(i))); }
    if meets_query(q, t.seq.at(i)) { let k = choose|k: int| 0 <= k < q.0.len() && meets(#[trigger] q.0@[k], t.seq.at(i)); lemma_trans(tb, q.0@[k], t.query@[k], e); assert(t.query@[k].time == q.0@[k].time); }
}
/// the position of a tag, if any
pub open spec fn pos_of(table: Seq<SmolStr>, t: SmolStr, r: Option<usize>) -> bool { match r { Some(i) => i < table.len() && table[i as int] == t, None => !table.contains(t) } }
/// translating those tags that are in the table
pub broadcast proof fn lemma_pos_of(table: TagSet, tags: TagSet, s: Seq<Option<usize>>, p: Seq<u32>)
    requires s.len() == tags.sq().len(), forall|i: int| 0 <= i < s.len() ==> pos_of(table.sq(), tags.sq()[i], #[trigger] s[i]), table.sq().len() <= 0x1_0000_0000,
        p.len() == flats(s, s.len() as int).len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == flats(s, s.len() as int)[i] as u32,
    ensures #![trigger flats(s, s.len() as int), p.to_set(), table.sq(), tags.sq()]
        forall|i: u32| #[trigger] p.to_set().contains(i) == (i < table.sq().len() && tags.set().contains(table.sq()[i as int]))
{
    let f = flats(s, s.len() as int);
    lemma_flats_contains(s, s.len() as int);
    assert forall|i: u32| #[trigger] p.to_set().contains(i) == (i < table.sq().len() && tags.set().contains(table.sq()[i as int])) by {
        if p.to_set().contains(i) {
            let k = choose|k: int| 0 <= k < p.len() && p[k] == i;
            assert(p[k] == f[k] as u32);
            assert(in_opts(s, s.len() as int, f[k]));
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == Some(f[k]);
            assert(pos_of(table.sq(), tags.sq()[j], s[j]));
            assert(tags.sq()[j] == table.sq()[i as int]);
        }
        if i < table.sq().len() && tags.set().contains(table.sq()[i as int]) {
            let x = table.sq()[i as int];
            let j = choose|j: int| 0 <= j < tags.sq().len() && tags.sq()[j] == x;
            assert(pos_of(table.sq(), tags.sq()[j], s[j]));
            assert(table.sq().contains(x));
            assert(s[j] is Some && s[j].unwrap() as int == i as int);
            assert(f.contains(s[j].unwrap()));
            let k = choose|k: int| 0 <= k < f.len() && f[k] == s[j].unwrap();
            assert(p[k] == i);
            assert(p.contains(i));
        }
    }
}
/// the tags of an element are tags of the table
pub broadcast proof fn lemma_elem_table(x: TagIndex, i: int) requires x.wf(), 0 <= i < x.elements.len() ensures (#[trigger] x.elem(i)).subset_of(x.tags.set()) {
    assert(x.wf_set(x.elements@[i]));
    assert forall|t: SmolStr| x.elem(i).contains(t) implies x.tags.set().contains(t) by { let j = choose|j: u32| x.elements@[i].set().contains(j) && x.tags.sq()[j as int] == t; assert(x.tags.sq().contains(t)); }
}
}
}
pub use keys_lemmas::*;
pub use keys_lemmas::{BranchIndex, LeafIndex};
