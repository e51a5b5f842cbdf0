pub mod index_lemmas {
use super::*;
verus! {
broadcast use {axiom_vecset, axiom_btreeset};
impl TagIndex {
    /// the positions lie within the table
    pub open spec fn wf_set(&self, s: IndexSet) -> bool { forall|i: u32| #[trigger] s.set().contains(i) ==> i < self.tags.sq().len() }
    pub open spec fn wf(&self) -> bool { self.tags.sq().len() <= 0x1_0000_0000 && forall|k: int| 0 <= k < self.elements.len() ==> self.wf_set(#[trigger] self.elements@[k]) }
    /// the tags of the element at a position
    pub open spec fn elem(&self, k: int) -> Set<SmolStr> { tags_at(self.tags.sq(), self.elements@[k].set()) }
}
pub open spec fn tags_at(table: Seq<SmolStr>, is: Set<u32>) -> Set<SmolStr> { is.map(|i: u32| table[i as int]) }
/// the position of a tag
pub open spec fn found(table: Seq<SmolStr>, t: SmolStr, r: Option<u32>) -> bool { match r { Some(i) => i < table.len() && table[i as int] == t, None => !table.contains(t) } }
pub open spec fn positions(table: Seq<SmolStr>, tags: Set<SmolStr>, is: Set<u32>) -> bool {
    (forall|i: u32| #[trigger] is.contains(i) ==> i < table.len()) && tags_at(table, is) == tags
}
pub open spec fn all_tags(e: Seq<TagSet>) -> Set<SmolStr> decreases e.len() { if e.len() == 0 { Set::empty() } else { all_tags(e.drop_last()).union(e.last().set()) } }
pub proof fn lemma_all_tags(e: Seq<TagSet>, k: int) requires 0 <= k < e.len() ensures e[k].set().subset_of(all_tags(e)) decreases e.len() {
    if k < e.len() - 1 { lemma_all_tags(e.drop_last(), k); assert(e.drop_last()[k] == e[k]); }
}
pub proof fn lemma_table_size<X>(s: VecSet<[X; 4]>) ensures s.sq().len() == s.set().len() { s.sq().unique_seq_to_set(); }
/// translating one tag after the other
pub broadcast proof fn lemma_found(table: Seq<SmolStr>, tags: TagSet, s: Seq<Option<u32>>)
    requires s.len() == tags.sq().len(), forall|i: int| 0 <= i < s.len() ==> found(table, tags.sq()[i], #[trigger] s[i]), table.len() <= 0x1_0000_0000
    ensures #![trigger somes(s), table.to_set(), tags.set()]
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some) == tags.set().subset_of(table.to_set()),
        tags.set().subset_of(table.to_set()) ==> positions(table, tags.set(), somes(s).to_set()),
{
    let q = tags.sq();
    if tags.set().subset_of(table.to_set()) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] is Some by { assert(tags.set().contains(q[i])); assert(table.contains(q[i])); }
        let is = somes(s).to_set();
        assert forall|i: u32| #[trigger] is.contains(i) implies i < table.len() && tags.set().contains(table[i as int]) by { let k = choose|k: int| 0 <= k < somes(s).len() && somes(s)[k] == i; assert(s[k] == Some(i)); assert(table[i as int] == q[k]); }
        assert forall|x: SmolStr| tags.set().contains(x) implies tags_at(table, is).contains(x) by {
            let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
            let i = s[k].unwrap();
            assert(somes(s)[k] == i);
            assert(is.contains(i));
            assert(found(table, q[k], s[k]));
            assert(table[i as int] == x);
        }
        assert(tags_at(table, is) =~= tags.set());
    } else {
        let x = choose|x: SmolStr| tags.set().contains(x) && !table.to_set().contains(x);
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
        assert(found(table, q[k], s[k]));
        assert(s[k] is None);
    }
}
/// one position per item, in any order
pub broadcast proof fn lemma_positions(table: Seq<SmolStr>, tags: TagSet, s: Seq<u32>)
    requires s.len() == tags.sq().len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < table.len() && table[s[i] as int] == tags.sq()[i]
    ensures #![trigger s.to_set(), table.to_set(), tags.set()] positions(table, tags.set(), s.to_set())
{
    let q = tags.sq();
    let is = s.to_set();
    assert forall|i: u32| #[trigger] is.contains(i) implies i < table.len() && tags.set().contains(table[i as int]) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(table[s[k] as int] == q[k]); }
    assert forall|x: SmolStr| tags.set().contains(x) implies tags_at(table, is).contains(x) by {
        let k = choose|k: int| 0 <= k < q.len() && q[k] == x;
        assert(is.contains(s[k]));
        assert(table[s[k] as int] == x);
    }
    assert(tags_at(table, is) =~= tags.set());
}
/// the tags at positions
pub broadcast proof fn lemma_tags_at(table: Seq<SmolStr>, is: IndexSet, s: Seq<SmolStr>)
    requires s.len() == is.sq().len(), forall|i: int| 0 <= i < s.len() ==> is.sq()[i] < table.len() && #[trigger] s[i] == table[is.sq()[i] as int]
    ensures #![trigger s.to_set(), tags_at(table, is.set())] s.to_set() == tags_at(table, is.set())
{
    let q = is.sq();
    assert forall|x: SmolStr| s.to_set().contains(x) implies tags_at(table, is.set()).contains(x) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(is.set().contains(q[k])); }
    assert forall|x: SmolStr| tags_at(table, is.set()).contains(x) implies s.to_set().contains(x) by {
        let i = choose|i: u32| is.set().contains(i) && table[i as int] == x;
        let k = choose|k: int| 0 <= k < q.len() && q[k] == i;
        assert(s[k] == x);
    }
    assert(s.to_set() =~= tags_at(table, is.set()));
}
pub broadcast proof fn lemma_member<X>(s: VecSet<[X; 4]>, i: int) ensures 0 <= i < s.sq().len() ==> s.set().contains(#[trigger] s.sq()[i]) { if 0 <= i < s.sq().len() { assert(s.sq().contains(s.sq()[i])); } }
/// what is selected from a sequence
pub open spec fn any_sub(q: Seq<IndexSet>, is: Set<u32>) -> bool { exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).set().subset_of(is) }
pub proof fn lemma_flats_contains<A>(t: Seq<Option<A>>, n: int)
    requires 0 <= n <= t.len()
    ensures forall|k: int| 0 <= k < flats(t, n).len() ==> in_opts(t, n, #[trigger] flats(t, n)[k]),
        forall|i: int| 0 <= i < n && t[i] is Some ==> flats(t, n).contains((#[trigger] t[i]).unwrap()),
    decreases n
{
    if n > 0 {
        lemma_flats_contains(t, n - 1);
        let a = flats(t, n - 1);
        let r = flats(t, n);
        assert forall|k: int| 0 <= k < r.len() implies in_opts(t, n, #[trigger] r[k]) by {
            if k < a.len() { assert(r[k] == a[k]); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] t[i] == Some(a[k]); assert(t[i] == Some(r[k])); } else { assert(t[n - 1] == Some(r[k])); }
        }
        assert forall|i: int| 0 <= i < n && t[i] is Some implies r.contains((#[trigger] t[i]).unwrap()) by {
            if i < n - 1 { let k = choose|k: int| 0 <= k < a.len() && a[k] == t[i].unwrap(); assert(r[k] == t[i].unwrap()); } else { assert(r[r.len() - 1] == t[i].unwrap()); }
        }
    }
}
pub open spec fn in_opts<A>(t: Seq<Option<A>>, n: int, x: A) -> bool { exists|i: int| 0 <= i < n && #[trigger] t[i] == Some(x) }
/// what the translation of a conjunction tells about an element
pub proof fn lemma_sub(table: Seq<SmolStr>, tags: Set<SmolStr>, is: Set<u32>, e: Set<u32>)
    requires positions(table, tags, is), table.no_duplicates(), forall|i: u32| #[trigger] e.contains(i) ==> i < table.len()
    ensures is.subset_of(e) == tags.subset_of(tags_at(table, e))
{
    if is.subset_of(e) {
        assert forall|x: SmolStr| tags.contains(x) implies tags_at(table, e).contains(x) by {
            assert(tags_at(table, is).contains(x));
            let i = choose|i: u32| is.contains(i) && table[i as int] == x;
            assert(e.contains(i));
        }
    }
    if tags.subset_of(tags_at(table, e)) {
        assert forall|i: u32| is.contains(i) implies e.contains(i) by {
            assert(tags_at(table, is).contains(table[i as int]));
            assert(tags_at(table, e).contains(table[i as int]));
            let j = choose|j: u32| e.contains(j) && table[j as int] == table[i as int];
            assert(i == j);
        }
    }
}
pub open spec fn looked_up(table: Seq<SmolStr>, s: TagSet, r: Option<IndexSet>) -> bool {
    (s.set().subset_of(table.to_set()) ==> r is Some && positions(table, s.set(), r.unwrap().set())) && (!s.set().subset_of(table.to_set()) ==> r is None)
}
pub broadcast proof fn lemma_translated(table: TagSet, d: Seq<TagSet>, t: Seq<Option<IndexSet>>, e: IndexSet)
    requires t.len() == d.len(), forall|i: int| 0 <= i < t.len() ==> looked_up(table.sq(), d[i], #[trigger] t[i]),
        forall|i: u32| #[trigger] e.set().contains(i) ==> i < table.sq().len()
    ensures #![trigger csem(d.to_set(), tags_at(table.sq(), e.set())), flats(t, t.len() as int)]
        csem(d.to_set(), tags_at(table.sq(), e.set())) == any_sub(flats(t, t.len() as int), e.set())
{
    let q = flats(t, t.len() as int);
    let ts = tags_at(table.sq(), e.set());
    lemma_flats_contains(t, t.len() as int);
    if csem(d.to_set(), ts) {
        let c = choose|c: TagSet| #[trigger] d.to_set().contains(c) && c.set().subset_of(ts);
        let i = choose|i: int| 0 <= i < d.len() && d[i] == c;
        assert(looked_up(table.sq(), d[i], t[i]));
        assert forall|x: SmolStr| c.set().contains(x) implies table.sq().to_set().contains(x) by { assert(ts.contains(x)); let j = choose|j: u32| e.set().contains(j) && table.sq()[j as int] == x; assert(table.sq()[j as int] == x); }
        assert(t[i] is Some);
        lemma_sub(table.sq(), c.set(), t[i].unwrap().set(), e.set());
        assert(q.contains(t[i].unwrap()));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == t[i].unwrap();
        assert(q[k].set().subset_of(e.set()));
    }
    if any_sub(q, e.set()) {
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).set().subset_of(e.set());
        assert(in_opts(t, t.len() as int, q[k]));
        let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == Some(q[k]);
        assert(looked_up(table.sq(), d[i], t[i]));
        assert(d[i].set().subset_of(table.sq().to_set()));
        lemma_sub(table.sq(), d[i].set(), q[k].set(), e.set());
        assert(d.to_set().contains(d[i]));
    }
}
/// positions of the selected items
pub proof fn lemma_flats_sorted(t: Seq<Option<usize>>, n: int)
    requires 0 <= n <= t.len(), forall|i: int| 0 <= i < t.len() && t[i] is Some ==> (#[trigger] t[i]).unwrap() == i
    ensures forall|k: int| 0 <= k < flats(t, n).len() ==> (#[trigger] flats(t, n)[k]) < n, forall|i: int, j: int| 0 <= i < j < flats(t, n).len() ==> #[trigger] flats(t, n)[i] < #[trigger] flats(t, n)[j]
    decreases n
{
    if n > 0 {
        lemma_flats_sorted(t, n - 1);
        let a = flats(t, n - 1);
        let r = flats(t, n);
        if t[n - 1] is Some {
            assert(r == a.push(t[n - 1].unwrap()));
            assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < n by { if k < a.len() { assert(r[k] == a[k]); } }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] < #[trigger] r[j] by { assert(r[i] == a[i]); if j < a.len() { assert(r[j] == a[j]); } }
        } else {
            assert(r == a);
            assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < n by { assert(a[k] < n - 1); }
        }
    }
}
pub broadcast proof fn lemma_selected(t: Seq<Option<usize>>)
    ensures #![trigger flats(t, t.len() as int)] (forall|i: int| 0 <= i < t.len() && t[i] is Some ==> (#[trigger] t[i]).unwrap() == i) ==> {
        let r = flats(t, t.len() as int);
        (forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) < t.len() && t[r[k] as int] is Some) && (forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i] < #[trigger] r[j])
        && (forall|x: usize| x < t.len() && t[x as int] is Some ==> #[trigger] r.contains(x))
    }
{
    if forall|i: int| 0 <= i < t.len() && t[i] is Some ==> (#[trigger] t[i]).unwrap() == i {
        let r = flats(t, t.len() as int);
        lemma_flats_contains(t, t.len() as int);
        lemma_flats_sorted(t, t.len() as int);
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) < t.len() && t[r[k] as int] is Some by {
            assert(in_opts(t, t.len() as int, r[k]));
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == Some(r[k]);
            assert(t[i].unwrap() == i);
        }
    }
}
}
}
pub use index_lemmas::*;
