verus! {
// ================================================================ forgetting what cannot be read
/// all blocks on the path to an event can be read
pub open spec fn path_ok<T: TreeTypes>(s: Secrets, i: Index<T>, p: int) -> bool decreases i.level() {
    match i {
        Index::Leaf(x) => x.link is Some ==> readable::<T>(s.value_key, x.link.unwrap()),
        Index::Branch(x) => x.link is Some ==> readable::<T>(s.index_key, x.link.unwrap()) && ({
            let ks = kids::<T>(x.link.unwrap()).unwrap();
            forall|k: int| 0 <= k < ks.len() && counts(ks.take(k)) <= p < counts(ks.take(k)) + (#[trigger] ks[k]).count() ==> ks[k].level() < x.level && path_ok(s, ks[k], p - counts(ks.take(k)))
        }),
    }
}
/// what repair makes of a tree
#[verifier::opaque]
pub open spec fn rep<T: TreeTypes>(i: Index<T>, r: Index<T>, s: Secrets) -> bool {
    &&& wf(r)
    &&& r == with_link(i, *r.link())
    &&& i.link() is None ==> r.link() is None
    &&& elems(r).len() == elems(i).len() == i.count()
    &&& forall|p: int| #![trigger elems(r)[p]] 0 <= p < i.count() ==> elems(r)[p] is None || elems(r)[p] == elems(i)[p]
    &&& forall|p: int| #![trigger path_ok(s, i, p)] 0 <= p < i.count() && path_ok(s, i, p) ==> elems(r)[p] == elems(i)[p]
    &&& good(Aspect::Keys(s), r)
    &&& good(Aspect::Served, r)
    &&& good(Aspect::Avail(s), i) ==> r == i
    &&& forall|c: Config| #[trigger] good(Aspect::Limits(c), i) ==> good(Aspect::Limits(c), r)
}
/// forgotten
pub proof fn lemma_rep_none<T: TreeTypes>(i: Index<T>, r: Index<T>, s: Secrets)
    requires wf(i), r == with_link(i, None), i.link() is None || !readable::<T>(if i is Leaf { s.value_key } else { s.index_key }, i.link().unwrap())
    ensures rep(i, r, s)
{
    reveal(rep);
    lemma_len(i);
    assert(elems(r) =~= gone::<T::Key>(i.count() as int));
    assert forall|p: int| #![trigger path_ok(s, i, p)] 0 <= p < i.count() && path_ok(s, i, p) implies elems(r)[p] == elems(i)[p] by { assert(i.link() is None); }
    if i.link() is None { assert(r == i); } else { assert(!node_ok(Aspect::Avail(s), i)); }
    assert forall|c: Config| #[trigger] good(Aspect::Limits(c), i) implies good(Aspect::Limits(c), r) by { assert(node_ok(Aspect::Limits(c), i)); assert(node_ok(Aspect::Limits(c), r)); }
    assert(node_ok(Aspect::Keys(s), r));
    assert(node_ok(Aspect::Served, r));
}
pub proof fn lemma_rep_leaf<T: TreeTypes>(i: Index<T>, s: Secrets)
    requires wf(i), i is Leaf, i.link() is Some ==> served(i.link().unwrap()) && under_key::<T>(s.value_key, i.link().unwrap())
    ensures rep(i, i, s)
{
    reveal(rep);
    lemma_len(i);
    assert(node_ok(Aspect::Keys(s), i));
    assert(node_ok(Aspect::Served, i));
    assert(i == with_link(i, *i.link()));
}
/// a branch of which the children were repaired
pub proof fn lemma_rep_branch<T: TreeTypes>(x: BranchIndex<T>, y: BranchIndex<T>, ch: Seq<Index<T>>, s: Secrets, changed: bool)
    requires wf(bx(x)), x.link is Some, y == (BranchIndex { link: y.link, ..x }), y.link is Some, known(y.link.unwrap()), served(y.link.unwrap()), under_key::<T>(s.index_key, y.link.unwrap()),
        kids::<T>(y.link.unwrap()) == Some(ch), ch.len() == kids::<T>(x.link.unwrap()).unwrap().len(), forall|j: int| 0 <= j < ch.len() ==> rep(kids::<T>(x.link.unwrap()).unwrap()[j], #[trigger] ch[j], s),
        !changed ==> y == x, changed ==> exists|j: int| 0 <= j < ch.len() && *(#[trigger] ch[j]).link() != *kids::<T>(x.link.unwrap()).unwrap()[j].link()
    ensures rep(bx(x), bx(y), s), wf(bx(y))
{
    reveal(rep);
    let i = bx(x);
    let r = bx(y);
    let ks = kids::<T>(x.link.unwrap()).unwrap();
    let n = ks.len() as int;
    assert forall|j: int| 0 <= j < n implies (#[trigger] ch[j]).level() < x.level && wf(ch[j]) && ch[j].count() == ks[j].count() && ch[j].summarize() == ks[j].summarize() && ch[j].level() == ks[j].level() && ch[j].sealed() == ks[j].sealed() && ch[j] == with_link(ks[j], *ch[j].link()) by { assert(ks[j].level() < x.level); assert(rep(ks[j], ch[j], s)); }
    let w = choose|j: int| 0 <= j < n && (#[trigger] ks[j]).level() == x.level - 1;
    assert(ch[w].level() == x.level - 1);
    assert(summs(ch) =~= summs(ks)) by { assert forall|j: int| 0 <= j < n implies #[trigger] summs(ch)[j] == summs(ks)[j] by { assert(ch[j].summarize() == ks[j].summarize()); } }
    lemma_same_counts(ks, ch);
    assert(branch_of(y, ch));
    assert(wf(r));
    lemma_len(i);
    lemma_len(r);
    lemma_kids(i);
    lemma_kids(r);
    assert forall|p: int| 0 <= p < i.count() implies (#[trigger] elems(r)[p] is None || elems(r)[p] == elems(i)[p]) && (path_ok(s, i, p) ==> elems(r)[p] == elems(i)[p]) by {
        let k = lemma_find(ks, p);
        lemma_child_elems(ks, k);
        lemma_child_elems(ch, k);
        lemma_same_take(ks, ch, k);
        let q = p - counts(ks.take(k));
        assert(rep(ks[k], ch[k], s));
        assert(elems(ks[k])[q] == all_elems(ks)[p]);
        assert(elems(ch[k])[q] == all_elems(ch)[p]);
        if path_ok(s, i, p) { assert(path_ok(s, ks[k], q)); }
    }
    assert forall|p: int| #![trigger path_ok(s, i, p)] 0 <= p < i.count() && path_ok(s, i, p) implies elems(r)[p] == elems(i)[p] by { assert(elems(r)[p] is None || elems(r)[p] == elems(i)[p]); }
    if good(Aspect::Avail(s), i) {
        lemma_good_kids(i);
        assert forall|j: int| 0 <= j < n implies *(#[trigger] ch[j]).link() == *ks[j].link() by { assert(good(Aspect::Avail(s), ks[j])); assert(rep(ks[j], ch[j], s)); }
        assert(!changed);
    }
    assert(goods(Aspect::Keys(s), ch) && goods(Aspect::Served, ch)) by { assert forall|j: int| 0 <= j < n implies good(Aspect::Keys(s), #[trigger] ch[j]) && good(Aspect::Served, ch[j]) by { assert(rep(ks[j], ch[j], s)); } }
    assert(node_ok(Aspect::Keys(s), r));
    assert(node_ok(Aspect::Served, r));
    assert forall|c: Config| #[trigger] good(Aspect::Limits(c), i) implies good(Aspect::Limits(c), r) by {
        lemma_same_seal(c, ks, ch, x.level);
        assert(node_ok(Aspect::Limits(c), i));
        assert(node_ok(Aspect::Limits(c), r));
        assert forall|j: int| 0 <= j < n implies good(Aspect::Limits(c), #[trigger] ch[j]) by { assert(rep(ks[j], ch[j], s)); assert(good(Aspect::Limits(c), ks[j])); }
    }
}
pub proof fn lemma_same_take<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>, k: int)
    requires a.len() == b.len(), 0 <= k <= a.len(), forall|j: int| 0 <= j < a.len() ==> a[j].count() == (#[trigger] b[j]).count()
    ensures counts(a.take(k)) == counts(b.take(k))
{ assert forall|j: int| 0 <= j < k implies a.take(k)[j].count() == (#[trigger] b.take(k)[j]).count() by { assert(b[j].count() == a[j].count()); } lemma_same_counts(a.take(k), b.take(k)); }
/// no more purging is needed while the store has what it had
pub open spec fn keeps_serving<L>() -> bool { forall|l: L| #[trigger] served(l) ==> avail(l) }
pub proof fn lemma_repaired<T: TreeTypes>(i: Index<T>, r: Index<T>, s: Secrets)
    requires rep(i, r, s), keeps_serving::<T::Link>()
    ensures good(Aspect::Avail(s), r)
{ reveal(rep); lemma_served(r, s); }
proof fn lemma_served<T: TreeTypes>(r: Index<T>, s: Secrets)
    requires good(Aspect::Keys(s), r), good(Aspect::Served, r), keeps_serving::<T::Link>()
    ensures good(Aspect::Avail(s), r)
    decreases r.level()
{
    assert(node_ok(Aspect::Keys(s), r));
    assert(node_ok(Aspect::Served, r));
    assert(node_ok(Aspect::Avail(s), r));
    if r is Branch && r.link() is Some {
        let ks = kids::<T>(r.link().unwrap()).unwrap();
        assert forall|j: int| 0 <= j < ks.len() implies (#[trigger] ks[j]).level() < r.level() && good(Aspect::Avail(s), ks[j]) by { assert(good(Aspect::Keys(s), ks[j])); assert(good(Aspect::Served, ks[j])); lemma_served(ks[j], s); }
    }
}
/// the first children were repaired
#[verifier::opaque]
pub open spec fn reps<T: TreeTypes>(ks: Seq<Index<T>>, ch: Seq<Index<T>>, k: int, s: Secrets, changed: bool) -> bool {
    &&& ch.len() == ks.len()
    &&& forall|j: int| 0 <= j < k ==> rep(ks[j], #[trigger] ch[j], s)
    &&& forall|j: int| k <= j < ks.len() ==> #[trigger] ch[j] == ks[j]
    &&& !changed ==> ch == ks
    &&& changed ==> exists|j: int| 0 <= j < k && *(#[trigger] ch[j]).link() != *ks[j].link()
}
pub proof fn lemma_reps_start<T: TreeTypes>(ks: Seq<Index<T>>, s: Secrets) ensures reps(ks, ks, 0, s, false) { reveal(reps); }
pub proof fn lemma_reps_step<T: TreeTypes>(ks: Seq<Index<T>>, ch0: Seq<Index<T>>, ch1: Seq<Index<T>>, c: Index<T>, k: int, s: Secrets, changed0: bool, changed1: bool)
    requires 0 <= k < ks.len(), reps(ks, ch0, k, s, changed0), rep(ks[k], c, s),
        *c.link() != *ks[k].link() && changed1 && ch1 == ch0.update(k, c) || *c.link() == *ks[k].link() && changed1 == changed0 && ch1 == ch0
    ensures reps(ks, ch1, k + 1, s, changed1)
{
    reveal(reps);
    if *c.link() == *ks[k].link() { lemma_rep_same(ks[k], c, s); }
    assert forall|j: int| 0 <= j < k + 1 implies rep(ks[j], #[trigger] ch1[j], s) by { if j < k { assert(ch1[j] == ch0[j]); } }
    assert forall|j: int| k + 1 <= j < ks.len() implies #[trigger] ch1[j] == ks[j] by { assert(ch1[j] == ch0[j]); }
    if *c.link() != *ks[k].link() { assert(*ch1[k].link() != *ks[k].link()); }
    else if changed0 { let j = choose|j: int| 0 <= j < k && *(#[trigger] ch0[j]).link() != *ks[j].link(); assert(*ch1[j].link() != *ks[j].link()); }
}
proof fn lemma_rep_same<T: TreeTypes>(i: Index<T>, r: Index<T>, s: Secrets)
    requires rep(i, r, s), *i.link() == *r.link()
    ensures r == i
{ reveal(rep); assert(i == with_link(i, *i.link())); }
pub proof fn lemma_reps_branch<T: TreeTypes>(x: BranchIndex<T>, y: BranchIndex<T>, ch: Seq<Index<T>>, s: Secrets, changed: bool)
    requires wf(bx(x)), x.link is Some, y == (BranchIndex { link: y.link, ..x }), y.link is Some, known(y.link.unwrap()), served(y.link.unwrap()), under_key::<T>(s.index_key, y.link.unwrap()),
        kids::<T>(y.link.unwrap()) == Some(ch), reps(kids::<T>(x.link.unwrap()).unwrap(), ch, kids::<T>(x.link.unwrap()).unwrap().len() as int, s, changed), !changed ==> y == x
    ensures rep(bx(x), bx(y), s), wf(bx(y))
{ reveal(reps); reveal(rep); lemma_rep_branch(x, y, ch, s, changed); }
pub proof fn lemma_repaired_root<T: TreeTypes>(i: Index<T>, s: Secrets)
    ensures forall|r: Index<T>| #[trigger] rep(i, r, s) && keeps_serving::<T::Link>() ==> good(Aspect::Avail(s), r)
{ assert forall|r: Index<T>| #[trigger] rep(i, r, s) && keeps_serving::<T::Link>() implies good(Aspect::Avail(s), r) by { lemma_repaired(i, r, s); } }
}
verus! {
/// all that was written ends before the current position
pub open spec fn all_before<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>, st: StreamBuilderState) -> bool { forall|n: int| n >= st.offset.value && goods(Aspect::Before(n), a) ==> #[trigger] goods(Aspect::Before(n), b) }
pub open spec fn is_before<T: TreeTypes>(a: Index<T>, b: Index<T>, st: StreamBuilderState) -> bool { forall|n: int| n >= st.offset.value && good(Aspect::Before(n), a) ==> #[trigger] good(Aspect::Before(n), b) }
pub proof fn lemma_all_before<T: TreeTypes>(ks: Seq<Index<T>>, ch0: Seq<Index<T>>, ch1: Seq<Index<T>>, k: int, c: Index<T>, s0: StreamBuilderState, s1: StreamBuilderState)
    requires all_before(ks, ch0, s0), 0 <= k < ks.len(), ks.len() == ch0.len(), ch1 == ch0 || ch1 == ch0.update(k, c), is_before(ks[k], c, s1), s0.offset.value <= s1.offset.value
    ensures all_before(ks, ch1, s1)
{
    assert forall|n: int| n >= s1.offset.value && goods(Aspect::Before(n), ks) implies #[trigger] goods(Aspect::Before(n), ch1) by {
        assert(goods(Aspect::Before(n), ch0));
        assert(good(Aspect::Before(n), ks[k]));
        assert forall|j: int| 0 <= j < ch1.len() implies good(Aspect::Before(n), #[trigger] ch1[j]) by { if j != k || ch1 == ch0 { assert(ch1[j] == ch0[j]); } }
    }
}
pub proof fn lemma_branch_before<T: TreeTypes>(x: BranchIndex<T>, y: BranchIndex<T>, ch: Seq<Index<T>>, st: StreamBuilderState)
    requires wf(bx(x)), x.link is Some, y.link is Some, kids::<T>(y.link.unwrap()) == Some(ch), y.level == x.level, wf(bx(y)),
        y.link == x.link || newest(bx(y), st), all_before(kids::<T>(x.link.unwrap()).unwrap(), ch, st)
    ensures is_before(bx(x), bx(y), st)
{
    assert forall|n: int| n >= st.offset.value && good(Aspect::Before(n), bx(x)) implies #[trigger] good(Aspect::Before(n), bx(y)) by {
        assert(node_ok(Aspect::Before(n), bx(x)));
        assert(goods(Aspect::Before(n), kids::<T>(x.link.unwrap()).unwrap()));
        assert(goods(Aspect::Before(n), ch));
        assert(node_ok(Aspect::Before(n), bx(y)));
    }
}
pub proof fn lemma_none_before<T: TreeTypes>(a: Index<T>, b: Index<T>, st: StreamBuilderState)
    requires b.link() is None || a == b
    ensures is_before(a, b, st)
{
    if b.link() is None { assert forall|n: int| #[trigger] good(Aspect::Before(n), b) by { assert(node_ok(Aspect::Before(n), b)); } }
}
}
