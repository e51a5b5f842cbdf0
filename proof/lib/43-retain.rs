verus! {
// ================================================================ forgetting leaves
pub open spec fn with_link<T: TreeTypes>(i: Index<T>, l: Option<T::Link>) -> Index<T> {
    match i { Index::Leaf(x) => lx(LeafIndex { link: l, ..*x }), Index::Branch(x) => bx(BranchIndex { link: l, ..*x }) }
}
pub open spec fn gone<K>(n: int) -> Seq<Elem<K>> { Seq::new(n as nat, |j: int| None) }
pub open spec fn leaf_keys<T: TreeTypes>(i: Index<T>) -> T::KeySeq { i->Leaf_0.keys }
pub open spec fn branch_summaries<T: TreeTypes>(i: Index<T>) -> T::SummarySeq { i->Branch_0.summaries }
/// the summary of a tree covers the keys of its events
pub proof fn lemma_covers<T: TreeTypes>(i: Index<T>, p: int)
    requires wf(i), 0 <= p < i.count(), elems(i).len() == i.count(), elems(i)[p] is Some
    ensures T::covers(i.summarize(), elems(i)[p].unwrap().0)
    decreases i.level(), 1int, 0int
{
    match i {
        Index::Leaf(_) => { T::law_keys(leaf_keys(i), p); }
        Index::Branch(x) => {
            let ks = kids::<T>(x.link.unwrap()).unwrap();
            lemma_kids(i);
            let k = lemma_find(ks, p);
            lemma_child_elems(ks, k);
            let q = p - counts(ks.take(k));
            assert(elems(ks[k])[q] == all_elems(ks)[p]);
            assert(wf(ks[k]) && ks[k].level() < x.level);
            lemma_len(ks[k]);
            lemma_covers(ks[k], q);
            assert(x.summaries.seq()[k] == ks[k].summarize());
            T::law_summaries(branch_summaries(i), k, elems(i)[p].unwrap().0);
        }
    }
}
/// the child that holds an offset
pub proof fn lemma_find<T: TreeTypes>(s: Seq<Index<T>>, p: int) -> (k: int)
    requires all_wf(s), 0 <= p < counts(s)
    ensures 0 <= k < s.len(), counts(s.take(k)) <= p < counts(s.take(k)) + s[k].count()
    decreases s.len()
{
    let n = s.len() - 1;
    assert(s.take(n) =~= s.drop_last());
    if p >= counts(s.drop_last()) { n } else {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies wf(#[trigger] s.drop_last()[j]) by { assert(s.drop_last()[j] == s[j]); }
        let k = lemma_find(s.drop_last(), p);
        assert(s.take(k) =~= s.drop_last().take(k));
        k
    }
}
/// no event matches
pub open spec fn no_match<T: TreeTypes, Q: QueryModel<T> + ?Sized>(q: &Q, o: int, e: Seq<Elem<T::Key>>) -> bool { forall|p: int| 0 <= p < e.len() && (#[trigger] e[p]) is Some ==> !q.matches(o + p, e[p].unwrap().0) }
/// there is an incomplete leaf
pub open spec fn open<T: TreeTypes>(i: Index<T>) -> bool decreases i.level(), 1int, 0int {
    match i { Index::Leaf(x) => !x.sealed, Index::Branch(x) => x.link is Some && kids_open(kids::<T>(x.link.unwrap()).unwrap(), x.level) }
}
pub open spec fn kids_open<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32) -> bool decreases lvl, 0int, s.len() {
    s.len() > 0 && (kids_open(s.drop_last(), lvl) || s.last().level() < lvl && open(s.last()))
}
/// what retain keeps of a tree at offset o, after incomplete leaves (blk) or not
pub open spec fn kept<T: TreeTypes, Q: QueryModel<T> + ?Sized>(i: Index<T>, q: &Q, o: int, blk: bool) -> Seq<Elem<T::Key>> decreases i.level(), 1int, 0int {
    match i {
        Index::Leaf(x) => if x.sealed && !blk && no_match::<T, Q>(q, o, elems(i)) { gone(i.count() as int) } else { elems(i) },
        Index::Branch(x) => match x.link { Some(l) => kids_kept(kids::<T>(l).unwrap(), x.level, q, o, blk), None => gone(i.count() as int) },
    }
}
pub open spec fn kids_kept<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<Index<T>>, lvl: u32, q: &Q, o: int, blk: bool) -> Seq<Elem<T::Key>> decreases lvl, 0int, s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let d = s.drop_last();
        kids_kept(d, lvl, q, o, blk) + (if s.last().level() < lvl { kept(s.last(), q, o + counts(d), blk || kids_open(d, lvl)) } else { Seq::empty() })
    }
}
/// a complete tree without matches is forgotten completely
pub proof fn lemma_purged<T: TreeTypes, Q: QueryModel<T> + ?Sized>(i: Index<T>, q: &Q, o: int)
    requires wf(i), good(Aspect::Intact, i), i.sealed(), no_match::<T, Q>(q, o, elems(i))
    ensures kept(i, q, o, false) == gone::<T::Key>(i.count() as int), !open(i)
    decreases i.level(), 1int, 0int
{
    lemma_len(i);
    assert(node_ok(Aspect::Intact, i));
    match i {
        Index::Leaf(x) => {}
        Index::Branch(x) => if x.link is Some {
            let ks = kids::<T>(x.link.unwrap()).unwrap();
            lemma_kids(i);
            lemma_purged_kids(ks, x.level, q, o);
            assert(counts(ks) == i.count());
        }
    }
}
proof fn lemma_purged_kids<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<Index<T>>, lvl: u32, q: &Q, o: int)
    requires all_wf(s), goods(Aspect::Intact, s), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < lvl && s[j].sealed(), no_match::<T, Q>(q, o, all_elems(s))
    ensures kids_kept(s, lvl, q, o, false) == gone::<T::Key>(counts(s)), !kids_open(s, lvl), counts(s) >= 0
    decreases lvl, 0int, s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        let n = s.len() - 1;
        lemma_child_elems(s, n);
        assert(s.take(n) =~= d);
        assert(s =~= d.push(s.last()));
        lemma_all_elems_push(d, s.last());
        assert forall|j: int| 0 <= j < d.len() implies wf(#[trigger] d[j]) && good(Aspect::Intact, d[j]) && d[j].level() < lvl && d[j].sealed() by { assert(d[j] == s[j]); }
        lemma_len_wf(d);
        assert(no_match::<T, Q>(q, o, all_elems(d))) by { assert forall|p: int| 0 <= p < all_elems(d).len() && (#[trigger] all_elems(d)[p]) is Some implies !q.matches(o + p, all_elems(d)[p].unwrap().0) by { assert(all_elems(s)[p] == all_elems(d)[p]); } }
        assert(no_match::<T, Q>(q, o + counts(d), elems(s.last()))) by {
            assert forall|p: int| 0 <= p < elems(s.last()).len() && (#[trigger] elems(s.last())[p]) is Some implies !q.matches(o + counts(d) + p, elems(s.last())[p].unwrap().0) by { assert(all_elems(s)[counts(d) + p] == elems(s.last())[p]); }
        }
        lemma_purged_kids(d, lvl, q, o);
        lemma_purged(s.last(), q, o + counts(d));
        assert(kids_kept(s, lvl, q, o, false) =~= gone::<T::Key>(counts(s)));
    } else { assert(kids_kept(s, lvl, q, o, false) =~= gone::<T::Key>(counts(s))); }
}
/// the conservative answer on a branch rules out all its events
pub proof fn lemma_ruled_out<T: TreeTypes, Q: QueryModel<T> + ?Sized>(x: BranchIndex<T>, q: &Q, o: int, a: Seq<bool>, b: Seq<bool>)
    requires wf(bx(x)), conservative::<T, Q>(q, o, x.count as int, x.summaries.seq(), a, b), a.len() == x.summaries.seq().len(), forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j], none(b)
    ensures no_match::<T, Q>(q, o, elems(bx(x)))
{
    let i = bx(x);
    lemma_len(i);
    assert forall|p: int| 0 <= p < elems(i).len() && (#[trigger] elems(i)[p]) is Some implies !q.matches(o + p, elems(i)[p].unwrap().0) by {
        let ks = kids::<T>(x.link.unwrap()).unwrap();
        lemma_kids(i);
        let k = lemma_find(ks, p);
        lemma_child_elems(ks, k);
        let r = p - counts(ks.take(k));
        assert(elems(ks[k])[r] == all_elems(ks)[p]);
        assert(wf(ks[k]));
        lemma_covers(ks[k], r);
        assert(x.summaries.seq()[k] == ks[k].summarize());
        if q.matches(o + p, elems(i)[p].unwrap().0) { assert(b[k]); }
    }
}
/// what retain makes of a tree
#[verifier::opaque]
pub open spec fn ret<T: TreeTypes, Q: QueryModel<T> + ?Sized>(i: Index<T>, r: Index<T>, q: &Q, o: int, l0: int, l1: int) -> bool {
    &&& wf(r)
    &&& r == with_link(i, *r.link())
    &&& i.link() is None ==> r.link() is None
    &&& elems(r) == kept(i, q, o, l0 < 0)
    &&& -1 <= l1 <= l0 && l1 <= i.level()
    &&& (l1 < 0) == (l0 < 0 || open(i))
    &&& ret_walk(i, r, l0, l1)
}
/// the part about completeness
#[verifier::opaque]
pub open spec fn ret_walk<T: TreeTypes>(i: Index<T>, r: Index<T>, l0: int, l1: int) -> bool {
    &&& forall|l: int| #![trigger walk(r, l)] #![trigger walk(i, l)] l >= l0 ==> walk(r, l) == walk(i, l) && walk(i, l) >= l1
    &&& forall|l: int| #![trigger rootable(r, l)] #![trigger rootable(i, l)] l >= l0 && rootable(i, l) ==> rootable(r, l)
}
#[verifier::opaque]
pub open spec fn ret_kwalk<T: TreeTypes>(ks: Seq<Index<T>>, ch: Seq<Index<T>>, lvl: u32, l0: int, l1: int) -> bool {
    &&& forall|l: int| #![trigger kwalk(ch, lvl, l)] l >= l0 ==> kwalk(ch, lvl, l) == kwalk(ks, lvl, l) && kwalk(ks, lvl, l) >= l1
    &&& forall|l: int| #![trigger krootable(ch, lvl, l)] l >= l0 && krootable(ks, lvl, l) ==> krootable(ch, lvl, l)
}
proof fn lemma_kwalk_step<T: TreeTypes>(ks: Seq<Index<T>>, ch: Seq<Index<T>>, k: int, lvl: u32, l0: int, l1: int, l2: int)
    requires 0 <= k < ks.len(), ch.len() == ks.len(), ks[k].level() < lvl, ch[k].level() == ks[k].level(), ret_kwalk(ks.take(k), ch.take(k), lvl, l0, l1), ret_walk(ks[k], ch[k], l1, l2)
    ensures ret_kwalk(ks.take(k + 1), ch.take(k + 1), lvl, l0, l2)
{
    reveal(ret_kwalk);
    reveal(ret_walk);
    assert forall|l: int| #![trigger kwalk(ch.take(k + 1), lvl, l)] l >= l0 implies kwalk(ch.take(k + 1), lvl, l) == kwalk(ks.take(k + 1), lvl, l) && kwalk(ks.take(k + 1), lvl, l) >= l2 by {
        lemma_walk_take(ch, lvl, l, k);
        lemma_walk_take(ks, lvl, l, k);
        assert(kwalk(ch.take(k), lvl, l) == kwalk(ks.take(k), lvl, l));
    }
    assert forall|l: int| #![trigger krootable(ch.take(k + 1), lvl, l)] l >= l0 && krootable(ks.take(k + 1), lvl, l) implies krootable(ch.take(k + 1), lvl, l) by {
        lemma_walk_take(ch, lvl, l, k);
        lemma_walk_take(ks, lvl, l, k);
        assert(kwalk(ch.take(k), lvl, l) == kwalk(ks.take(k), lvl, l));
        assert(krootable(ch.take(k), lvl, l));
    }
}
/// the first children of a branch were visited
#[verifier::opaque]
pub open spec fn ret_kids<T: TreeTypes, Q: QueryModel<T> + ?Sized>(ks: Seq<Index<T>>, ch: Seq<Index<T>>, k: int, lvl: u32, q: &Q, o: int, l0: int, l1: int) -> bool {
    &&& ch.len() == ks.len()
    &&& forall|j: int| k <= j < ks.len() ==> ch[j] == #[trigger] ks[j]
    &&& forall|j: int| 0 <= j < k ==> wf(#[trigger] ch[j]) && ch[j] == with_link(ks[j], *ch[j].link())
    &&& all_elems(ch.take(k)) == kids_kept(ks.take(k), lvl, q, o, l0 < 0)
    &&& -1 <= l1 <= l0
    &&& (l1 < 0) == (l0 < 0 || kids_open(ks.take(k), lvl))
    &&& ret_kwalk(ks.take(k), ch.take(k), lvl, l0, l1)
}
pub proof fn lemma_ret_start<T: TreeTypes, Q: QueryModel<T> + ?Sized>(ks: Seq<Index<T>>, lvl: u32, q: &Q, o: int, l0: int)
    requires -1 <= l0
    ensures ret_kids(ks, ks, 0, lvl, q, o, l0, l0)
{
    reveal(ret_kids);
    reveal(ret_kwalk);
    assert(ks.take(0) =~= Seq::empty());
    assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::empty());
}
/// one more child
pub proof fn lemma_ret_step<T: TreeTypes, Q: QueryModel<T> + ?Sized>(ks: Seq<Index<T>>, ch0: Seq<Index<T>>, ch1: Seq<Index<T>>, c: Index<T>, k: int, lvl: u32, q: &Q, o: int, l0: int, l1: int, l2: int)
    requires 0 <= k < ks.len(), ks[k].level() < lvl, ret_kids(ks, ch0, k, lvl, q, o, l0, l1), ret(ks[k], c, q, o + counts(ks.take(k)), l1, l2),
        ch1 == ch0.update(k, c) || ch1 == ch0 && c.link() == ks[k].link()
    ensures ret_kids(ks, ch1, k + 1, lvl, q, o, l0, l2), ch1 == ch0.update(k, c)
{
    reveal(ret_kids);
    reveal(ret);
    assert(c == with_link(ks[k], *c.link()));
    if ch1 == ch0 { assert(c == ks[k]); assert(ch0[k] == c); assert(ch1 =~= ch0.update(k, c)); }
    assert(ch1.take(k) =~= ch0.take(k));
    assert(ch1[k] == c);
    assert(ks.take(k + 1).drop_last() =~= ks.take(k));
    lemma_all_elems_take(ch1, k);
    assert forall|j: int| 0 <= j < k + 1 implies wf(#[trigger] ch1[j]) && ch1[j] == with_link(ks[j], *ch1[j].link()) by { if j < k { assert(ch1[j] == ch0[j]); } }
    lemma_kwalk_step(ks, ch1, k, lvl, l0, l1, l2);
    assert(ks.take(k + 1).last() == ks[k]);
    assert(kids_kept(ks.take(k + 1), lvl, q, o, l0 < 0) == kids_kept(ks.take(k), lvl, q, o, l0 < 0) + kept(ks[k], q, o + counts(ks.take(k)), l0 < 0 || kids_open(ks.take(k), lvl)));
    assert(kids_open(ks.take(k + 1), lvl) == (kids_open(ks.take(k), lvl) || open(ks[k])));
    assert(elems(c) == kept(ks[k], q, o + counts(ks.take(k)), l1 < 0));
    assert(all_elems(ch1.take(k + 1)) == kids_kept(ks.take(k + 1), lvl, q, o, l0 < 0));
}
/// all children were visited
pub proof fn lemma_ret_branch<T: TreeTypes, Q: QueryModel<T> + ?Sized>(x: BranchIndex<T>, y: BranchIndex<T>, ch: Seq<Index<T>>, q: &Q, o: int, l0: int, l1: int, l2: int)
    requires wf(bx(x)), x.link is Some, -1 <= l0, l1 == (if x.sealed && x.level <= l0 { x.level as int } else { min(l0, x.level - 1) }),
        ret_kids(kids::<T>(x.link.unwrap()).unwrap(), ch, kids::<T>(x.link.unwrap()).unwrap().len() as int, x.level, q, o, l1, l2),
        y == (BranchIndex { link: y.link, ..x }), y.link is Some, known(y.link.unwrap()), kids::<T>(y.link.unwrap()) == Some(ch)
    ensures ret(bx(x), bx(y), q, o, l0, l2)
{
    reveal(ret_kids);
    reveal(ret);
    reveal(ret_walk);
    reveal(ret_kwalk);
    let i = bx(x);
    let r = bx(y);
    let ks = kids::<T>(x.link.unwrap()).unwrap();
    let n = ks.len() as int;
    assert(ks.take(n) =~= ks);
    assert(ch.take(n) =~= ch);
    assert(forall|j: int| 0 <= j < n ==> (#[trigger] ks[j]).level() < x.level);
    assert forall|j: int| 0 <= j < n implies (#[trigger] ch[j]).level() < x.level && wf(ch[j]) && ch[j].count() == ks[j].count() && ch[j].summarize() == ks[j].summarize() && ch[j].level() == ks[j].level() by { assert(ks[j].level() < x.level); }
    let w = choose|j: int| 0 <= j < n && (#[trigger] ks[j]).level() == x.level - 1;
    assert(ch[w].level() == x.level - 1);
    assert(summs(ch) =~= summs(ks)) by { assert forall|j: int| 0 <= j < n implies #[trigger] summs(ch)[j] == summs(ks)[j] by { assert(ch[j].summarize() == ks[j].summarize()); } }
    lemma_same_counts(ks, ch);
    assert(branch_of(y, ch));
    lemma_kids(r);
    assert(elems(r) == kept(i, q, o, l0 < 0));
    assert forall|l: int| #![trigger walk(r, l)] #![trigger walk(i, l)] l >= l0 implies walk(r, l) == walk(i, l) && walk(i, l) >= l2 by {
        let m = min(l, x.level - 1);
        if !(x.sealed && x.level <= l) { assert(kwalk(ch.take(n), x.level, m) == kwalk(ks.take(n), x.level, m)); }
    }
    assert forall|l: int| #![trigger rootable(r, l)] #![trigger rootable(i, l)] l >= l0 && rootable(i, l) implies rootable(r, l) by {
        let m = min(l, x.level - 1);
        if !(x.sealed && x.level <= l) { assert(krootable(ks.take(n), x.level, m)); assert(krootable(ch.take(n), x.level, m)); }
    }
}
pub proof fn lemma_same_counts<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>)
    requires a.len() == b.len(), forall|j: int| 0 <= j < a.len() ==> a[j].count() == (#[trigger] b[j]).count()
    ensures counts(a) == counts(b)
    decreases a.len()
{ if a.len() > 0 { assert(b[a.len() - 1].count() == a[a.len() - 1].count()); assert forall|j: int| 0 <= j < a.drop_last().len() implies a.drop_last()[j].count() == (#[trigger] b.drop_last()[j]).count() by { assert(b.drop_last()[j] == b[j]); } lemma_same_counts(a.drop_last(), b.drop_last()); } }
/// a tree that is not there any more, or was complete without matches
pub proof fn lemma_ret_none<T: TreeTypes, Q: QueryModel<T> + ?Sized>(x: BranchIndex<T>, y: BranchIndex<T>, q: &Q, o: int, l0: int, l1: int)
    requires wf(bx(x)), good(Aspect::Intact, bx(x)), -1 <= l0, l1 == (if x.sealed && x.level <= l0 { x.level as int } else { min(l0, x.level - 1) }),
        y == (BranchIndex { link: None, ..x }), x.link is None || x.sealed && x.level <= l0 && no_match::<T, Q>(q, o, elems(bx(x)))
    ensures ret(bx(x), bx(y), q, o, l0, l1)
{
    reveal(ret);
    reveal(ret_walk);
    lemma_len(bx(x));
    if x.link is Some { lemma_purged(bx(x), q, o); } else { assert(x == y); }
    assert(elems(bx(y)) =~= gone::<T::Key>(x.count as int));
}
pub proof fn lemma_ret_leaf<T: TreeTypes, Q: QueryModel<T> + ?Sized>(x: LeafIndex<T>, y: LeafIndex<T>, q: &Q, o: int, l0: int, l1: int)
    requires wf(lx(x)), -1 <= l0, l1 == (if x.sealed && 0 <= l0 { 0int } else { -1 }), y == (LeafIndex { link: y.link, ..x }),
        y.link == (if x.sealed && x.link is Some && l1 >= 0 && none_of::<T, Q>(q, o, x.keys.seq()) { None } else { x.link })
    ensures ret(lx(x), lx(y), q, o, l0, l1)
{
    reveal(ret);
    reveal(ret_walk);
    let i = lx(x);
    if x.link is Some {
        assert forall|j: int| 0 <= j < x.keys.seq().len() implies #[trigger] elems(i)[j] is Some && elems(i)[j].unwrap().0 == x.keys.seq()[j] by {}
        if no_match::<T, Q>(q, o, elems(i)) {
            assert forall|j: int| 0 <= j < x.keys.seq().len() implies !#[trigger] q.matches(o + j, x.keys.seq()[j]) by { assert(elems(i)[j] is Some); }
        }
    } else { assert(elems(i) =~= gone(i.count() as int)); assert(x == y); }
    assert(elems(lx(y)) =~= kept(i, q, o, l0 < 0));
}
/// what stays true of the nodes
pub proof fn lemma_ret_good<T: TreeTypes>(x: BranchIndex<T>, y: BranchIndex<T>, ch: Seq<Index<T>>, st: StreamBuilderState)
    requires wf(bx(x)), x.link is Some, y == (BranchIndex { link: y.link, ..x }), y.link is Some, kids::<T>(y.link.unwrap()) == Some(ch), y.link == x.link || under_key::<T>(st.secrets.index_key, y.link.unwrap()) && served(y.link.unwrap()) && newest(bx(y), st),
        ch.len() == kids::<T>(x.link.unwrap()).unwrap().len(), forall|j: int| 0 <= j < ch.len() ==> #[trigger] ch[j] == with_link(kids::<T>(x.link.unwrap()).unwrap()[j], *ch[j].link())
    ensures forall|a: Aspect| keeps(a, st) && a != Aspect::Linked && good(a, bx(x)) && goods(a, ch) ==> #[trigger] good(a, bx(y))
{
    let ks = kids::<T>(x.link.unwrap()).unwrap();
    assert forall|j: int| 0 <= j < ch.len() implies (#[trigger] ch[j]).level() == ks[j].level() && ch[j].sealed() == ks[j].sealed() && ch[j].level() < x.level by { assert(ch[j] == with_link(ks[j], *ch[j].link())); assert(ks[j].level() < x.level); }
    assert forall|j: int| 0 <= j < ch.len() implies (#[trigger] ks[j]).level() == ch[j].level() && ch[j].sealed() == ks[j].sealed() by { assert(ch[j] == with_link(ks[j], *ch[j].link())); }
    assert forall|a: Aspect| keeps(a, st) && a != Aspect::Linked && good(a, bx(x)) && goods(a, ch) implies #[trigger] good(a, bx(y)) by {
        assert(node_ok(a, bx(x)));
        match a {
            Aspect::Limits(c) => { lemma_same_seal(c, ks, ch, x.level); }
            _ => {}
        }
        assert(node_ok(a, bx(y)));
    }
}
pub proof fn lemma_same_seal<T: TreeTypes>(c: Config, ks: Seq<Index<T>>, ch: Seq<Index<T>>, level: u32)
    requires ks.len() == ch.len(), forall|j: int| 0 <= j < ch.len() ==> (#[trigger] ch[j]).level() == ks[j].level() && ch[j].sealed() == ks[j].sealed()
    ensures seal(c, ks, level) == seal(c, ch, level)
{
    if seal(c, ch, level) { assert forall|j: int| 0 <= j < ks.len() implies #[trigger] ks[j].sealed() && ks[j].level() == level - 1 by { assert(ch[j].sealed()); } }
}
}
verus! {
/// what the references point to
pub open spec fn drefs<'a, A>(s: Seq<&'a A>) -> Seq<A> { Seq::new(s.len(), |j: int| *s[j]) }
pub proof fn lemma_count_take<T: TreeTypes>(s: Seq<Index<T>>, k: int)
    requires 0 <= k < s.len()
    ensures counts(s.take(k + 1)) == counts(s.take(k)) + s[k].count(), 0 <= counts(s.take(k)) <= counts(s), counts(s.take(k + 1)) <= counts(s)
{ lemma_all_elems_take(s, k); lemma_counts_mono(s, k); lemma_counts_mono(s, k + 1); }
}
verus! {
pub trait VxArc<A> { fn vx_as_ref(&self) -> (r: &A); }
impl<A> VxArc<A> for Arc<A> { fn vx_as_ref(&self) -> (r: &A) ensures *r == **self { &**self } }
impl BoolSliceExt for Vec<bool> {
    open spec fn bs(&self) -> Seq<bool> { self@ }
    fn vx_any(&self) -> (r: bool) { let s = self.as_slice(); let r = s.vx_any(); proof { assert(s.bs() == self@); } r }
}
pub open spec fn branch_ix<T: TreeTypes>(i: Index<T>) -> BranchIndex<T> { *i->Branch_0 }
pub open spec fn leaf_ix<T: TreeTypes>(i: Index<T>) -> LeafIndex<T> { *i->Leaf_0 }
pub open spec fn none(b: Seq<bool>) -> bool { forall|j: int| 0 <= j < b.len() ==> !#[trigger] b[j] }
/// the exact answer on a leaf
pub open spec fn none_of<T: TreeTypes, Q: QueryModel<T> + ?Sized>(q: &Q, o: int, keys: Seq<T::Key>) -> bool { forall|j: int| 0 <= j < keys.len() ==> !#[trigger] q.matches(o + j, keys[j]) }
pub proof fn lemma_mask<T: TreeTypes, Q: QueryModel<T> + ?Sized>(q: &Q, o: int, keys: Seq<T::Key>, a: Seq<bool>, b: Seq<bool>)
    requires exact::<T, Q>(q, o, keys, a, b), a.len() == keys.len(), forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j]
    ensures none(b) == none_of::<T, Q>(q, o, keys)
{
    if none(b) { assert forall|j: int| 0 <= j < keys.len() implies !#[trigger] q.matches(o + j, keys[j]) by { assert(!b[j]); } }
    if none_of::<T, Q>(q, o, keys) { assert forall|j: int| 0 <= j < b.len() implies !#[trigger] b[j] by { assert(!q.matches(o + j, keys[j])); } }
}
pub proof fn lemma_counts_take<T: TreeTypes>(s: Seq<Index<T>>) ensures forall|j: int| 0 <= j <= s.len() ==> 0 <= #[trigger] counts(s.take(j)) <= counts(s)
{ assert forall|j: int| 0 <= j <= s.len() implies 0 <= #[trigger] counts(s.take(j)) <= counts(s) by { lemma_counts_mono(s, j); } }
/// the aspects of all nodes that retain keeps
pub open spec fn still_good<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>, st: StreamBuilderState) -> bool {
    forall|x: Aspect| keeps(x, st) && x != Aspect::Linked && goods(x, a) ==> #[trigger] goods(x, b)
}
pub proof fn lemma_still_good<T: TreeTypes>(ks: Seq<Index<T>>, ch0: Seq<Index<T>>, ch1: Seq<Index<T>>, k: int, c: Index<T>, st0: StreamBuilderState, st: StreamBuilderState)
    requires still_good(ks, ch0, st0), st.secrets == st0.secrets, st.config == st0.config, st0.offset.value <= st.offset.value, 0 <= k < ks.len(), ch0.len() == ks.len(), ch1 == ch0.update(k, c), forall|x: Aspect| keeps(x, st) && x != Aspect::Linked && good(x, ks[k]) ==> #[trigger] good(x, c)
    ensures still_good(ks, ch1, st)
{
    assert forall|x: Aspect| keeps(x, st) && x != Aspect::Linked && goods(x, ks) implies #[trigger] goods(x, ch1) by {
        assert(goods(x, ch0));
        assert(good(x, ks[k]));
        assert forall|j: int| 0 <= j < ch1.len() implies good(x, #[trigger] ch1[j]) by { if j != k { assert(ch1[j] == ch0[j]); } }
    }
}
}
verus! {
/// nothing was written, or this was written last
pub open spec fn settled<T: TreeTypes>(r: Index<T>, s1: StreamBuilderState, i: Index<T>, s0: StreamBuilderState) -> bool {
    s1.offset.value == s0.offset.value && (r.link() == i.link() || r.link() is None) || r.link() is Some && newest(r, s1)
}
pub open spec fn free_from<T: TreeTypes>(i: Index<T>, s: StreamBuilderState) -> bool { good(Aspect::Before(s.offset.value as int), i) }
/// a child that still has its link
pub proof fn lemma_settled<T: TreeTypes>(ix: Index<T>, ks: Seq<Index<T>>, k: int, c: Index<T>, s0: StreamBuilderState, s1: StreamBuilderState, s2: StreamBuilderState)
    requires ix is Branch, ix.link() is Some, kids::<T>(ix.link().unwrap()) == Some(ks), 0 <= k < ks.len(), s0.offset.value <= s1.offset.value <= s2.offset.value, free_from(ks[k], s1) ==> settled(c, s2, ks[k], s1), free_from(ix, s0)
    ensures free_from(ks[k], s1), c.link() == ks[k].link() ==> s2.offset.value == s1.offset.value
{
    assert(good(Aspect::Before(s0.offset.value as int), ks[k]));
    lemma_before(ks[k], s0.offset.value as int, s1.offset.value as int);
    assert(node_ok(Aspect::Before(s1.offset.value as int), ks[k]));
}
}
