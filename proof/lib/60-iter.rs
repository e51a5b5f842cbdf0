verus! {
// ================================================================ iteration
/// a subtree at its place in a tree
pub open spec fn placed<T: TreeTypes>(root: Index<T>, i: Index<T>, o: int) -> bool { wf(i) && 0 <= o && o + i.count() <= root.count() && elems(i) == elems(root).subrange(o, o + i.count()) && elems(i).len() == i.count() && elems(root).len() == root.count() && inherits(root, i) }
/// what holds of all nodes of the tree holds of all nodes of the subtree
#[verifier::opaque]
pub open spec fn inherits<T: TreeTypes>(root: Index<T>, i: Index<T>) -> bool { forall|a: Aspect| good(a, root) ==> #[trigger] good(a, i) }
pub proof fn lemma_placed_child<T: TreeTypes>(root: Index<T>, i: Index<T>, o: int, j: int)
    requires placed(root, i, o), i is Branch, i.link() is Some, 0 <= j < kids_of(i).len()
    ensures placed(root, kids_of(i)[j], o + counts(kids_of(i).take(j))), counts(kids_of(i).take(j + 1)) == counts(kids_of(i).take(j)) + kids_of(i)[j].count(), kids_of(i)[j].level() < i.level(), kids_of(i)[j].count() > 0
{
    let ks = kids_of(i);
    lemma_kids(i);
    lemma_child_elems(ks, j);
    let a = counts(ks.take(j));
    assert(wf(ks[j]));
    assert(inherits(root, ks[j])) by {
        reveal(inherits);
        lemma_good_kids(i);
        assert forall|a: Aspect| good(a, root) implies #[trigger] good(a, ks[j]) by { assert(good(a, i)); assert(goods(a, ks)); }
    }
    assert(elems(ks[j]) =~= elems(root).subrange(o + a, o + a + ks[j].count())) by {
        assert(all_elems(ks).subrange(a, a + ks[j].count()) =~= elems(root).subrange(o + a, o + a + ks[j].count()));
    }
}
pub open spec fn kids_of<T: TreeTypes>(i: Index<T>) -> Seq<Index<T>> { kids::<T>(i.link().unwrap()).unwrap() }
/// where the subtree of the k-th frame starts
pub open spec fn start_of<T: TreeTypes>(s: Seq<TraverseState<T>>, k: int) -> int decreases k { if k <= 0 { 0 } else { start_of(s, k - 1) + counts(kids_of(s[k - 1].index).take(s[k - 1].position as int)) } }
pub open spec fn agree<T: TreeTypes>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, n: int) -> bool { forall|j: int| #![trigger s[j]] #![trigger t[j]] 0 <= j < n ==> s[j] == t[j] }
proof fn lemma_start<T: TreeTypes>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, n: int, k: int)
    requires agree(s, t, n), k <= n
    ensures start_of(s, k) == start_of(t, k) decreases k
{ if k > 0 { lemma_start(s, t, n, k - 1); assert(s[k - 1] == t[k - 1]); } }
/// a branch whose children were looked at: those ruled out hold no match
pub open spec fn sieved<T: TreeTypes, Q: QueryModel<T> + ?Sized>(f: TraverseState<T>, q: &Q, o: int) -> bool {
    &&& f.index is Branch && f.index.link() is Some && f.filter@.len() == kids_of(f.index).len() && f.filter@.len() > 0
    &&& f.filter@.len() <= isize::MAX
    &&& forall|j: int| #![trigger f.filter@[j]] 0 <= j < f.filter@.len() && !f.filter@[j] ==> no_match::<T, Q>(q, o + counts(kids_of(f.index).take(j)), elems(kids_of(f.index)[j]))
}
/// the position of the iterator in its innermost subtree
pub open spec fn top_at<T: TreeTypes, Q: QueryModel<T> + ?Sized>(f: TraverseState<T>, q: &Q, o: int, fwd: bool, off: int) -> bool {
    if f.filter@.len() == 0 { f.position == 0 && off == (if fwd { o } else { o + f.index.count() }) } else {
        &&& sieved(f, q, o)
        &&& if fwd { 0 <= f.position <= f.filter@.len() && off == o + counts(kids_of(f.index).take(f.position as int)) }
            else { -1 <= f.position < f.filter@.len() && off == o + counts(kids_of(f.index).take(f.position + 1)) }
    }
}
#[verifier::opaque]
pub open spec fn inner<T: TreeTypes, Q: QueryModel<T> + ?Sized>(f: TraverseState<T>, next: Index<T>, o: int, q: &Q) -> bool { sieved(f, q, o) && 0 <= f.position < f.filter@.len() && kids_of(f.index)[f.position as int] == next }
#[verifier::opaque]
pub open spec fn frames<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, q: &Q, root: Index<T>) -> bool {
    &&& s.len() > 0
    &&& s[0].index == root
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] placed(root, s[k].index, start_of(s, k))
    &&& forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] inner(s[k], s[k + 1].index, start_of(s, k), q)
}
/// the first n frames are the same
proof fn lemma_same<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, q: &Q, root: Index<T>, n: int)
    requires frames(s, q, root), 0 < n <= s.len(), n <= t.len(), agree(s, t, n - 1), s[n - 1].index == t[n - 1].index
    ensures forall|k: int| 0 <= k < n ==> #[trigger] placed(root, t[k].index, start_of(t, k)), forall|k: int| 0 <= k < n - 1 ==> #[trigger] inner(t[k], t[k + 1].index, start_of(t, k), q), t[0].index == root, start_of(t, n - 1) == start_of(s, n - 1)
{
    reveal(frames);
    lemma_start(s, t, n - 1, n - 1);
    assert forall|k: int| 0 <= k < n implies #[trigger] placed(root, t[k].index, start_of(t, k)) by { lemma_start(s, t, n - 1, k); assert(placed(root, s[k].index, start_of(s, k))); if k < n - 1 { assert(s[k] == t[k]); } }
    assert forall|k: int| 0 <= k < n - 1 implies #[trigger] inner(t[k], t[k + 1].index, start_of(t, k), q) by { lemma_start(s, t, n - 1, k); assert(inner(s[k], s[k + 1].index, start_of(s, k), q)); assert(s[k] == t[k]); if k + 1 < n - 1 { assert(s[k + 1] == t[k + 1]); } }
    if n > 1 { assert(s[0] == t[0]); }
}
pub open spec fn at<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, q: &Q, root: Index<T>, fwd: bool, off: int) -> bool { frames(s, q, root) && top_at(s.last(), q, start_of(s, s.len() - 1), fwd, off) }
pub open spec fn end_of<T: TreeTypes>(root: Index<T>, fwd: bool) -> int { if fwd { root.count() as int } else { 0 } }
/// between two calls
pub open spec fn pos_ok<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, q: &Q, root: Index<T>, fwd: bool, off: int) -> bool { if s.len() == 0 { off == end_of(root, fwd) } else { at(s, q, root, fwd, off) } }
pub open spec fn moved_pos<T: TreeTypes>(f: TraverseState<T>, g: TraverseState<T>, fwd: bool) -> bool { g.index == f.index && g.filter == f.filter && g.position == f.position + (if fwd { 1int } else { -1int }) }
/// the innermost frame is finished
pub open spec fn popped<T: TreeTypes>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, fwd: bool) -> bool {
    &&& t.len() == s.len() - 1
    &&& agree(s, t, t.len() - 1)
    &&& t.len() > 0 ==> moved_pos(s[t.len() - 1], t.last(), fwd)
}
pub proof fn lemma_top<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, q: &Q, root: Index<T>)
    requires frames(s, q, root)
    ensures s.len() > 0, placed(root, s.last().index, start_of(s, s.len() - 1)), s.len() > 1 ==> s[s.len() - 2].filter@.len() > 0 && s[s.len() - 2].filter@.len() <= isize::MAX && 0 <= s[s.len() - 2].position < s[s.len() - 2].filter@.len(), s[0].index == root
{
    reveal(frames);
    assert(placed(root, s[s.len() - 1].index, start_of(s, s.len() - 1)));
    if s.len() > 1 { reveal(inner); let k = s.len() - 2; assert(inner(s[k], s[k + 1].index, start_of(s, k), q)); }
}
pub proof fn lemma_pop<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, q: &Q, root: Index<T>, fwd: bool, off: int)
    requires frames(s, q, root), popped(s, t, fwd), off == start_of(s, s.len() - 1) + (if fwd { s.last().index.count() as int } else { 0 })
    ensures pos_ok(t, q, root, fwd, off)
{
    let n = t.len() as int;
    if n > 0 {
        let k = n - 1;
        assert(inner(s[k], s[k + 1].index, start_of(s, k), q) && placed(root, s[k].index, start_of(s, k))) by { reveal(frames); }
        reveal(inner);
        lemma_placed_child(root, s[k].index, start_of(s, k), s[k].position as int);
        lemma_same(s, t, q, root, n);
        assert(frames(t, q, root)) by { reveal(frames); }
        assert(s[n] == s.last());
    } else { assert(s[0].index == root) by { reveal(frames); } }
}
/// what a call decreases: it ascends, then descends
pub open spec fn phase<T: TreeTypes>(s: Seq<TraverseState<T>>) -> int { if s.len() > 0 && s.last().filter@.len() == 0 { 0 } else { 1 } }
pub open spec fn rank<T: TreeTypes>(s: Seq<TraverseState<T>>) -> int { if phase(s) == 0 { s.last().index.level() as int } else { s.len() as int } }
/// a finished branch
pub proof fn lemma_exhausted<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, q: &Q, root: Index<T>, fwd: bool, off: int)
    requires at(s, q, root, fwd, off), s.last().filter@.len() > 0, if fwd { s.last().position >= s.last().filter@.len() } else { s.last().position < 0 }
    ensures off == start_of(s, s.len() - 1) + (if fwd { s.last().index.count() as int } else { 0 })
{
    lemma_top(s, q, root);
    let ks = kids_of(s.last().index);
    assert(ks.take(ks.len() as int) =~= ks);
    assert(ks.take(0).len() == 0);
}
pub proof fn lemma_push<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, g: TraverseState<T>, t: Seq<TraverseState<T>>, q: &Q, root: Index<T>, fwd: bool, off: int)
    requires at(s, q, root, fwd, off), s.last().filter@.len() > 0, 0 <= s.last().position < s.last().filter@.len(), g.filter@.len() == 0, g.position == 0, g.index == kids_of(s.last().index)[s.last().position as int], t == s.push(g)
    ensures at(t, q, root, fwd, off), g.index.level() < s.last().index.level()
{
    lemma_top(s, q, root);
    let n = s.len() as int;
    let p = s.last().position as int;
    lemma_placed_child(root, s.last().index, start_of(s, n - 1), p);
    lemma_same(s, t, q, root, n);
    assert(start_of(t, n) == start_of(s, n - 1) + counts(kids_of(s.last().index).take(p)));
    assert(inner(t[n - 1], t[n].index, start_of(t, n - 1), q)) by { reveal(inner); }
    assert(frames(t, q, root)) by {
        reveal(frames);
        assert forall|k: int| 0 <= k < t.len() - 1 implies #[trigger] inner(t[k], t[k + 1].index, start_of(t, k), q) by { if k < n - 1 { assert(t[k] == s[k]); } }
    }
    assert(kids_of(s.last().index).take(p + 1) =~= kids_of(s.last().index).take(p).push(kids_of(s.last().index)[p]));
}
/// the innermost frame changed, but not its subtree
pub proof fn lemma_set<T: TreeTypes, Q: QueryModel<T> + ?Sized>(s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, q: &Q, root: Index<T>)
    requires frames(s, q, root), t.len() == s.len(), agree(s, t, s.len() - 1), t.last().index == s.last().index
    ensures frames(t, q, root), start_of(t, t.len() - 1) == start_of(s, s.len() - 1)
{
    assert(s.len() > 0) by { reveal(frames); }
    lemma_same(s, t, q, root, s.len() as int);
    reveal(frames);
}
pub open spec fn brof<T: TreeTypes>(i: Index<T>) -> BranchIndex<T> { *i->Branch_0 }
/// what the query says about the children of a branch
pub proof fn lemma_sieved<T: TreeTypes, Q: QueryModel<T> + ?Sized>(x: BranchIndex<T>, q: &Q, o: int, a: Seq<bool>, b: Seq<bool>, j: int)
    requires wf(bx(x)), x.link is Some, conservative::<T, Q>(q, o, x.count as int, x.summaries.seq(), a, b), a.len() == x.summaries.seq().len(), forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j], 0 <= j < b.len(), !b[j]
    ensures no_match::<T, Q>(q, o + counts(kids_of(bx(x)).take(j)), elems(kids_of(bx(x))[j]))
{
    let i = bx(x);
    let ks = kids_of(i);
    lemma_len(i);
    lemma_kids(i);
    lemma_child_elems(ks, j);
    let c = counts(ks.take(j));
    assert forall|p: int| 0 <= p < elems(ks[j]).len() && (#[trigger] elems(ks[j])[p]) is Some implies !q.matches(o + c + p, elems(ks[j])[p].unwrap().0) by {
        assert(wf(ks[j]));
        lemma_covers(ks[j], p);
        assert(x.summaries.seq()[j] == ks[j].summarize());
        if q.matches(o + c + p, elems(ks[j])[p].unwrap().0) { assert(b[j]); }
    }
}
/// what an iteration gives for a part of the tree
pub open spec fn chunk_of<T: TreeTypes, R, Q: QueryModel<T>, V: TreeVisitor<T, R>>(v: &V, q: &Q, root: Index<T>, a: int, b: int, item: V::Item) -> bool {
    &&& 0 <= a < b <= root.count()
    &&& v.skips(a, b, item) && no_match::<T, Q>(q, a, elems(root).subrange(a, b)) || exists|x: LeafIndex<T>, mask: Seq<bool>| #[trigger] v.yields(a, b, x, mask, item) && of_leaf(x, q, root, a, b, mask)
}
pub open spec fn of_leaf<T: TreeTypes, Q: QueryModel<T>>(x: LeafIndex<T>, q: &Q, root: Index<T>, a: int, b: int, mask: Seq<bool>) -> bool {
    &&& wf(lx(x)) && x.link is Some && elems(lx(x)) == elems(root).subrange(a, b) && mask.len() == b - a && x.keys.seq().len() == b - a
    &&& forall|j: int| 0 <= j < mask.len() ==> #[trigger] mask[j] == q.matches(a + j, x.keys.seq()[j])
}
/// all events can be read
pub open spec fn sound<T: TreeTypes, R, V: TreeVisitor<T, R>>(v: &V, s: Secrets, root: Index<T>) -> bool { good(Aspect::Avail(s), root) && forall|p: int| 0 <= p < elems(root).len() && (#[trigger] elems(root)[p]) is Some ==> v.suits(elems(root)[p].unwrap().1) }
/// so the blocks of its nodes can be read
pub proof fn lemma_sound_branch<T: TreeTypes, R, V: TreeVisitor<T, R>>(v: &V, s: Secrets, root: Index<T>, i: Index<T>, o: int)
    requires placed(root, i, o), i is Branch, i.link() is Some
    ensures sound::<T, R, V>(v, s, root) ==> readable_branch::<T>(s.index_key, i.link().unwrap())
{
    if sound::<T, R, V>(v, s, root) {
        reveal(inherits);
        assert(good(Aspect::Avail(s), i));
        assert(node_ok(Aspect::Avail(s), i));
        lemma_kids(i);
    }
}
pub proof fn lemma_sound_leaf<T: TreeTypes, R, V: TreeVisitor<T, R>>(v: &V, s: Secrets, root: Index<T>, i: Index<T>, o: int)
    requires placed(root, i, o), i is Leaf, i.link() is Some
    ensures sound::<T, R, V>(v, s, root) ==> readable::<T>(s.value_key, i.link().unwrap()) && forall|j: int| 0 <= j < i.count() ==> v.suits(#[trigger] vals(i.link().unwrap()).unwrap()[j])
{
    if sound::<T, R, V>(v, s, root) {
        reveal(inherits);
        assert(good(Aspect::Avail(s), i));
        assert(node_ok(Aspect::Avail(s), i));
        assert forall|j: int| 0 <= j < i.count() implies v.suits(#[trigger] vals(i.link().unwrap()).unwrap()[j]) by {
            assert(elems(i)[j] == elems(root)[o + j]);
            assert(elems(i)[j] is Some);
            assert(elems(i)[j].unwrap().1 == vals(i.link().unwrap()).unwrap()[j]);
        }
    }
}
pub trait TreeVisitor<T: TreeTypes, R> {
    type Item;
    spec fn vok(&self) -> bool;
    spec fn skips(&self, a: int, b: int, item: Self::Item) -> bool;
    spec fn yields(&self, a: int, b: int, x: LeafIndex<T>, mask: Seq<bool>, item: Self::Item) -> bool;
    /// the visitor can decode this value
    spec fn suits(&self, b: Bytes) -> bool;
    fn vx_skip(&self, range: Range<u64>, index: &NodeInfo<T, R>) -> (r: Self::Item)
        requires self.vok()
        ensures self.skips(range.start as int, range.end as int, r);
    fn leaf(&self, range: Range<u64>, index: Arc<LeafIndex<T>>, leaf: LeafLoader<T, R>, mask: &[bool]) -> (r: Result<Self::Item>)
        requires self.vok(), wf(lx(*index)), index.link == Some(leaf.link), mask@.len() == index.keys.seq().len(), range.end - range.start == mask@.len()
        ensures r is Ok ==> self.yields(range.start as int, range.end as int, *index, mask@, r->Ok_0),
            readable::<T>(leaf.secrets.value_key, leaf.link) && (forall|j: int| 0 <= j < mask@.len() ==> self.suits(#[trigger] vals(leaf.link).unwrap()[j])) ==> r is Ok;
}
}
verus! {
pub open spec fn offs(a: int, n: nat) -> Seq<u64> { Seq::new(n, |i: int| (a + i) as u64) }
/// the positions of the items selected by a mask
pub proof fn lemma_filtered(mask: Seq<bool>, a: int, n: int)
    requires 0 <= n <= mask.len()
    ensures forall|t: Seq<bool>, s: Seq<(usize, &bool)>| t.len() >= n && s.len() >= n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 == i) && (forall|i: int| 0 <= i < n ==> #[trigger] t[i] == mask[i]) ==> ({
        let p = #[trigger] picks(t, s, n);
        let o = picks(mask, offs(a, mask.len()), n);
        p.len() == o.len() && forall|k: int| #![trigger p[k]] #![trigger o[k]] 0 <= k < p.len() ==> o[k] == (a + p[k].0) as u64
    })
    decreases n
{
    if n > 0 { lemma_filtered(mask, a, n - 1); }
    assert forall|t: Seq<bool>, s: Seq<(usize, &bool)>| t.len() >= n && s.len() >= n && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 == i) && (forall|i: int| 0 <= i < n ==> #[trigger] t[i] == mask[i]) implies ({
        let p = #[trigger] picks(t, s, n);
        let o = picks(mask, offs(a, mask.len()), n);
        p.len() == o.len() && forall|k: int| #![trigger p[k]] #![trigger o[k]] 0 <= k < p.len() ==> o[k] == (a + p[k].0) as u64
    }) by {
        if n > 0 {
            let p0 = picks(t, s, n - 1);
            let o0 = picks(mask, offs(a, mask.len()), n - 1);
            assert(p0.len() == o0.len());
            assert(t[n - 1] == mask[n - 1]);
            assert(s[n - 1].0 == n - 1);
            assert(offs(a, mask.len())[n - 1] == (a + (n - 1)) as u64);
        }
    }
}
pub proof fn lemma_picks_len<A, B>(take: Seq<bool>, s: Seq<A>, t: Seq<B>, n: int)
    ensures picks(take, s, n).len() == picks(take, t, n).len() decreases n
{ if n > 0 { lemma_picks_len(take, s, t, n - 1); } }
/// the (offset, key, value) triples that a mask selects
pub open spec fn triples<K, V: ReadCbor>(data: Seq<(u64, K, V)>, a: int, keys: Seq<K>, vals: Seq<Bytes>, mask: Seq<bool>) -> bool {
    let n = mask.len() as int;
    &&& data.len() == picks(mask, keys, n).len()
    &&& forall|k: int| #![trigger data[k]] 0 <= k < data.len() ==> data[k].0 == picks(mask, offs(a, mask.len()), n)[k] && data[k].1 == picks(mask, keys, n)[k] && V::rd(picks(mask, vals, n)[k]) == Some(data[k].2)
}
}
verus! {
// ---------------------------------------------------------------- what clients of iterations see
/// an iteration that did not start yet
pub open spec fn starts<T: TreeTypes, R, Q: QueryModel<T>, V: TreeVisitor<T, R>>(it: TreeIter<T, R, Q, V>, s: Secrets, q: Q, root: Index<T>, fwd: bool) -> bool {
    it.secrets == s && it.query == q && (it.mode is Forward) == fwd && it.visitor.vok() && at(it.stack@, &q, root, fwd, it.offset as int) && it.offset == (if fwd { 0 } else { root.count() })
}
pub open spec fn tree_starts<T: TreeTypes, R, Q: QueryModel<T>, V: TreeVisitor<T, R>, A, W>(r: EitherIter<TreeIter<T, R, Q, V>, It<A>>, tree: Tree<T, W>, q: Q, fwd: bool) -> bool {
    match tree.0 { Some((index, secrets, _)) => r is Left && starts(r->Left_0, secrets, q, index, fwd), None => r is Right && r->Right_0@.len() == 0 }
}
/// the events of a sequence that match
pub open spec fn hits<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<Elem<T::Key>>, o: int) -> Seq<(int, T::Key, Bytes)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let h = hits::<T, Q>(q, s.drop_last(), o);
        let p = o + s.len() - 1;
        if s.last() is Some && q.matches(p, s.last().unwrap().0) { h.push((p, s.last().unwrap().0, s.last().unwrap().1)) } else { h }
    }
}
pub open spec fn reads3<K, V: ReadCbor>(d: Seq<(u64, K, V)>, h: Seq<(int, K, Bytes)>) -> bool { d.len() == h.len() && forall|k: int| #![trigger d[k]] #![trigger h[k]] 0 <= k < d.len() ==> d[k].0 == h[k].0 && d[k].1 == h[k].1 && V::rd(h[k].2) == Some(d[k].2) }
pub proof fn lemma_hits_cat<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<Elem<T::Key>>, t: Seq<Elem<T::Key>>, o: int)
    ensures hits::<T, Q>(q, s + t, o) == hits::<T, Q>(q, s, o) + hits::<T, Q>(q, t, o + s.len())
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(hits::<T, Q>(q, s, o) + hits::<T, Q>(q, t, o + s.len()) =~= hits::<T, Q>(q, s, o)); } else {
        lemma_hits_cat::<T, Q>(q, s, t.drop_last(), o);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        assert(hits::<T, Q>(q, s + t, o) =~= hits::<T, Q>(q, s, o) + hits::<T, Q>(q, t, o + s.len()));
    }
}
pub proof fn lemma_hits_none<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<Elem<T::Key>>, o: int)
    requires no_match::<T, Q>(q, o, s)
    ensures hits::<T, Q>(q, s, o).len() == 0
    decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() as int;
        assert forall|p: int| 0 <= p < n - 1 && (#[trigger] s.drop_last()[p]) is Some implies !q.matches(o + p, s.drop_last()[p].unwrap().0) by { assert(s[p] == s.drop_last()[p]); }
        lemma_hits_none::<T, Q>(q, s.drop_last(), o);
        assert(s[n - 1] == s.last());
    }
}
proof fn lemma_hits_leaf<T: TreeTypes, Q: QueryModel<T>>(q: &Q, keys: Seq<T::Key>, vals: Seq<Bytes>, mask: Seq<bool>, o: int, n: int)
    requires 0 <= n <= keys.len(), n <= vals.len(), n <= mask.len(), 0 <= o, o + mask.len() <= u64::MAX, forall|j: int| 0 <= j < n ==> #[trigger] mask[j] == q.matches(o + j, keys[j])
    ensures ({
        let h = hits::<T, Q>(q, Seq::new(n as nat, |j: int| Some((keys[j], vals[j]))), o);
        &&& h.len() == picks(mask, keys, n).len() && picks(mask, vals, n).len() == h.len() && picks(mask, offs(o, mask.len()), n).len() == h.len()
        &&& forall|k: int| #![trigger h[k]] 0 <= k < h.len() ==> h[k].0 == picks(mask, offs(o, mask.len()), n)[k] && h[k].1 == picks(mask, keys, n)[k] && h[k].2 == picks(mask, vals, n)[k]
    })
    decreases n
{
    let s = Seq::new(n as nat, |j: int| Some((keys[j], vals[j])));
    if n > 0 {
        lemma_hits_leaf::<T, Q>(q, keys, vals, mask, o, n - 1);
        assert(s.drop_last() =~= Seq::new((n - 1) as nat, |j: int| Some((keys[j], vals[j]))));
        assert(s.last() == Some((keys[n - 1], vals[n - 1])));
        assert(mask[n - 1] == q.matches(o + (n - 1), keys[n - 1]));
    }
}
/// chunks hold exactly the matches of their range
pub proof fn lemma_chunk<T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: QueryModel<T>, F: Fn(&NodeInfo<T, R>) -> E + Send + Sync + 'static, V: BanyanValue, E>(v: &ChunkVisitor<F, (V, E)>, q: &Q, root: Index<T>, a: int, b: int, item: FilteredChunk<(u64, T::Key, V), E>)
    requires chunk_of::<T, R, Q, ChunkVisitor<F, (V, E)>>(v, q, root, a, b, item), wf(root)
    ensures item.range.start == a, item.range.end == b, reads3(item.data@, hits::<T, Q>(q, elems(root).subrange(a, b), a))
{
    let s = elems(root).subrange(a, b);
    lemma_len(root);
    if v.skips(a, b, item) && no_match::<T, Q>(q, a, s) { lemma_hits_none::<T, Q>(q, s, a); } else {
        let (x, mask) = choose|x: LeafIndex<T>, mask: Seq<bool>| #[trigger] v.yields(a, b, x, mask, item) && of_leaf(x, q, root, a, b, mask);
        let ks = x.keys.seq();
        let vs = vals(x.link.unwrap()).unwrap();
        lemma_hits_leaf::<T, Q>(q, ks, vs, mask, a, mask.len() as int);
        assert(s =~= Seq::new(mask.len(), |j: int| Some((ks[j], vs[j])))) by { assert(elems(lx(x)) == s); }
        assert(triples(item.data@, a, ks, vs, mask));
    }
}
/// a client that reads a tree to its end finds exactly the events that match; it fails only if something can not be read
fn vx_drain<T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: Query<T>, F: Fn(&NodeInfo<T, R>) -> E + Send + Sync + 'static, V: BanyanValue, E>(it: TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>, Ghost(root): Ghost<Index<T>>, Ghost(s): Ghost<Secrets>, Ghost(q): Ghost<Q>) -> (r: Result<Vec<(u64, T::Key, V)>>)
    requires wf(root), starts(it, s, q, root, true)
    ensures r is Ok ==> reads3(r->Ok_0@, hits::<T, Q>(&q, elems(root), 0)),
        r is Err ==> !sound::<T, R, ChunkVisitor<F, (V, E)>>(&it.visitor, s, root)
{
    let mut it = it;
    let ghost v = it.visitor;
    let mut out: Vec<(u64, T::Key, V)> = Vec::new();
    let ghost mut h = Seq::<(int, T::Key, Bytes)>::empty();
    proof { lemma_len(root); lemma_top(it.stack@, &q, root); assert(elems(root).subrange(0, 0) =~= Seq::empty()); }
    loop
        invariant wf(root), elems(root).len() == root.count(), it.visitor == v, it.visitor.vok(), it.query == q, it.secrets == s, it.mode is Forward, 0 <= it.offset <= root.count(),
            pos_ok(it.stack@, &q, root, true, it.offset as int), it.stack@.len() > 0 ==> it.stack@[0].index == root,
            reads3(out@, h), h == hits::<T, Q>(&q, elems(root).subrange(0, it.offset as int), 0)
        decreases root.count() - it.offset
    {
        let ghost a = it.offset as int;
        match it.next() {
            None => { proof { assert(elems(root).subrange(0, root.count() as int) =~= elems(root)); } return Ok(out); }
            Some(Err(e)) => { return Err(e); }
            Some(Ok(c)) => {
                proof {
                    let b = it.offset as int;
                    lemma_chunk::<T, R, Q, F, V, E>(&v, &q, root, a, b, c);
                    lemma_hits_cat::<T, Q>(&q, elems(root).subrange(0, a), elems(root).subrange(a, b), 0);
                    assert(elems(root).subrange(0, a) + elems(root).subrange(a, b) =~= elems(root).subrange(0, b));
                    h = h + hits::<T, Q>(&q, elems(root).subrange(a, b), a);
                    if it.stack@.len() > 0 { reveal(frames); }
                }
                let mut data = c.data;
                out.append(&mut data);
            }
        }
    }
}
/// the same backwards: chunks come in the opposite order
fn vx_drain_rev<T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: Query<T>, F: Fn(&NodeInfo<T, R>) -> E + Send + Sync + 'static, V: BanyanValue, E>(it: TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>, Ghost(root): Ghost<Index<T>>, Ghost(s): Ghost<Secrets>, Ghost(q): Ghost<Q>) -> (r: Result<Vec<(u64, T::Key, V)>>)
    requires wf(root), starts(it, s, q, root, false)
    ensures r is Ok ==> reads3(r->Ok_0@, hits::<T, Q>(&q, elems(root), 0)),
        r is Err ==> !sound::<T, R, ChunkVisitor<F, (V, E)>>(&it.visitor, s, root)
{
    let mut it = it;
    let ghost v = it.visitor;
    let mut out: Vec<(u64, T::Key, V)> = Vec::new();
    let ghost mut h = Seq::<(int, T::Key, Bytes)>::empty();
    proof { lemma_len(root); lemma_top(it.stack@, &q, root); assert(elems(root).subrange(root.count() as int, root.count() as int) =~= Seq::empty()); }
    loop
        invariant wf(root), elems(root).len() == root.count(), it.visitor == v, it.visitor.vok(), it.query == q, it.secrets == s, it.mode is Backward, 0 <= it.offset <= root.count(),
            pos_ok(it.stack@, &q, root, false, it.offset as int), it.stack@.len() > 0 ==> it.stack@[0].index == root,
            reads3(out@, h), h == hits::<T, Q>(&q, elems(root).subrange(it.offset as int, root.count() as int), it.offset as int)
        decreases it.offset
    {
        let ghost b = it.offset as int;
        match it.next() {
            None => { proof { assert(elems(root).subrange(0, root.count() as int) =~= elems(root)); } return Ok(out); }
            Some(Err(e)) => { return Err(e); }
            Some(Ok(c)) => {
                proof {
                    let a = it.offset as int;
                    let n = root.count() as int;
                    lemma_chunk::<T, R, Q, F, V, E>(&v, &q, root, a, b, c);
                    lemma_hits_cat::<T, Q>(&q, elems(root).subrange(a, b), elems(root).subrange(b, n), a);
                    assert(elems(root).subrange(a, b) + elems(root).subrange(b, n) =~= elems(root).subrange(a, n));
                    h = hits::<T, Q>(&q, elems(root).subrange(a, b), a) + h;
                    if it.stack@.len() > 0 { reveal(frames); }
                }
                let mut data = c.data;
                data.append(&mut out);
                out = data;
            }
        }
    }
}
}
verus! {
// ---------------------------------------------------------------- iterators over single events
/// std's flat_map: the items of f(x) for each x of it, in order
pub struct VxFlat<I, F> { pub it: I, pub f: F }
pub trait VxFlatMap: Sized { type Item; fn vx_flat_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: VxFlat<Self, F>) ensures r.it == self, r.f == f; }
impl<T: TreeTypes, R, Q, V: TreeVisitor<T, R>> VxFlatMap for TreeIter<T, R, Q, V> { type Item = Result<V::Item>; fn vx_flat_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: VxFlat<Self, F>) { VxFlat { it: self, f } } }
/// an iterator over the events of a tree that match a query; failures become single items
pub trait EventIter<T: TreeTypes, Q: QueryModel<T>, V> { spec fn lists(&self, s: Secrets, q: Q, root: Index<T>, fwd: bool) -> bool; }
pub type Events<K, V> = EitherIter<It<Result<(u64, K, V)>>, It<Result<(u64, K, V)>>>;
pub open spec fn flat_item<K, V, E>(x: Result<FilteredChunk<(u64, K, V), E>>, o: Events<K, V>) -> bool {
    match x {
        Ok(c) => o is Left && o->Left_0@.len() == c.data@.len() && forall|k: int| 0 <= k < c.data@.len() ==> #[trigger] o->Left_0@[k] == Ok::<(u64, K, V), VxError>(c.data@[k]),
        Err(e) => o is Right && o->Right_0@ == seq![Err::<(u64, K, V), VxError>(e)],
    }
}
impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: QueryModel<T>, F: Fn(&NodeInfo<T, R>) -> E + Send + Sync + 'static, V: BanyanValue, E, G: Fn(Result<FilteredChunk<(u64, T::Key, V), E>>) -> Events<T::Key, V>> EventIter<T, Q, V> for VxFlat<TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>, G> {
    open spec fn lists(&self, s: Secrets, q: Q, root: Index<T>, fwd: bool) -> bool {
        &&& starts(self.it, s, q, root, fwd)
        &&& forall|x: Result<FilteredChunk<(u64, T::Key, V), E>>| #[trigger] call_requires(self.f, (x,))
        &&& forall|x: Result<FilteredChunk<(u64, T::Key, V), E>>, o: Events<T::Key, V>| #[trigger] call_ensures(self.f, (x,), o) ==> flat_item(x, o)
    }
}
pub open spec fn tree_lists<T: TreeTypes, Q: QueryModel<T>, V, W, L: EventIter<T, Q, V>>(r: EitherIter<L, It<Result<(u64, T::Key, V)>>>, tree: Tree<T, W>, q: Q, fwd: bool) -> bool {
    match tree.0 { Some((index, secrets, _)) => r is Left && r->Left_0.lists(secrets, q, index, fwd), None => r is Right && r->Right_0@.len() == 0 }
}
}
