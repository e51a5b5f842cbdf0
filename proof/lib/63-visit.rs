verus! {
// ================================================================ iteration over nodes
/// the children of a branch in the order of the iteration
pub open spec fn nth_kid(n: int, fwd: bool, t: int) -> int { if fwd { t } else { n - 1 - t } }
/// how many children were passed
pub open spec fn passed<T: TreeTypes>(f: TraverseState<T>, fwd: bool) -> int { if fwd { f.position as int } else { f.filter@.len() - 1 - f.position } }
pub open spec fn inside<T: TreeTypes>(i: Index<T>) -> bool { i is Branch && i.link() is Some }
/// a choice of children: those left out hold no match
pub open spec fn choice<T: TreeTypes, Q: QueryModel<T>>(m: Seq<bool>, i: Index<T>, q: &Q, o: int) -> bool {
    &&& m.len() == kids_of(i).len()
    &&& forall|j: int| #![trigger m[j]] 0 <= j < m.len() && !m[j] ==> no_match::<T, Q>(q, o + counts(kids_of(i).take(j)), elems(kids_of(i)[j]))
}
/// a list of nodes is a node, and the lists of its chosen children, in order: parents come before
/// children, every node at most once, and nodes that hold a match are never left out
pub open spec fn visits<T: TreeTypes, Q: QueryModel<T>>(q: &Q, i: Index<T>, o: int, fwd: bool, h: Seq<Index<T>>) -> bool decreases i.level(), 1int, 0int {
    &&& h.len() > 0 && h[0] == i
    &&& if inside(i) { exists|m: Seq<bool>| #[trigger] choice::<T, Q>(m, i, q, o) && run(q, i, o, m, fwd, m.len() as int, h.skip(1)) } else { h.len() == 1 }
}
/// the lists of the first t children
pub open spec fn run<T: TreeTypes, Q: QueryModel<T>>(q: &Q, i: Index<T>, o: int, m: Seq<bool>, fwd: bool, t: int, h: Seq<Index<T>>) -> bool decreases i.level(), 0int, t {
    if t <= 0 { h.len() == 0 } else {
        let j = nth_kid(kids_of(i).len() as int, fwd, t - 1);
        exists|n: int| 0 <= n <= h.len() && run(q, i, o, m, fwd, t - 1, #[trigger] h.take(n)) && (if m[j] { kids_of(i)[j].level() < i.level() && visits(q, kids_of(i)[j], o + counts(kids_of(i).take(j)), fwd, h.skip(n)) } else { n == h.len() })
    }
}
/// what was visited before the k-th frame
pub open spec fn pre<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, k: int, fwd: bool, h: Seq<Index<T>>) -> bool decreases k {
    if k <= 0 { h.len() == 0 } else {
        exists|n: int| 0 <= n < h.len() && pre(q, s, k - 1, fwd, #[trigger] h.take(n)) && h[n] == s[k - 1].index && run(q, s[k - 1].index, start_of(s, k - 1), s[k - 1].filter@, fwd, passed(s[k - 1], fwd), h.skip(n + 1))
    }
}
pub open spec fn fresh<T: TreeTypes>(f: TraverseState<T>) -> bool { f.filter@.len() == 0 }
#[verifier::opaque]
pub open spec fn hist<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, root: Index<T>, fwd: bool, h: Seq<Index<T>>) -> bool {
    if s.len() == 0 { visits(q, root, 0, fwd, h) } else {
        &&& forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] s[k]).filter@[s[k].position as int]
        &&& pre(q, s, if fresh(s.last()) { s.len() - 1 } else { s.len() as int }, fwd, h)
    }
}
proof fn lemma_pre_same<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, k: int, fwd: bool, h: Seq<Index<T>>)
    requires agree(s, t, k), pre(q, s, k, fwd, h)
    ensures pre(q, t, k, fwd, h)
    decreases k
{
    if k > 0 {
        let n = choose|n: int| 0 <= n < h.len() && pre(q, s, k - 1, fwd, #[trigger] h.take(n)) && h[n] == s[k - 1].index && run(q, s[k - 1].index, start_of(s, k - 1), s[k - 1].filter@, fwd, passed(s[k - 1], fwd), h.skip(n + 1));
        lemma_pre_same(q, s, t, k - 1, fwd, h.take(n));
        lemma_start(s, t, k, k - 1);
        assert(s[k - 1] == t[k - 1]);
        assert(pre(q, t, k - 1, fwd, h.take(n)));
    }
}
/// the part p of the child that the frame k - 1 points at was visited
proof fn lemma_pre_add<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, k: int, fwd: bool, h: Seq<Index<T>>, p: Seq<Index<T>>)
    requires 0 < k <= s.len(), k <= t.len(), agree(s, t, k - 1), moved_pos(s[k - 1], t[k - 1], fwd), pre(q, s, k, fwd, h), sieved(s[k - 1], q, start_of(s, k - 1)), 0 <= s[k - 1].position < s[k - 1].filter@.len(),
        ({ let f = s[k - 1]; let j = f.position as int; if f.filter@[j] { kids_of(f.index)[j].level() < f.index.level() && visits(q, kids_of(f.index)[j], start_of(s, k - 1) + counts(kids_of(f.index).take(j)), fwd, p) } else { p.len() == 0 } })
    ensures pre(q, t, k, fwd, h + p)
{
    let f = s[k - 1];
    let n = choose|n: int| 0 <= n < h.len() && pre(q, s, k - 1, fwd, #[trigger] h.take(n)) && h[n] == s[k - 1].index && run(q, s[k - 1].index, start_of(s, k - 1), s[k - 1].filter@, fwd, passed(s[k - 1], fwd), h.skip(n + 1));
    lemma_pre_same(q, s, t, k - 1, fwd, h.take(n));
    lemma_start(s, t, k - 1, k - 1);
    let g = h + p;
    assert(g.take(n) =~= h.take(n));
    let a = g.skip(n + 1);
    let b = h.skip(n + 1);
    assert(a =~= b + p);
    assert(a.take(b.len() as int) =~= b);
    assert(a.skip(b.len() as int) =~= p);
    let c = passed(f, fwd);
    assert(nth_kid(kids_of(f.index).len() as int, fwd, c) == f.position);
    assert(run(q, f.index, start_of(s, k - 1), f.filter@, fwd, c, a.take(b.len() as int)));
    assert(run(q, f.index, start_of(s, k - 1), f.filter@, fwd, c + 1, a));
    assert(pre(q, t, k - 1, fwd, g.take(n)));
}
/// the innermost frame is finished, and its subtree gave p
proof fn lemma_hist_pop<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool, h: Seq<Index<T>>, p: Seq<Index<T>>)
    requires frames(s, q, root), popped(s, t, fwd), pre(q, s, s.len() - 1, fwd, h), forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] s[k]).filter@[s[k].position as int],
        visits(q, s.last().index, start_of(s, s.len() - 1), fwd, p)
    ensures hist(q, t, root, fwd, h + p)
{
    reveal(hist);
    lemma_top(s, q, root);
    let n = t.len() as int;
    if n == 0 { assert(h + p =~= p); } else {
        let k = n - 1;
        assert(inner(s[k], s[k + 1].index, start_of(s, k), q) && placed(root, s[k].index, start_of(s, k))) by { reveal(frames); }
        reveal(inner);
        lemma_placed_child(root, s[k].index, start_of(s, k), s[k].position as int);
        assert(s[n] == s.last());
        lemma_pre_add(q, s, t, n, fwd, h, p);
        assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).filter@[t[i].position as int] by { assert(s[i] == t[i]); }
    }
}
/// a leaf, or a purged node
pub proof fn lemma_hist_single<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool)
    requires frames(s, q, root), popped(s, t, fwd), fresh(s.last()), !inside(s.last().index)
    ensures forall|h: Seq<Index<T>>| hist(q, s, root, fwd, h) ==> #[trigger] hist(q, t, root, fwd, h.push(s.last().index))
{
    lemma_top(s, q, root);
    assert forall|h: Seq<Index<T>>| hist(q, s, root, fwd, h) implies #[trigger] hist(q, t, root, fwd, h.push(s.last().index)) by {
        reveal(hist);
        let p = seq![s.last().index];
        lemma_hist_pop(q, s, t, root, fwd, h, p);
        assert(h + p =~= h.push(s.last().index));
    }
}
/// a finished branch
pub proof fn lemma_hist_up<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool, off: int)
    requires at(s, q, root, fwd, off), popped(s, t, fwd), !fresh(s.last()), passed(s.last(), fwd) >= s.last().filter@.len()
    ensures forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) ==> hist(q, t, root, fwd, h)
{
    lemma_top(s, q, root);
    assert forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) implies hist(q, t, root, fwd, h) by {
        reveal(hist);
        let k = s.len() as int;
        let f = s.last();
        let n = choose|n: int| 0 <= n < h.len() && pre(q, s, k - 1, fwd, #[trigger] h.take(n)) && h[n] == s[k - 1].index && run(q, s[k - 1].index, start_of(s, k - 1), s[k - 1].filter@, fwd, passed(s[k - 1], fwd), h.skip(n + 1));
        let p = h.skip(n);
        assert(p.skip(1) =~= h.skip(n + 1));
        assert(choice::<T, Q>(f.filter@, f.index, q, start_of(s, k - 1)));
        assert(visits(q, f.index, start_of(s, k - 1), fwd, p));
        lemma_hist_pop(q, s, t, root, fwd, h.take(n), p);
        assert(h.take(n) + p =~= h);
    }
}
/// a branch is visited before its children
pub proof fn lemma_hist_open<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool)
    requires s.len() > 0, fresh(s.last()), t.len() == s.len(), agree(s, t, s.len() - 1), t.last().index == s.last().index, !fresh(t.last()), passed(t.last(), fwd) == 0
    ensures forall|h: Seq<Index<T>>| hist(q, s, root, fwd, h) ==> #[trigger] hist(q, t, root, fwd, h.push(s.last().index))
{
    assert forall|h: Seq<Index<T>>| hist(q, s, root, fwd, h) implies #[trigger] hist(q, t, root, fwd, h.push(s.last().index)) by {
        reveal(hist);
        let k = s.len() as int;
        let n = h.len() as int;
        let g = h.push(s.last().index);
        lemma_pre_same(q, s, t, k - 1, fwd, h);
        assert(g.take(n) =~= h);
        assert(pre(q, t, k - 1, fwd, g.take(n)));
        assert(g[n] == t[k - 1].index);
        assert(g.skip(n + 1).len() == 0);
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] t[i]).filter@[t[i].position as int] by { assert(s[i] == t[i]); }
    }
}
/// into a child
pub proof fn lemma_hist_down<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, g: TraverseState<T>, root: Index<T>, fwd: bool)
    requires s.len() > 0, !fresh(s.last()), 0 <= s.last().position < s.last().filter@.len(), s.last().filter@[s.last().position as int], fresh(g), t == s.push(g)
    ensures forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) ==> hist(q, t, root, fwd, h)
{
    assert forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) implies hist(q, t, root, fwd, h) by {
        reveal(hist);
        lemma_pre_same(q, s, t, s.len() as int, fwd, h);
        assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).filter@[t[i].position as int] by { assert(s[i] == t[i]); }
    }
}
/// past a child that was ruled out
pub proof fn lemma_hist_past<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool, off: int)
    requires at(s, q, root, fwd, off), !fresh(s.last()), 0 <= s.last().position < s.last().filter@.len(), !s.last().filter@[s.last().position as int], t.len() == s.len(), agree(s, t, s.len() - 1), moved_pos(s.last(), t.last(), fwd)
    ensures forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) ==> hist(q, t, root, fwd, h)
{
    lemma_top(s, q, root);
    assert forall|h: Seq<Index<T>>| #[trigger] hist(q, s, root, fwd, h) implies hist(q, t, root, fwd, h) by {
        reveal(hist);
        let e = Seq::<Index<T>>::empty();
        lemma_pre_add(q, s, t, s.len() as int, fwd, h, e);
        assert(h + e =~= h);
        assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).filter@[t[i].position as int] by { assert(s[i] == t[i]); }
    }
}
/// the position moved past a child
pub proof fn lemma_at_past<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, t: Seq<TraverseState<T>>, root: Index<T>, fwd: bool, off: int, off2: int)
    requires at(s, q, root, fwd, off), !fresh(s.last()), 0 <= s.last().position < s.last().filter@.len(), t.len() == s.len(), agree(s, t, s.len() - 1), moved_pos(s.last(), t.last(), fwd),
        off2 == off + (if fwd { kids_of(s.last().index)[s.last().position as int].count() as int } else { -kids_of(s.last().index)[s.last().position as int].count() })
    ensures at(t, q, root, fwd, off2)
{
    lemma_top(s, q, root);
    lemma_set(s, t, q, root);
    lemma_placed_child(root, s.last().index, start_of(s, s.len() - 1), s.last().position as int);
}
pub open spec fn todo<T: TreeTypes>(s: Seq<TraverseState<T>>, fwd: bool) -> int { if s.len() == 0 { 0 } else { s.last().filter@.len() - passed(s.last(), fwd) } }
pub proof fn lemma_hist_start<T: TreeTypes, Q: QueryModel<T>>(q: &Q, s: Seq<TraverseState<T>>, root: Index<T>, fwd: bool)
    requires s.len() == 1, fresh(s[0])
    ensures hist(q, s, root, fwd, Seq::empty())
{ reveal(hist); }
pub open spec fn ix_starts<T: TreeTypes, R, Q: Query<T>>(it: IndexIter<T, R, Q>, s: Secrets, q: Q, root: Index<T>, fwd: bool) -> bool {
    it.secrets == s && it.query == q && (it.mode is Forward) == fwd && at(it.stack@, &q, root, fwd, it.offset as int) && it.stack@[0].index == root && hist(&q, it.stack@, root, fwd, Seq::empty())
}
/// a client that collects all nodes
#[verifier::exec_allows_no_decreases_clause]
fn vx_drain_nodes<T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: Query<T>>(it: IndexIter<T, R, Q>, Ghost(root): Ghost<Index<T>>, Ghost(s): Ghost<Secrets>, Ghost(q): Ghost<Q>, Ghost(fwd): Ghost<bool>) -> (r: Result<Vec<Index<T>>>)
    requires wf(root), ix_starts(it, s, q, root, fwd)
    ensures r is Ok ==> visits(&q, root, 0, fwd, r->Ok_0@), r is Err ==> !good(Aspect::Avail(s), root)
{
    let mut it = it;
    let mut out: Vec<Index<T>> = Vec::new();
    proof { assert(out@ =~= Seq::empty()); reveal(frames); assert(it.stack@.len() > 0); assert(pos_ok(it.stack@, &q, root, fwd, it.offset as int)); }
    loop
        invariant it.query == q, it.secrets == s, (it.mode is Forward) == fwd, pos_ok(it.stack@, &q, root, fwd, it.offset as int), it.stack@.len() > 0 ==> it.stack@[0].index == root, hist(&q, it.stack@, root, fwd, out@)
    {
        match it.next() {
            None => { proof { if it.stack@.len() == 0 { reveal(hist); } } return Ok(out); }
            Some(Err(e)) => { return Err(e); }
            Some(Ok(i)) => { proof { if it.stack@.len() > 0 { reveal(frames); } } out.push(i); }
        }
    }
}
}
verus! {
pub proof fn lemma_avail_branch<T: TreeTypes>(s: Secrets, root: Index<T>, i: Index<T>, o: int)
    requires placed(root, i, o), inside(i)
    ensures good(Aspect::Avail(s), root) ==> readable_branch::<T>(s.index_key, i.link().unwrap())
{
    if good(Aspect::Avail(s), root) {
        reveal(inherits);
        assert(good(Aspect::Avail(s), i));
        assert(node_ok(Aspect::Avail(s), i));
        lemma_kids(i);
    }
}
}
