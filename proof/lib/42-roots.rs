verus! {
// ================================================================ complete subtrees of a tree
/// the level below which a later subtree still has to be, after this one
pub open spec fn walk<T: TreeTypes>(i: Index<T>, l: int) -> int decreases i.level(), 1int, 0int {
    if i.sealed() && i.level() <= l { i.level() as int } else {
        let m = min(l, i.level() - 1);
        if i is Branch && i.link() is Some { kwalk(kids::<T>(i.link().unwrap()).unwrap(), i.level(), m) } else { m }
    }
}
pub open spec fn kwalk<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, l: int) -> int decreases lvl, 0int, s.len() {
    if s.len() == 0 { l } else { let p = kwalk(s.drop_last(), lvl, l); if s.last().level() < lvl { walk(s.last(), p) } else { p } }
}
/// the children of the branches that are not complete, or too high up, are there
pub open spec fn rootable<T: TreeTypes>(i: Index<T>, l: int) -> bool decreases i.level(), 1int, 0int {
    i.sealed() && i.level() <= l || (i is Branch ==> i.link() is Some && krootable(kids::<T>(i.link().unwrap()).unwrap(), i.level(), min(l, i.level() - 1)))
}
pub open spec fn krootable<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, l: int) -> bool decreases lvl, 0int, s.len() {
    s.len() == 0 || (krootable(s.drop_last(), lvl, l) && (s.last().level() < lvl ==> rootable(s.last(), kwalk(s.drop_last(), lvl, l))))
}
pub open spec fn top() -> int { 0x7fff_ffff }
pub proof fn lemma_walk_take<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, l: int, k: int)
    requires 0 <= k < s.len(), s[k].level() < lvl
    ensures kwalk(s.take(k + 1), lvl, l) == walk(s[k], kwalk(s.take(k), lvl, l)),
        krootable(s.take(k + 1), lvl, l) == (krootable(s.take(k), lvl, l) && rootable(s[k], kwalk(s.take(k), lvl, l)))
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_krootable_take<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, l: int, k: int)
    requires krootable(s, lvl, l), 0 <= k <= s.len()
    ensures krootable(s.take(k), lvl, l)
    decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); } else { lemma_krootable_take(s.drop_last(), lvl, l, k); assert(s.drop_last().take(k) =~= s.take(k)); }
}
/// what has been collected from a tree, or from some trees
pub open spec fn roots_of<T: TreeTypes>(new: Seq<Index<T>>, e: Seq<Elem<T::Key>>, l0: int, l1: int) -> bool {
    &&& all_wf(new)
    &&& desc(new)
    &&& forall|j: int| 0 <= j < new.len() ==> (#[trigger] new[j]).sealed() && l1 <= new[j].level() <= l0
    &&& -1 <= l1 <= l0
    &&& l0 == -1 ==> new.len() == 0
}
pub open spec fn prefix_of<T: TreeTypes>(new: Seq<Index<T>>, e: Seq<Elem<T::Key>>, l1: int) -> bool {
    &&& all_elems(new) == e.take(all_elems(new).len() as int)
    &&& all_elems(new).len() <= e.len()
    &&& all_elems(new).len() < e.len() ==> l1 == -1
}
pub proof fn lemma_desc_app<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>, l: int)
    requires desc(a), desc(b), forall|j: int| 0 <= j < a.len() ==> l <= (#[trigger] a[j]).level(), forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]).level() <= l
    ensures desc(a + b)
{
    reveal(desc);
    let c = a + b;
    assert forall|i: int, j: int| 0 <= i <= j < c.len() implies (#[trigger] c[i]).level() >= (#[trigger] c[j]).level() by {
        if j < a.len() { assert(a[i].level() >= a[j].level()); } else if i >= a.len() { assert(b[i - a.len()].level() >= b[j - a.len()].level()); } else { assert(a[i].level() >= l); assert(b[j - a.len()].level() <= l); }
    }
}
pub proof fn lemma_roots_app<T: TreeTypes>(a: Seq<Index<T>>, ea: Seq<Elem<T::Key>>, b: Seq<Index<T>>, eb: Seq<Elem<T::Key>>, l0: int, l1: int, l2: int)
    requires roots_of(a, ea, l0, l1), roots_of(b, eb, l1, l2)
    ensures roots_of(a + b, ea + eb, l0, l2), prefix_of(a, ea, l1) && prefix_of(b, eb, l2) ==> prefix_of(a + b, ea + eb, l2)
{
    let c = a + b;
    lemma_desc_app(a, b, l1);
    assert forall|j: int| 0 <= j < c.len() implies wf(#[trigger] c[j]) && c[j].sealed() && l2 <= c[j].level() <= l0 by { if j < a.len() { assert(c[j] == a[j]); } else { assert(c[j] == b[j - a.len()]); } }
    if prefix_of(a, ea, l1) && prefix_of(b, eb, l2) {
        lemma_weight_add(a, b);
        if l1 == -1 { assert(all_elems(b) =~= Seq::empty()); assert(all_elems(c) =~= all_elems(a)); assert(all_elems(a) =~= (ea + eb).take(all_elems(a).len() as int)); }
        else { assert(all_elems(a) =~= ea); assert(all_elems(c) =~= (ea + eb).take(all_elems(c).len() as int)); }
    }
}
pub proof fn lemma_roots_none<T: TreeTypes>(l0: int, l1: int)
    requires -1 <= l1 <= l0
    ensures roots_of(Seq::<Index<T>>::empty(), Seq::empty(), l0, l1), prefix_of(Seq::<Index<T>>::empty(), Seq::empty(), l1), forall|e: Seq<Elem<T::Key>>| l1 == -1 ==> #[trigger] prefix_of(Seq::<Index<T>>::empty(), e, l1)
{
    reveal(desc);
    assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::empty());
    assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::<Elem<T::Key>>::empty().take(0));
    assert forall|e: Seq<Elem<T::Key>>| l1 == -1 implies #[trigger] prefix_of(Seq::<Index<T>>::empty(), e, l1) by { assert(e.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_roots_one<T: TreeTypes>(i: Index<T>, l0: int)
    requires wf(i), i.sealed(), i.level() <= l0
    ensures roots_of(seq![i], elems(i), l0, i.level() as int), prefix_of(seq![i], elems(i), i.level() as int)
{
    reveal(desc);
    lemma_one(i);
    assert(elems(i) =~= elems(i).take(elems(i).len() as int));
}
/// packed trees are rootable
pub proof fn lemma_packed_rootable<T: TreeTypes>(i: Index<T>, l: int)
    requires wf(i), packed(i), l >= i.level()
    ensures rootable(i, l)
    decreases i.level()
{
    if !i.sealed() && i is Branch {
        let s = kids::<T>(i.link().unwrap()).unwrap();
        lemma_left_rootable(s, i.level(), s.len() - 1);
        assert(s.take(s.len() - 1) =~= s.drop_last());
        let p = kwalk(s.drop_last(), i.level(), i.level() - 1);
        assert(p == i.level() - 1);
        lemma_packed_rootable(s.last(), p);
    }
}
proof fn lemma_left_rootable<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, k: int)
    requires left_full(s, lvl), 0 <= k < s.len(), lvl > 0
    ensures krootable(s.take(k), lvl, lvl - 1), kwalk(s.take(k), lvl, lvl - 1) == lvl - 1
    decreases k
{
    if k > 0 { lemma_left_rootable(s, lvl, k - 1); lemma_walk_take(s, lvl, lvl - 1, k - 1); assert(s[k - 1].sealed()); } else { assert(s.take(0) =~= Seq::empty()); }
}
/// and so are trees from which nothing was purged
pub proof fn lemma_linked_rootable<T: TreeTypes>(i: Index<T>, l: int)
    requires wf(i), good(Aspect::Linked, i)
    ensures rootable(i, l)
    decreases i.level(), 1int, 0int
{
    assert(node_ok(Aspect::Linked, i));
    if i is Branch { let s = kids::<T>(i.link().unwrap()).unwrap(); lemma_linked_krootable(s, i.level(), min(l, i.level() - 1)); }
}
proof fn lemma_linked_krootable<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32, l: int)
    requires all_wf(s), goods(Aspect::Linked, s), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < lvl
    ensures krootable(s, lvl, l)
    decreases lvl, 0int, s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies wf(#[trigger] d[j]) && good(Aspect::Linked, d[j]) && d[j].level() < lvl by { assert(d[j] == s[j]); }
        lemma_linked_krootable(d, lvl, l);
        lemma_linked_rootable(s.last(), kwalk(d, lvl, l));
    }
}
}
verus! {
/// what a visit adds to the roots collected so far
#[verifier::opaque]
pub open spec fn visited<T: TreeTypes>(res0: Seq<Index<T>>, res1: Seq<Index<T>>, e: Seq<Elem<T::Key>>, l0: int, l1: int, whole: bool) -> bool {
    &&& grown(res0, res1)
    &&& roots_of(res1.skip(res0.len() as int), e, l0, l1)
    &&& whole ==> prefix_of(res1.skip(res0.len() as int), e, l1)
}
pub open spec fn grown<T: TreeTypes>(res0: Seq<Index<T>>, res1: Seq<Index<T>>) -> bool { res1.len() >= res0.len() && res1.take(res0.len() as int) == res0 }
pub proof fn lemma_grown<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>, c: Seq<Index<T>>)
    requires grown(a, b), grown(b, c)
    ensures grown(a, c), c.skip(a.len() as int) == b.skip(a.len() as int) + c.skip(b.len() as int)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|j: int| a.len() <= j < b.len() implies c[j] == b[j] by { assert(c.take(b.len() as int)[j] == c[j]); }
    assert(c.skip(a.len() as int) =~= b.skip(a.len() as int) + c.skip(b.len() as int));
}
/// one more tree
pub proof fn lemma_visit<T: TreeTypes>(ix: Index<T>, ks: Seq<Index<T>>, k: int, l0: int, la: int, lb: int, res0: Seq<Index<T>>, res1: Seq<Index<T>>, res2: Seq<Index<T>>)
    requires all_wf(ks), 0 <= k < ks.len(), ks[k].level() < ix.level(),
        visited(res0, res1, all_elems(ks.take(k)), l0, la, krootable(ks.take(k), ix.level(), l0)), la == kwalk(ks.take(k), ix.level(), l0),
        visited(res1, res2, elems(ks[k]), la, lb, rootable(ks[k], la)), lb == walk(ks[k], la)
    ensures visited(res0, res2, all_elems(ks.take(k + 1)), l0, lb, krootable(ks.take(k + 1), ix.level(), l0)), lb == kwalk(ks.take(k + 1), ix.level(), l0),
        forall|a: Aspect| #[trigger] goods(a, res1.skip(res0.len() as int)) && goods(a, res2.skip(res1.len() as int)) ==> goods(a, res2.skip(res0.len() as int))
{
    reveal(visited);
    lemma_grown(res0, res1, res2);
    lemma_walk_take(ks, ix.level(), l0, k);
    lemma_all_elems_take(ks, k);
    let x = res1.skip(res0.len() as int);
    let y = res2.skip(res1.len() as int);
    lemma_roots_app(x, all_elems(ks.take(k)), y, elems(ks[k]), l0, la, lb);
    assert forall|a: Aspect| #[trigger] goods(a, x) && goods(a, y) implies goods(a, x + y) by {
        assert forall|j: int| 0 <= j < (x + y).len() implies good(a, #[trigger] (x + y)[j]) by { if j < x.len() { assert(good(a, x[j])); } else { assert(good(a, y[j - x.len()])); } }
    }
}
pub proof fn lemma_visit_none<T: TreeTypes>(res: Seq<Index<T>>, l: int)
    requires -1 <= l
    ensures visited(res, res, all_elems(Seq::<Index<T>>::empty()), l, l, true), forall|a: Aspect| #[trigger] goods(a, res.skip(res.len() as int)),
        forall|e: Seq<Elem<T::Key>>, w: bool| l == -1 || !w ==> #[trigger] visited(res, res, e, l, l, w)
{
    reveal(visited);
    lemma_roots_none::<T>(l, l);
    assert(res.skip(res.len() as int) =~= Seq::empty());
    assert(res.take(res.len() as int) =~= res);
    assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::empty());
}
pub proof fn lemma_visit_one<T: TreeTypes>(res0: Seq<Index<T>>, i: Index<T>, l0: int)
    requires wf(i), i.sealed(), i.level() <= l0
    ensures visited(res0, res0.push(i), elems(i), l0, i.level() as int, true), forall|a: Aspect| good(a, i) ==> #[trigger] goods(a, res0.push(i).skip(res0.len() as int))
{
    reveal(visited);
    lemma_roots_one(i, l0);
    assert(res0.push(i).skip(res0.len() as int) =~= seq![i]);
    assert(res0.push(i).take(res0.len() as int) =~= res0);
}
/// the same, seen from further up
pub proof fn lemma_visit_widen<T: TreeTypes>(res0: Seq<Index<T>>, res1: Seq<Index<T>>, e: Seq<Elem<T::Key>>, l0: int, l1: int, l2: int, whole: bool)
    requires visited(res0, res1, e, l1, l2, whole), l0 >= l1 >= -1
    ensures visited(res0, res1, e, l0, l2, whole)
{ reveal(visited); }
}
verus! {
pub proof fn lemma_good_kids<T: TreeTypes>(ix: Index<T>)
    requires ix is Branch, ix.link() is Some
    ensures forall|a: Aspect| #[trigger] good(a, ix) ==> goods(a, kids::<T>(ix.link().unwrap()).unwrap())
{}
}
verus! {
/// two trees joined
pub proof fn lemma_join_rootable<T: TreeTypes>(x: Index<T>, a: Index<T>, b: Index<T>)
    requires wf(x), x is Branch, x.link() is Some, kids::<T>(x.link().unwrap()) == Some(seq![a, b]), rootable(a, top()), good(Aspect::Linked, b)
    ensures rootable(x, top())
{
    if !x.sealed() {
        let s = seq![a, b];
        let ks = kids::<T>(x.link().unwrap()).unwrap();
        assert(ks == s);
        assert(wf(ks[0]) && wf(ks[1]));
        assert(wf(a) && wf(b));
        assert(s.drop_last() =~= seq![a]);
        assert(seq![a].drop_last() =~= Seq::empty());
        let m = x.level() - 1;
        assert(s.last() == b && seq![a].last() == a);
        assert(a.level() <= m && b.level() <= m);
        assert(rootable(a, m));
        assert(krootable(Seq::<Index<T>>::empty(), x.level(), m));
        assert(kwalk(Seq::<Index<T>>::empty(), x.level(), m) == m);
        assert(krootable(seq![a], x.level(), m));
        lemma_linked_rootable(b, kwalk(seq![a], x.level(), m));
        assert(krootable(s, x.level(), m));
    }
}
pub proof fn lemma_joins_rootable<T: TreeTypes>(a: Index<T>, b: Index<T>)
    ensures forall|x: Index<T>| wf(x) && x is Branch && x.link() is Some && kids::<T>(x.link().unwrap()) == Some(seq![a, b]) && rootable(a, top()) && good(Aspect::Linked, b) ==> #[trigger] rootable(x, top())
{ assert forall|x: Index<T>| wf(x) && x is Branch && x.link() is Some && kids::<T>(x.link().unwrap()) == Some(seq![a, b]) && rootable(a, top()) && good(Aspect::Linked, b) implies #[trigger] rootable(x, top()) by { lemma_join_rootable(x, a, b); } }
}
verus! {
/// a single root that holds everything is the only complete part of a packed tree
pub open spec fn lone<T: TreeTypes>(i: Index<T>, new: Seq<Index<T>>) -> bool { new.len() <= 1 && all_elems(new).len() == elems(i).len() ==> packed(i) }
pub open spec fn lones<T: TreeTypes>(s: Seq<Index<T>>, new: Seq<Index<T>>) -> bool { s.len() > 0 && new.len() <= 1 && all_elems(new).len() == all_elems(s).len() ==> s.len() == 1 && packed(s[0]) }
pub proof fn lemma_some_elems<T: TreeTypes>(s: Seq<Index<T>>)
    requires all_wf(s)
    ensures s.len() > 0 ==> all_elems(s).len() > 0, all_elems(Seq::<Index<T>>::empty()).len() == 0
{
    if s.len() > 0 {
        assert(wf(s.last()));
        lemma_len(s.last());
        lemma_all_elems_push(s.drop_last(), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_lones<T: TreeTypes>(ix: Index<T>, ks: Seq<Index<T>>, k: int, l0: int, la: int, lb: int, res0: Seq<Index<T>>, res1: Seq<Index<T>>, res2: Seq<Index<T>>)
    requires all_wf(ks), 0 <= k < ks.len(), ks[k].level() < ix.level(),
        visited(res0, res1, all_elems(ks.take(k)), l0, la, krootable(ks.take(k), ix.level(), l0)), la == kwalk(ks.take(k), ix.level(), l0),
        visited(res1, res2, elems(ks[k]), la, lb, rootable(ks[k], la)),
        krootable(ks.take(k), ix.level(), l0) ==> lones(ks.take(k), res1.skip(res0.len() as int)),
        rootable(ks[k], la) ==> lone(ks[k], res2.skip(res1.len() as int))
    ensures krootable(ks.take(k + 1), ix.level(), l0) ==> lones(ks.take(k + 1), res2.skip(res0.len() as int))
{
    reveal(visited);
    lemma_grown(res0, res1, res2);
    lemma_walk_take(ks, ix.level(), l0, k);
    lemma_all_elems_take(ks, k);
    if krootable(ks.take(k + 1), ix.level(), l0) {
        let x = res1.skip(res0.len() as int);
        let y = res2.skip(res1.len() as int);
        lemma_weight_add(x, y);
        assert(all_elems(x).len() <= all_elems(ks.take(k)).len());
        assert(all_elems(y).len() <= elems(ks[k]).len());
        lemma_some_elems(x);
        lemma_some_elems(y);
        assert forall|j: int| 0 <= j < k implies wf(#[trigger] ks.take(k)[j]) by { assert(ks.take(k)[j] == ks[j]); }
        lemma_some_elems(ks.take(k));
        assert(wf(ks[k]));
        lemma_len(ks[k]);
        assert(k == 0 ==> ks.take(k) =~= Seq::empty());
        assert(x.len() == 0 ==> x =~= Seq::empty());
        assert(y.len() == 0 ==> y =~= Seq::empty());
        assert(ks.take(k + 1)[0] == ks[0]);
    }
}
pub proof fn lemma_lone_branch<T: TreeTypes>(ix: Index<T>, new: Seq<Index<T>>)
    requires wf(ix), ix is Branch, ix.link() is Some, lones(kids::<T>(ix.link().unwrap()).unwrap(), new)
    ensures lone(ix, new)
{
    lemma_kids(ix);
    let s = kids::<T>(ix.link().unwrap()).unwrap();
    if new.len() <= 1 && all_elems(new).len() == elems(ix).len() { assert(s[0].level() < ix.level()); assert(s.last() == s[0]); }
}
pub proof fn lemma_lone_none<T: TreeTypes>(i: Index<T>)
    requires wf(i)
    ensures lone(i, Seq::<Index<T>>::empty()), lones(Seq::<Index<T>>::empty(), Seq::<Index<T>>::empty()), i.sealed() ==> lone(i, seq![i])
{ lemma_len(i); lemma_some_elems(Seq::<Index<T>>::empty()); }
}
verus! {
/// later positions are free as well
pub broadcast proof fn lemma_before<T: TreeTypes>(i: Index<T>, a: int, b: int)
    requires #[trigger] good(Aspect::Before(a), i), a <= b
    ensures #[trigger] good(Aspect::Before(b), i)
    decreases i.level()
{
    assert(node_ok(Aspect::Before(a), i));
    if i is Branch && i.link() is Some {
        let s = kids::<T>(i.link().unwrap()).unwrap();
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).level() < i.level() && good(Aspect::Before(b), s[j]) by { lemma_before(s[j], a, b); }
    }
}
}
