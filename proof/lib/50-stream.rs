verus! {
// ================================================================ stream builders
impl<T: TreeTypes, V> VxDefault for Tree<T, V> { open spec fn dflt(r: Self) -> bool { r.0 is None } fn vx_default() -> (r: Self) { Tree::default0() } }
}
verus! {
/// a tree that can be extended
pub open spec fn tree_ok<T: TreeTypes>(i: Index<T>) -> bool { wf(i) && good(Aspect::Intact, i) && rootable(i, top()) }
pub open spec fn builder_ok<T: TreeTypes, V>(b: StreamBuilder<T, V>) -> bool { cfg_ok(b.state.config) && (b.root is Some ==> tree_ok(b.root.unwrap())) && root_good(Aspect::Before(b.state.offset.value as int), b.root) }
/// the root was written last, so that going on after it is going on after everything
pub open spec fn tight<T: TreeTypes, V>(b: StreamBuilder<T, V>) -> bool { b.root is Some ==> newest(b.root.unwrap(), b.state) }
pub open spec fn root_elems<T: TreeTypes>(r: Option<Index<T>>) -> Seq<Elem<T::Key>> { match r { Some(i) => elems(i), None => Seq::empty() } }
pub open spec fn root_good<T: TreeTypes>(a: Aspect, r: Option<Index<T>>) -> bool { r is Some ==> good(a, r.unwrap()) }
pub open spec fn root_packed<T: TreeTypes>(r: Option<Index<T>>) -> bool { r is Some ==> packed(r.unwrap()) }
/// the same keys, and values that decode to the same
#[verifier::opaque]
pub open spec fn same_reads<K, V: ReadCbor>(a: Seq<Elem<K>>, b: Seq<Elem<K>>) -> bool {
    a.len() == b.len() && forall|j: int| #![trigger a[j]] #![trigger b[j]] 0 <= j < a.len() ==> (a[j] is Some) == (b[j] is Some) && (a[j] is Some ==> a[j].unwrap().0 == b[j].unwrap().0 && V::rd(a[j].unwrap().1) == V::rd(b[j].unwrap().1))
}
pub proof fn lemma_roots_packed<T: TreeTypes>(s: Seq<Index<T>>, e: Seq<Elem<T::Key>>, l: int)
    requires visited(Seq::empty(), s, e, top(), l, true)
    ensures packed_roots(s), desc(s), all_elems(s) == e.take(all_elems(s).len() as int), all_elems(s).len() <= e.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sealed()
{
    reveal(visited);
    reveal(packed_roots);
    assert(s.skip(0) =~= s);
}
/// what was collected and written again
pub proof fn lemma_remainder<K, V: BanyanValue>(e: Seq<Elem<K>>, n: int, x: Seq<Option<(K, V)>>, rem: Seq<(K, V)>)
    requires 0 <= n <= e.len(), shows_all(e.skip(n), x), rem == somes(x), forall|i: int| 0 <= i < x.len() ==> x[i] is Some
    ensures same_reads::<K, V>(e, e.take(n) + added(rem)), rem.len() == e.len() - n, rem.len() == 0 ==> e.take(n) == e
{
    reveal(same_reads);
    assert(n == e.len() ==> e.take(n) =~= e);
    let b = e.take(n) + added(rem);
    assert forall|j: int| #![trigger e[j]] #![trigger b[j]] 0 <= j < e.len() implies (e[j] is Some) == (b[j] is Some) && (e[j] is Some ==> e[j].unwrap().0 == b[j].unwrap().0 && V::rd(e[j].unwrap().1) == V::rd(b[j].unwrap().1)) by {
        if j >= n {
            assert(e.skip(n)[j - n] == e[j]);
            assert(shows(e.skip(n)[j - n], x[j - n]));
            assert(x[j - n] is Some);
            rem[j - n].1.law_rw();
            assert(b[j] == added(rem)[j - n]);
        }
    }
}
pub proof fn lemma_same_reads<K, V: ReadCbor>(a: Seq<Elem<K>>, b: Seq<Elem<K>>, c: Seq<Elem<K>>)
    requires same_reads::<K, V>(a, b)
    ensures same_reads::<K, V>(a + c, b + c)
{
    reveal(same_reads);
    let x = a + c;
    let y = b + c;
    assert forall|j: int| #![trigger x[j]] #![trigger y[j]] 0 <= j < x.len() implies (x[j] is Some) == (y[j] is Some) && (x[j] is Some ==> x[j].unwrap().0 == y[j].unwrap().0 && V::rd(x[j].unwrap().1) == V::rd(y[j].unwrap().1)) by {
        if j < a.len() { assert(x[j] == a[j] && y[j] == b[j]); } else { assert(x[j] == c[j - a.len()] && y[j] == c[j - a.len()]); }
    }
}
pub proof fn lemma_same_refl<K, V: ReadCbor>(a: Seq<Elem<K>>) ensures same_reads::<K, V>(a, a), a + Seq::<Elem<K>>::empty() == a, Seq::<Elem<K>>::empty() + a == a
{ reveal(same_reads); assert(a + Seq::<Elem<K>>::empty() =~= a); assert(Seq::<Elem<K>>::empty() + a =~= a); }
/// packed trees can be extended
pub proof fn lemma_tree_ok<T: TreeTypes>(r: Option<Index<T>>)
    requires r is Some ==> wf(r.unwrap()), root_packed(r), root_good(Aspect::Intact, r)
    ensures r is Some ==> tree_ok(r.unwrap()), root_elems(r).len() == (match r { Some(i) => i.count() as int, None => 0 })
{ if r is Some { lemma_packed_rootable(r.unwrap(), top()); lemma_len(r.unwrap()); } }
/// what is_packed reports
pub proof fn lemma_packed_root<T: TreeTypes>(r: Option<Index<T>>)
    requires r is Some ==> tree_ok(r.unwrap())
    ensures root_packed(r) == (r is Some ==> packed0(r.unwrap())), root_good(Aspect::Intact, r)
{ if r is Some { lemma_packed0(r.unwrap()); } }
pub proof fn lemma_tree_elems<T: TreeTypes>(r: Option<Index<T>>)
    requires r is Some ==> wf(r.unwrap())
    ensures root_elems(r).len() == (match r { Some(i) => i.count() as int, None => 0 })
{ if r is Some { lemma_len(r.unwrap()); } }
}
verus! {
pub proof fn lemma_ret_root<T: TreeTypes, Q: QueryModel<T> + ?Sized>(i: Index<T>, q: &Q)
    requires tree_ok(i)
    ensures forall|r: Index<T>, l1: int| #[trigger] ret(i, r, q, 0, top(), l1) ==> wf(r) && rootable(r, top()) && r == with_link(i, *r.link()) && elems(r) == kept(i, q, 0, false)
{ reveal(ret); reveal(ret_walk); }
}
