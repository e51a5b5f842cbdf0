verus! {
// ================================================================ reading by offset
pub open spec fn top_level() -> u32 { 0x7fff_ffff }
/// what is reported for an event: absent where purged, otherwise key and decoded value
pub open spec fn shows<K, V: ReadCbor>(e: Elem<K>, x: Option<(K, V)>) -> bool {
    match e { None => x is None, Some((k, b)) => x is Some && x.unwrap().0 == k && V::rd(b) == Some(x.unwrap().1) }
}
pub open spec fn shows_all<K, V: ReadCbor>(e: Seq<Elem<K>>, x: Seq<Option<(K, V)>>) -> bool {
    e.len() == x.len() && forall|j: int| #![trigger e[j]] #![trigger x[j]] 0 <= j < e.len() ==> shows(e[j], x[j])
}
/// all blocks on the path to an offset can be read
pub open spec fn at_ok<T: TreeTypes, V: ReadCbor>(s: Secrets, i: Index<T>, o: int) -> bool decreases i.level(), 1int, 0int {
    match i {
        Index::Leaf(x) => match x.link { Some(l) => readable::<T>(s.value_key, l) && V::rd(vals(l).unwrap()[o]) is Some, None => true },
        Index::Branch(x) => match x.link { Some(l) => readable_branch::<T>(s.index_key, l) && kids_at_ok::<T, V>(s, kids::<T>(l).unwrap(), o, x.level), None => true },
    }
}
pub open spec fn kids_at_ok<T: TreeTypes, V: ReadCbor>(s: Secrets, ks: Seq<Index<T>>, o: int, lvl: u32) -> bool decreases lvl, 0int, ks.len() {
    if ks.len() == 0 { true } else if o < ks[0].count() { ks[0].level() < lvl ==> at_ok::<T, V>(s, ks[0], o) } else { kids_at_ok::<T, V>(s, ks.skip(1), o - ks[0].count(), lvl) }
}
/// all blocks with events at or after an offset can be read
pub open spec fn rest_ok<T: TreeTypes, V: ReadCbor>(s: Secrets, i: Index<T>, o: int) -> bool decreases i.level(), 1int, 0int {
    o < i.count() ==> match i {
        Index::Leaf(x) => match x.link { Some(l) => readable::<T>(s.value_key, l) && reads::<V>(vals(l).unwrap()), None => true },
        Index::Branch(x) => match x.link { Some(l) => readable_branch::<T>(s.index_key, l) && kids_rest_ok::<T, V>(s, kids::<T>(l).unwrap(), o, x.level), None => true },
    }
}
pub open spec fn kids_rest_ok<T: TreeTypes, V: ReadCbor>(s: Secrets, ks: Seq<Index<T>>, o: int, lvl: u32) -> bool decreases lvl, 0int, ks.len() {
    if ks.len() == 0 { true } else {
        &&& ks[0].level() < lvl ==> rest_ok::<T, V>(s, ks[0], o)
        &&& kids_rest_ok::<T, V>(s, ks.skip(1), if o < ks[0].count() { 0 } else { o - ks[0].count() }, lvl)
    }
}
pub proof fn lemma_len_wf<T: TreeTypes>(s: Seq<Index<T>>)
    requires all_wf(s)
    ensures all_elems(s).len() == counts(s)
{
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).level() < top_level() by { assert(wf(s[j])); }
    lemma_len_all(s, top_level());
}
/// where the events of the k-th child are
pub proof fn lemma_child_elems<T: TreeTypes>(s: Seq<Index<T>>, k: int)
    requires all_wf(s), 0 <= k < s.len()
    ensures 0 <= counts(s.take(k)), counts(s.take(k)) + s[k].count() <= counts(s), all_elems(s).len() == counts(s), elems(s[k]).len() == s[k].count(),
        all_elems(s).subrange(counts(s.take(k)), counts(s.take(k)) + s[k].count()) == elems(s[k]),
        forall|j: int| 0 <= j < s[k].count() ==> #[trigger] elems(s[k])[j] == all_elems(s)[counts(s.take(k)) + j],
        counts(s.take(k + 1)) == counts(s.take(k)) + s[k].count()
{
    lemma_len_wf(s);
    lemma_len(s[k]);
    lemma_all_elems_take(s, k);
    lemma_all_elems_split(s, k + 1);
    lemma_counts_mono(s, k);
    lemma_counts_mono(s, k + 1);
    assert forall|j: int| 0 <= j < s.take(k).len() implies wf(#[trigger] s.take(k)[j]) by { assert(s.take(k)[j] == s[j]); }
    lemma_len_wf(s.take(k));
    let a = counts(s.take(k));
    assert(all_elems(s).subrange(a, a + s[k].count()) =~= elems(s[k]));
    assert forall|j: int| 0 <= j < s[k].count() implies #[trigger] elems(s[k])[j] == all_elems(s)[a + j] by { assert(all_elems(s).subrange(a, a + s[k].count())[j] == all_elems(s)[a + j]); }
}
/// one more child was collected
pub proof fn lemma_collected<K, V: ReadCbor>(all: Seq<Elem<K>>, child: Seq<Elem<K>>, o0: int, off: int, a: int, b: int, n: int, x0: Seq<Option<(K, V)>>, x1: Seq<Option<(K, V)>>, x: Seq<Option<(K, V)>>)
    requires 0 <= n == x0.len() <= x1.len() <= x.len(), x1.take(n) == x0, x.take(x1.len() as int) == x1, 0 <= a <= b <= all.len(), child.len() == b - a, 0 <= o0, off == (if o0 >= a { o0 - a } else { 0 }),
        forall|j: int| 0 <= j < child.len() ==> #[trigger] child[j] == all[a + j],
        shows_all(all.subrange(min(o0, a), a), x1.skip(n)),
        off < b - a ==> shows_all(child.skip(off), x.skip(x1.len() as int)),
        off >= b - a ==> x == x1,
    ensures x.take(n) == x0, shows_all(all.subrange(min(o0, b), b), x.skip(n))
{
    assert(x.take(n) =~= x0) by { assert forall|j: int| 0 <= j < n implies x[j] == x0[j] by { assert(x.take(x1.len() as int)[j] == x1[j]); assert(x1.take(n)[j] == x0[j]); } }
    let e = all.subrange(min(o0, b), b);
    let y = x.skip(n);
    if off < b - a {
        let e1 = all.subrange(min(o0, a), a);
        let e2 = child.skip(off);
        let x1s = x1.skip(n);
        let x2 = x.skip(x1.len() as int);
        assert(y =~= x1s + x2) by { assert forall|j: int| 0 <= j < x1s.len() implies y[j] == x1s[j] by { assert(x.take(x1.len() as int)[n + j] == x1[n + j]); } }
        assert(e =~= e1 + e2);
        assert forall|j: int| #![trigger e[j]] #![trigger y[j]] 0 <= j < e.len() implies shows(e[j], y[j]) by {
            if j < e1.len() { assert(shows(e1[j], x1s[j])); } else { assert(shows(e2[j - e1.len()], x2[j - e1.len()])); }
        }
    } else {
        assert(min(o0, b) == min(o0, a) && a == b || e.len() == 0);
        assert(y =~= x1.skip(n));
    }
}
}
