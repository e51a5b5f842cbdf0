verus! {
// ================================================================ sequences of trees that are to be joined
/// all but the last are complete
#[verifier::opaque]
pub open spec fn packed_roots<T: TreeTypes>(s: Seq<Index<T>>) -> bool {
    &&& all_wf(s)
    &&& desc(s)
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> (#[trigger] s[j]).sealed()
    &&& s.len() > 0 ==> packed(s.last())
}
pub open spec fn weight<T: TreeTypes>(s: Seq<Index<T>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { weight(s.drop_last()) + if s.last().level() == 0 { 2int } else { 1 } } }
pub proof fn lemma_weight_push<T: TreeTypes>(s: Seq<Index<T>>, i: Index<T>) ensures weight(s.push(i)) == weight(s) + (if i.level() == 0 { 2int } else { 1 }) { assert(s.push(i).drop_last() =~= s); }
pub proof fn lemma_weight_add<T: TreeTypes>(a: Seq<Index<T>>, b: Seq<Index<T>>)
    ensures weight(a + b) == weight(a) + weight(b), all_elems(a + b) == all_elems(a) + all_elems(b), weight(b) >= b.len()
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(all_elems(b) =~= Seq::empty()); assert(all_elems(a) + all_elems(b) =~= all_elems(a)); }
    else {
        lemma_weight_add(a, b.drop_last());
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        lemma_weight_push(a + b.drop_last(), b.last());
        lemma_weight_push(b.drop_last(), b.last());
        assert(b.drop_last().push(b.last()) =~= b);
        lemma_all_elems_push(a + b.drop_last(), b.last());
        lemma_all_elems_push(b.drop_last(), b.last());
        assert(all_elems(a + b) =~= all_elems(a) + all_elems(b));
    }
}
/// s with the part from..to replaced by x
pub open spec fn spliced<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int, x: Index<T>, r: Seq<Index<T>>) -> bool {
    &&& r.len() == s.len() - (to - from) + 1
    &&& forall|j: int| 0 <= j < from ==> #[trigger] r[j] == s[j]
    &&& r[from] == x
    &&& forall|j: int| from < j < r.len() ==> #[trigger] r[j] == s[j - from - 1 + to]
}
pub proof fn lemma_joined_desc<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int, x: Index<T>, r: Seq<Index<T>>)
    requires desc(s), 0 <= from < to <= s.len(), from > 0 ==> s[from - 1].level() > s[from].level(), x.level() == s[from].level() + 1, spliced(s, from, to, x, r)
    ensures desc(r)
{
    reveal(desc);
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).level() >= (#[trigger] r[j]).level() by {
        if i < from && j >= from { assert(s[i].level() >= s[from - 1].level()); }
        if i <= from && j > from { assert(s[from].level() >= s[j - from - 1 + to].level()); }
    }
}
pub proof fn lemma_joined_sums<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int, x: Index<T>)
    requires 0 <= from < to <= s.len(), elems(x) == all_elems(s.subrange(from, to)), x.level() > 0, to - from > 1 || s[from].level() == 0
    ensures all_elems(s.take(from) + seq![x] + s.skip(to)) == all_elems(s), 0 <= weight(s.take(from) + seq![x] + s.skip(to)) < weight(s)
{
    let m = s.subrange(from, to);
    let a = s.take(from);
    let b = s.skip(to);
    assert(s =~= a + m + b);
    lemma_weight_add(a, m); lemma_weight_add(a + m, b); lemma_weight_add(a, seq![x]); lemma_weight_add(a + seq![x], b);
    lemma_one(x);
    assert(seq![x] =~= Seq::empty().push(x));
    lemma_weight_push(Seq::<Index<T>>::empty(), x);
    lemma_weight_add(Seq::empty(), a);
    if to - from == 1 { assert(m =~= Seq::empty().push(s[from])); lemma_weight_push(Seq::<Index<T>>::empty(), s[from]); }
}
/// some roots in the middle were replaced by a branch
pub proof fn lemma_joined<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int, x: Index<T>, r: Seq<Index<T>>)
    requires packed_roots(s), 0 <= from < to <= s.len(), wf(x), elems(x) == all_elems(s.subrange(from, to)),
        from > 0 ==> s[from - 1].level() > s[from].level(), x.level() == s[from].level() + 1, packed(x), to < s.len() ==> x.sealed(),
        to - from > 1 || s[from].level() == 0,
        r == s.take(from) + seq![x] + s.skip(to)
    ensures packed_roots(r), all_elems(r) == all_elems(s), 0 <= weight(r) < weight(s), r.len() > 0,
        forall|a: Aspect| goods(a, s) && good(a, x) ==> #[trigger] goods(a, r)
{
    reveal(packed_roots);
    lemma_joined_sums(s, from, to, x);
    assert(spliced(s, from, to, x, r));
    lemma_joined_desc(s, from, to, x, r);
    assert forall|j: int| 0 <= j < r.len() implies wf(#[trigger] r[j]) by { if j < from { assert(wf(s[j])); } else if j > from { assert(wf(s[j - from - 1 + to])); } }
    assert forall|j: int| 0 <= j < r.len() - 1 implies (#[trigger] r[j]).sealed() by { if j < from { assert(s[j].sealed()); } else if j > from { assert(s[j - from - 1 + to].sealed()); } }
    assert(packed(r.last())) by { if to < s.len() { assert(r.last() == s.last()); } else { assert(r.last() == x); } }
    assert forall|a: Aspect| goods(a, s) && good(a, x) implies #[trigger] goods(a, r) by {
        assert forall|j: int| 0 <= j < r.len() implies good(a, #[trigger] r[j]) by { if j < from { assert(good(a, s[j])); } else if j > from { assert(good(a, s[j - from - 1 + to])); } }
    }
}
/// the branch that was built over a range of the roots
pub proof fn lemma_joint<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int, x: BranchIndex<T>, c: Config)
    requires packed_roots(s), 0 <= from < to <= s.len(), wf(bx(x)), x.link is Some, kids::<T>(x.link.unwrap()) == Some(s.subrange(from, to)), x.sealed == seal(c, s.subrange(from, to), x.level),
        forall|i: int| 0 <= i < to - from - 1 ==> (#[trigger] s.skip(from)[i]).level() == s[from].level(),
        to < s.len() ==> to - from == lim(c, (s[from].level() + 1) as u32) && s[to - 1].level() == s[from].level(),
    ensures packed(bx(x)), x.level == s[from].level() + 1, to < s.len() ==> x.sealed
{
    reveal(packed_roots);
    lemma_range(s, from, to);
    let m = s.subrange(from, to);
    lemma_packed(x, m, (s[from].level() + 1) as u32);
    if to < s.len() { assert forall|j: int| 0 <= j < m.len() implies #[trigger] m[j].sealed() && m[j].level() == x.level - 1 by { assert(m[j] == s[from + j]); if j == m.len() - 1 { assert(m[j] == s[to - 1]); } } }
}
pub proof fn lemma_two<T: TreeTypes>(a: Index<T>, b: Index<T>) ensures all_elems(seq![a, b]) == elems(a) + elems(b) {
    lemma_one(a);
    assert(seq![a].push(b) =~= seq![a, b]);
    lemma_all_elems_push(seq![a], b);
}
}
verus! {
/// what is_packed reports
pub open spec fn packed0<T: TreeTypes>(i: Index<T>) -> bool decreases i.level() {
    i is Branch && i.link() is Some && !i.sealed() ==> ({
        let s = kids::<T>(i.link().unwrap()).unwrap();
        &&& left_full(s, i.level())
        &&& s.len() > 0 ==> s.last().level() < i.level() && packed0(s.last())
    })
}
/// in a tree in which only complete nodes are purged that is packed
pub proof fn lemma_packed0<T: TreeTypes>(i: Index<T>)
    requires wf(i), good(Aspect::Intact, i)
    ensures packed0(i) == packed(i)
    decreases i.level()
{
    if !i.sealed() && i is Branch { assert(node_ok(Aspect::Intact, i)); lemma_packed0(kids::<T>(i.link().unwrap()).unwrap().last()); }
}
/// each one is the first child of the next
pub open spec fn left_edge<T: TreeTypes>(s: Seq<Index<T>>) -> bool {
    &&& s.len() > 0
    &&& s[0].link() is None || s[0] is Leaf
    &&& all_wf(s)
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> (#[trigger] s[j + 1]) is Branch && s[j + 1].link() is Some && s[j] == kids::<T>(s[j + 1].link().unwrap()).unwrap()[0]
    &&& forall|j: int| 0 <= j < s.len() ==> #[trigger] elems(s[j]) == elems(s.last()).take(s[j].count() as int) && s[j].count() <= s.last().count()
}
pub proof fn lemma_left_edge<T: TreeTypes>(s: Seq<Index<T>>, i: Index<T>)
    requires wf(i), s.len() == 0 ==> i is Leaf || i.link() is None, s.len() > 0 ==> left_edge(s) && i is Branch && i.link() is Some && s.last() == kids::<T>(i.link().unwrap()).unwrap()[0]
    ensures left_edge(s.push(i))
{
    let r = s.push(i);
    lemma_len(i);
    assert(r.last() == i);
    assert forall|j: int| 0 <= j < r.len() implies wf(#[trigger] r[j]) by { if j < s.len() { assert(r[j] == s[j]); } }
    assert(all_wf(r));
    if s.len() > 0 { assert(r[0] == s[0]); lemma_first_elems(s.last(), i); } else { assert(r[0] == i); }
    assert(r[0].link() is None || r[0] is Leaf);
    assert forall|j: int| 0 <= j < r.len() - 1 implies (#[trigger] r[j + 1]) is Branch && r[j + 1].link() is Some && r[j] == kids::<T>(r[j + 1].link().unwrap()).unwrap()[0] by {
        if j < s.len() - 1 { assert(r[j + 1] == s[j + 1]); assert(r[j] == s[j]); } else { assert(r[j] == s.last()); assert(r[j + 1] == i); }
    }
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] elems(r[j]) == elems(r.last()).take(r[j].count() as int) && r[j].count() <= r.last().count() by {
        if j < s.len() {
            assert(r[j] == s[j]);
            lemma_len(s[j]);
            assert(elems(s[j]) == elems(s.last()).take(s[j].count() as int));
            assert(elems(s.last()) == elems(i).take(s.last().count() as int));
            assert(elems(r[j]) =~= elems(i).take(r[j].count() as int));
        } else { assert(r[j] == i); assert(elems(i) =~= elems(i).take(i.count() as int)); }
    }
}
/// the first child holds the first events
proof fn lemma_first_elems<T: TreeTypes>(c: Index<T>, i: Index<T>)
    requires wf(i), i is Branch, i.link() is Some, c == kids::<T>(i.link().unwrap()).unwrap()[0]
    ensures elems(c) == elems(i).take(c.count() as int), c.count() <= i.count(), wf(c)
{
    let k = kids::<T>(i.link().unwrap()).unwrap();
    lemma_kids(i);
    lemma_child_elems(k, 0);
    lemma_len(c);
    lemma_len(i);
    assert(counts(k.take(0)) == 0) by { assert(k.take(0) =~= Seq::empty()); }
    assert(elems(c) =~= elems(i).take(c.count() as int));
}
}
verus! {
/// what is needed of the part of the roots that is joined
pub proof fn lemma_range<T: TreeTypes>(s: Seq<Index<T>>, from: int, to: int)
    requires packed_roots(s), 0 <= from < to <= s.len(),
        forall|i: int| 0 <= i < to - from - 1 ==> (#[trigger] s.skip(from)[i]).level() == s[from].level()
    ensures all_wf(s.subrange(from, to)), desc(s.subrange(from, to)), left_full(s.subrange(from, to), (s[from].level() + 1) as u32), packed(s.subrange(from, to).last()),
        forall|j: int| 0 <= j < to - from ==> (#[trigger] s.subrange(from, to)[j]).level() <= s[from].level(),
        forall|j: int| 0 <= j < to - from && from + j < s.len() - 1 ==> (#[trigger] s.subrange(from, to)[j]).sealed(),
        has_level(s.subrange(from, to), s[from].level() as int),
        forall|a: Aspect| goods(a, s) ==> #[trigger] goods(a, s.subrange(from, to))
{
    reveal(packed_roots); reveal(desc);
    let m = s.subrange(from, to);
    assert forall|j: int| 0 <= j < m.len() implies wf(#[trigger] m[j]) && m[j].level() <= s[from].level() && (j < m.len() - 1 ==> m[j].level() == s[from].level()) && (from + j < s.len() - 1 ==> m[j].sealed()) by { assert(m[j] == s[from + j]); assert(s.skip(from)[j] == s[from + j]); }
    assert(m[0].level() == s[from].level());
    assert(m.last() == s[to - 1]);
    if to < s.len() { assert(s[to - 1].sealed()); }
    assert(wf(s[from]));
    assert forall|a: Aspect| goods(a, s) implies #[trigger] goods(a, m) by { assert forall|j: int| 0 <= j < m.len() implies good(a, #[trigger] m[j]) by { assert(m[j] == s[from + j]); } }
}
}
verus! {
pub proof fn lemma_rest_desc<T: TreeTypes>(s: Seq<Index<T>>, from: int)
    requires packed_roots(s), 0 <= from <= s.len()
    ensures desc(s), desc(s.skip(from)), from < s.len() ==> s.skip(from)[0] == s[from]
{
    reveal(packed_roots); reveal(desc);
    let t = s.skip(from);
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies (#[trigger] t[i]).level() >= (#[trigger] t[j]).level() by { assert(s[from + i].level() >= s[from + j].level()); }
}
}
