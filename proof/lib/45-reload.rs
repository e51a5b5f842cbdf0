verus! {
// ================================================================ starting again from a saved root
/// what the roots of trees say about their links (lemma_saved)
pub open spec fn saved<T: TreeTypes>(l: T::Link) -> bool {
    known(l) && (kids::<T>(l) is Some ==> forall|j: int| 0 <= j < kids::<T>(l).unwrap().len() ==> wf(#[trigger] kids::<T>(l).unwrap()[j]) && kids::<T>(l).unwrap()[j].level() < max_level())
}
pub proof fn lemma_saved<T: TreeTypes>(x: Index<T>)
    requires wf(x), x is Branch, x.link() is Some
    ensures saved::<T>(x.link().unwrap())
{}
/// the flag is what the function says about the children
pub open spec fn sealed_by<T: TreeTypes, F: Fn(&[Index<T>], u32) -> bool>(f: F, s: Seq<Index<T>>, level: u32, r: bool) -> bool { exists|c: &[Index<T>]| c@ == s && #[trigger] call_ensures(f, (c, level), r) }
/// an index for the children stored under a link
pub open spec fn reloaded<T: TreeTypes>(l: T::Link, y: Index<T>) -> bool {
    y is Branch && y.link() == Some(l) && wf(y) && elems(y) == all_elems(kids::<T>(l).unwrap())
}
/// which is that of the tree that was saved, but for the flag whether the root is complete
pub proof fn lemma_reloaded<T: TreeTypes>(x: Index<T>, y: Index<T>)
    requires wf(x), x is Branch, x.link() is Some, reloaded(x.link().unwrap(), y)
    ensures elems(y) == elems(x), y.count() == x.count(), y.level() == x.level(), y->Branch_0.summaries.seq() == x->Branch_0.summaries.seq(),
        forall|s: Secrets| good(Aspect::Keys(s), x) ==> #[trigger] good(Aspect::Keys(s), y),
        forall|s: Secrets| good(Aspect::Avail(s), x) ==> #[trigger] good(Aspect::Avail(s), y),
        good(Aspect::Served, x) ==> good(Aspect::Served, y),
        good(Aspect::Linked, x) ==> good(Aspect::Linked, y),
        y.sealed() == x.sealed() ==> (forall|a: Aspect| good(a, x) ==> #[trigger] good(a, y)) && (forall|l: int| rootable(x, l) ==> #[trigger] rootable(y, l)) && packed(x) == packed(y),
{
    lemma_kids(x);
    let s = kids::<T>(x.link().unwrap()).unwrap();
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).level() == x->Branch_0.level - 1;
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).level() == y->Branch_0.level - 1;
    assert(s[k].level() < x->Branch_0.level && s[j].level() < y->Branch_0.level);
    assert(x.level() == y.level());
    assert forall|sc: Secrets| good(Aspect::Keys(sc), x) implies #[trigger] good(Aspect::Keys(sc), y) by { assert(node_ok(Aspect::Keys(sc), y)); }
    assert forall|sc: Secrets| good(Aspect::Avail(sc), x) implies #[trigger] good(Aspect::Avail(sc), y) by { assert(node_ok(Aspect::Avail(sc), y)); }
    if good(Aspect::Served, x) { assert(node_ok(Aspect::Served, y)); }
    if good(Aspect::Linked, x) { assert(node_ok(Aspect::Linked, y)); }
    if y.sealed() == x.sealed() {
        assert forall|a: Aspect| good(a, x) implies #[trigger] good(a, y) by { assert(node_ok(a, y)); }
    }
}
/// a builder that goes on from a saved root
pub open spec fn resumes<T: TreeTypes, V>(x: Index<T>, b: StreamBuilder<T, V>) -> bool {
    let y = b.root.unwrap();
    &&& b.root is Some && builder_ok(b)
    &&& elems(y) == elems(x) && y.count() == x.count() && y.level() == x.level() && y.sealed() == x.sealed() && y.link() == x.link() && y->Branch_0.summaries.seq() == x->Branch_0.summaries.seq()
    &&& packed(y) == packed(x) && forall|a: Aspect| good(a, x) ==> #[trigger] good(a, y)
}
pub proof fn lemma_resumes<T: TreeTypes, V>(x: Index<T>, b: StreamBuilder<T, V>)
    requires tree_ok(x), x is Branch, x.link() is Some, b.root is Some, reloaded(x.link().unwrap(), b.root.unwrap()), cfg_ok(b.state.config), good(Aspect::Limits(b.state.config), x), good(Aspect::Before(b.state.offset.value as int), x),
        b.root.unwrap().sealed() == seal(b.state.config, kids::<T>(x.link().unwrap()).unwrap(), b.root.unwrap().level())
    ensures resumes(x, b)
{
    let y = b.root.unwrap();
    lemma_reloaded(x, y);
    assert(node_ok(Aspect::Limits(b.state.config), x));
    assert(y.sealed() == x.sealed());
    assert(good(Aspect::Intact, y));
    assert(rootable(y, top()));
    assert(good(Aspect::Before(b.state.offset.value as int), y));
}
}
verus! {
/// goes on exactly where the builder was when it wrote this root
pub open spec fn continues<T: TreeTypes, V>(b: StreamBuilder<T, V>, r: StreamBuilder<T, V>) -> bool { resumes(b.root.unwrap(), r) && r.state.offset.value == b.state.offset.value && tight(r) }
pub open spec fn saves<T: TreeTypes, V>(b: StreamBuilder<T, V>, link: T::Link, config: Config) -> bool {
    builder_ok(b) && tight(b) && b.root is Some && b.root.unwrap() is Branch && b.root.unwrap().link() == Some(link) && b.state.config == config && good(Aspect::Limits(config), b.root.unwrap())
}
}
