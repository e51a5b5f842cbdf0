### fn banyan/src/tree.rs is_sorted
props: C05
name: is_sorted_tree
subst: T=u32;nogen=1
closure 0: -> (vxr: bool) requires $0@.len() == 2 ensures vxr == ($0@[0] <= $0@[1])
tail: 1
params: iter
spec:
    ensures r == sorted(iter@),
body:
{
let vxt : bool = iter . vx_collect :: < Vec < _ > > ( ) . vx_windows ( 2 ) . vx_all ( | x | -> ( vxr : bool ) requires x @. len ( ) == 2 ensures vxr == ( x @ [ 0 ] <= x @ [ 1 ] )
{
x [ 0 ] <= x [ 1 ]
}
) ;
//@ proof {
//@ if vxt {
//@ assert forall|i: int| 0 <= i < iter@.len() - 1 implies #[trigger] iter@[i] <= iter@[i + 1] by { let w = iter@.subrange(i, i + 2); assert(w[0] == iter@[i] && w[1] == iter@[i + 1]); }
//@ lemma_adjacent_sorted(iter@);
//@ }
//@ }
vxt
}

### fn banyan/src/tree.rs Forest::collect_from
props: C02 C15 C01
params: self tree offset
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures r is Ok && tree.0 is None ==> r->Ok_0@.len() == 0,
    r is Ok && tree.0 is Some ==> shows_all(elems(tree.0.unwrap().0).skip(min(offset as int, tree.0.unwrap().0.count() as int)), r->Ok_0@),
    (tree.0 is Some ==> rest_ok::<T, V>(tree.0.unwrap().1, tree.0.unwrap().0, offset as int)) ==> r is Ok
body:
{
let mut res = Vec :: new ( ) ;
if let Some ( ( index , secrets , _ ) ) = & tree . 0
{
self . collect0 ( secrets , index , offset , & mut res ) ? ;
}
Ok ( res )
}

### fn banyan/src/tree.rs Forest::collect
props: C02 C15 C01
params: self tree
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures r is Ok && tree.0 is None ==> r->Ok_0@.len() == 0,
    r is Ok && tree.0 is Some ==> shows_all(elems(tree.0.unwrap().0), r->Ok_0@),
    (tree.0 is Some ==> rest_ok::<T, V>(tree.0.unwrap().1, tree.0.unwrap().0, 0)) ==> r is Ok
body:
{
self . collect_from ( tree , 0 )
}

### fn banyan/src/tree.rs Forest::get
props: C02 C15
params: self tree offset
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures tree.0 is None ==> r is Ok && r->Ok_0 is None,
    tree.0 is Some && offset >= tree.0.unwrap().0.count() ==> r is Ok && r->Ok_0 is None,
    r is Ok && tree.0 is Some && offset < tree.0.unwrap().0.count() ==> offset < elems(tree.0.unwrap().0).len() && shows(elems(tree.0.unwrap().0)[offset as int], r->Ok_0),
    tree.0 is Some && at_ok::<T, V>(tree.0.unwrap().1, tree.0.unwrap().0, offset as int) ==> r is Ok
body:
{
Ok ( match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . get0 ( secrets , index , offset ) ? ,
None => None ,
}
)
}

### fn banyan/src/tree.rs Forest::left_roots
props: C14
closure 0: -> (vxr: Tree<T, V>) ensures vxr.0 == Some(($0, *secrets, u64::MAX))
params: self tree
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures r is Ok && tree.0 is None ==> r->Ok_0@.len() == 0,
    r is Ok && tree.0 is Some ==> exists|s: Seq<Index<T>>| #[trigger] left_edge(s) && s.last() == tree.0.unwrap().0 && s.len() == r->Ok_0@.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] r->Ok_0@[j]).0 == Some((s[j], tree.0.unwrap().1, u64::MAX))
body:
{
Ok ( if let Some ( ( index , secrets , _ ) ) = & tree . 0
{
self . left_roots0 ( secrets , index ) ? . vx_into_iter ( ) . vx_map ( | x | -> ( vxr : Tree < T , V > ) ensures vxr . 0 == Some ( ( x , * secrets , u64 :: MAX ) )
{
Tree :: new ( x , secrets . clone ( ) , u64 :: max_value ( ) )
}
) . vx_collect ( )
}
else
{
Vec :: new ( )
}
)
}

### fn banyan/src/tree.rs Transaction::tree_from_roots
props: C14 C01 C08
rewrite: is_sorted ( => is_sorted_tree (
params: self roots stream
spec:
    requires cfg_ok(old(stream).state.config), packed_roots(roots@), desc(roots@), forall|j: int| 0 <= j < roots@.len() ==> (#[trigger] roots@[j]).sealed()
    ensures moved(*old(self), old(stream).state, *final(self), final(stream).state),
    r is Ok && roots@.len() > 1 ==> tight(*final(stream)),
    r is Ok && roots@.len() <= 1 ==> tight(*final(stream)) || final(stream).state.offset.value == old(stream).state.offset.value && (roots@.len() == 1 ==> final(stream).root == Some(roots@[0])),
    r is Err ==> final(stream).root == old(stream).root,
    r is Ok ==> (final(stream).root is Some) == (roots@.len() > 0) && root_elems(final(stream).root) == all_elems(roots@) && root_packed(final(stream).root) && (final(stream).root is Some ==> wf(final(stream).root.unwrap())),
    r is Ok ==> forall|a: Aspect| keeps(a, final(stream).state) && goods(a, roots@) ==> #[trigger] root_good(a, final(stream).root)
body:
{
//@ broadcast use lemma_desc_levels;
//@ let ghost rs = roots@;
//@ let ghost w0 = self.writer.log();
vx_assert ( roots . vx_iter ( ) . vx_all ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . sealed ( ) )
}
)
{
x . sealed ( )
}
) ) ;
vx_assert ( is_sorted ( roots . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_rev ( ) ) ) ;
while roots . len ( ) > 1
//@ invariant packed_roots(roots@), all_elems(roots@) == all_elems(rs), (roots@.len() > 0) == (rs.len() > 0), stream.root == old(stream).root,
//@ moved(*old(self), old(stream).state, *self, stream.state), roots@ == rs && stream.state.offset.value == old(stream).state.offset.value || (roots@.len() == 1 ==> newest(roots@[0], stream.state)),
//@ forall|a: Aspect| keeps(a, stream.state) && goods(a, rs) ==> #[trigger] goods(a, roots@)
//@ decreases weight(roots@)
{
self . simplify_roots ( & mut roots , 0 , stream . state_mut ( ) ) ? ;
}
//@ proof {
//@ reveal(packed_roots);
//@ if roots@.len() == 1 { assert(roots@ =~= seq![roots@[0]]); lemma_one(roots@[0]); assert forall|a: Aspect| #[trigger] goods(a, roots@) implies good(a, roots@[0]) by {} }
//@ }
//@ proof {
//@ let r1 = if roots@.len() == 1 { Some(roots@[0]) } else { None };
//@ assert forall|a: Aspect| keeps(a, stream.state) && goods(a, rs) implies #[trigger] root_good(a, r1) by { assert(goods(a, roots@)); if r1 is Some { assert(good(a, roots@[0])); } }
//@ assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::empty());
//@ if roots@.len() == 0 { assert(roots@ =~= Seq::empty()); }
//@ }
stream . set_index ( roots . pop ( ) ) ;
Ok ( ( ) )
}

### fn banyan/src/tree.rs Transaction::pack
props: C01 C05 C08 C14
params: self tree
spec:
    requires builder_ok(*old(tree))
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state), builder_ok(*final(tree)),
    r is Ok && (root_packed(old(tree).root) ==> tight(*old(tree))) ==> tight(*final(tree)),
    r is Ok ==> (final(tree).root is Some) == (old(tree).root is Some) && root_packed(final(tree).root) && same_reads::<T::Key, V>(root_elems(old(tree).root), root_elems(final(tree).root)),
    r is Ok && root_packed(old(tree).root) ==> final(tree).root == old(tree).root,
    r is Ok ==> forall|a: Aspect| keeps(a, final(tree).state) && root_good(a, old(tree).root) ==> #[trigger] root_good(a, final(tree).root)
    decreases 1int
body:
{
//@ broadcast use lemma_before;
//@ let ghost root0 = tree.root;
//@ let ghost e0 = root_elems(root0);
//@ proof { lemma_packed_root(root0); lemma_tree_elems(root0); lemma_same_refl::<T::Key, V>(e0); }
let initial = tree . snapshot ( ) ;
if self . is_packed ( & initial ) ?
{
return Ok ( ( ) ) ;
}
let roots = self . roots ( tree ) ? ;
//@ let ghost rs = roots@;
//@ proof { if root0 is Some { lemma_roots_packed(rs, e0, walk(root0.unwrap(), top())); assert(goods(Aspect::Intact, rs)); assert(goods(Aspect::Before(tree.state.offset.value as int), rs)); } }
self . tree_from_roots ( roots , tree ) ? ;
//@ let ghost root1 = tree.root;
//@ let ghost n = all_elems(rs).len() as int;
//@ proof {
//@ assert(keeps(Aspect::Intact, tree.state));
//@ assert(root_good(Aspect::Intact, root1));
//@ lemma_tree_ok(root1);
//@ }
let remainder : Vec < _ > = self . collect_from ( & initial , tree . count ( ) ) ? . vx_into_iter ( ) . vx_collect :: < Option < Vec < _ > > > ( ) . vx_ok_or_else ( | |
{
vx_err ( )
}
) ? ;
//@ proof {
//@ lemma_same_refl::<T::Key, V>(root_elems(root1));
//@ assert forall|x: Seq<Option<(T::Key, V)>>| #[trigger] shows_all(e0.skip(n), x) && remainder@ == somes(x) && (forall|i: int| 0 <= i < x.len() ==> x[i] is Some) implies same_reads::<T::Key, V>(e0, e0.take(n) + added(remainder@)) && remainder@.len() == e0.len() - n && (remainder@.len() == 0 ==> e0.take(n) == e0) by { lemma_remainder(e0, n, x, remainder@); }
//@ }
self . vx_extend ( tree , remainder ) ? ;
Ok ( ( ) )
}

### fn banyan/src/tree.rs Transaction::extend
props: C01 C05 C08 C13
params: self tree from
spec:
    requires builder_ok(*old(tree))
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state), builder_ok(*final(tree)),
    r is Ok && (from.ii().len() > 0 || tight(*old(tree))) ==> tight(*final(tree)),
    r is Err || from.ii().len() == 0 ==> final(tree).root == old(tree).root,
    r is Ok && from.ii().len() > 0 ==> final(tree).root is Some && root_packed(final(tree).root) && same_reads::<T::Key, V>(root_elems(old(tree).root) + added(from.ii()), root_elems(final(tree).root)),
    r is Ok && root_packed(old(tree).root) ==> root_elems(final(tree).root) == root_elems(old(tree).root) + added(from.ii()),
    r is Ok ==> forall|a: Aspect| keeps(a, final(tree).state) && root_good(a, old(tree).root) ==> #[trigger] root_good(a, final(tree).root)
    decreases (if root_packed(old(tree).root) { 0int } else { 2int })
body:
{
//@ broadcast use lemma_before;
//@ let ghost root0 = tree.root;
//@ let ghost st0 = tree.state;
//@ let ghost e0 = root_elems(root0);
//@ proof { lemma_packed_root(root0); lemma_same_refl::<T::Key, V>(e0); }
let mut from = from . vx_into_iter ( ) . vx_peekable ( ) ;
//@ let ghost from0 = from@;
if from . peek ( ) . is_none ( )
{
return Ok ( ( ) ) ;
}
let mut tree = tree . transaction ( ) ;
if ! match self . is_packed ( & tree . vx_deref_mut ( ) . snapshot ( ) )
{
Ok ( vxv ) => vxv ,
Err ( vxe ) =>
{
tree . vx_drop ( ) ;
return Err ( vxe ) ;
}
}
{
match self . pack ( tree . vx_deref_mut ( ) )
{
Ok ( vxv ) => vxv ,
Err ( vxe ) =>
{
tree . vx_drop ( ) ;
return Err ( vxe ) ;
}
}
;
}
//@ let ghost root1 = tree.builder.root;
//@ proof { lemma_packed_root(root1); lemma_same_reads::<T::Key, V>(e0, root_elems(root1), added(from0)); }
let index = tree . vx_deref_mut ( ) . as_index_ref ( ) . vx_cloned ( ) ;
let index = match self . extend_above ( index . vx_as_ref ( ) , u32 :: max_value ( ) , from . vx_by_ref ( ) , tree . vx_deref_mut ( ) . state_mut ( ) , )
{
Ok ( vxv ) => vxv ,
Err ( vxe ) =>
{
tree . vx_drop ( ) ;
return Err ( vxe ) ;
}
}
;
//@ proof {
//@ lemma_taken(from0, from0, from0);
//@ assert(from@ =~= Seq::empty());
//@ assert(taken(from0, from@) =~= from0);
//@ assert(keeps(Aspect::Intact, tree.builder.state));
//@ lemma_tree_ok(Some(index));
//@ assert forall|a: Aspect| keeps(a, tree.builder.state) && root_good(a, root0) implies #[trigger] root_good(a, Some(index)) by { assert(root_good(a, root1)); assert(root1 is Some ==> good(a, root1.unwrap())); assert(good(a, index)); }
//@ }
tree . vx_deref_mut ( ) . set_index ( Some ( index ) ) ;
tree . commit ( ) ;
Ok ( ( ) )
}

### fn banyan/src/tree.rs Transaction::push
props: C01 C05 C08 C13
params: self tree key value
spec:
    requires builder_ok(*old(tree))
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state), builder_ok(*final(tree)),
    r is Ok ==> tight(*final(tree)),
    r is Err ==> final(tree).root == old(tree).root,
    r is Ok ==> final(tree).root is Some && root_packed(final(tree).root) && same_reads::<T::Key, V>(root_elems(old(tree).root).push(Some((key, value.wr()))), root_elems(final(tree).root)),
    r is Ok ==> forall|a: Aspect| keeps(a, final(tree).state) && root_good(a, old(tree).root) ==> #[trigger] root_good(a, final(tree).root)
body:
{
//@ broadcast use lemma_before;
//@ proof {
//@ let s = seq![(key, value)];
//@ assert(added(s) =~= seq![Some((key, value.wr()))]);
//@ assert(root_elems(tree.root) + added(s) =~= root_elems(tree.root).push(Some((key, value.wr()))));
//@ }
self . vx_extend ( tree , Some ( ( key , value ) ) )
}

### fn banyan/src/tree.rs Transaction::extend_unpacked
props: C01 C05 C08 C13
params: self tree from
spec:
    requires builder_ok(*old(tree))
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state), builder_ok(*final(tree)),
    r is Ok && (from.ii().len() > 0 || tight(*old(tree))) ==> tight(*final(tree)),
    r is Err || from.ii().len() == 0 ==> final(tree).root == old(tree).root,
    r is Ok && from.ii().len() > 0 ==> final(tree).root is Some && root_elems(final(tree).root) == root_elems(old(tree).root) + added(from.ii()),
    r is Ok ==> forall|a: Aspect| keeps(a, final(tree).state) && root_good(a, old(tree).root) ==> #[trigger] root_good(a, final(tree).root)
body:
{
//@ broadcast use lemma_before;
//@ let ghost root0 = tree.root;
//@ let ghost e0 = root_elems(root0);
//@ proof { lemma_packed_root(root0); lemma_same_refl::<T::Key, V>(e0); }
let index = tree . as_index_ref ( ) . vx_cloned ( ) ;
let index = self . extend_unpacked0 ( index . vx_as_ref ( ) , from , tree . state_mut ( ) ) ? ;
//@ proof {
//@ assert(keeps(Aspect::Intact, tree.state));
//@ if index is Some && root0 is None { lemma_tree_ok(index); }
//@ }
tree . set_index ( index ) ;
Ok ( ( ) )
}
