### fn banyan/src/index.rs zip_with_offset_ref
props: C06
retty: It<(&'a Index<T>, u64)>
params: value offset
spec:
    requires offset + counts(drefs(value.ii())) <= u64::MAX
    ensures r@.len() == value.ii().len(), forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j] == (value.ii()[j], (offset + counts(drefs(value.ii()).take(j))) as u64)
body:
{
{
let mut vxo0 = Vec :: new ( ) ;
let mut vxst0 = offset ;
//@ let ghost offset0 = offset;
//@ proof { assert(drefs(value.ii()).take(0) =~= Seq::empty()); }
vx_block ;
let mut vxit0 = vx_for ( value . vx_into_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == value.ii(), offset0 + counts(drefs(vxs0)) <= u64::MAX, vxst0 == offset0 + counts(drefs(vxs0).take(vxk0)), vxo0@.len() == vxk0,
//@ forall|j: int| #![trigger vxo0@[j]] 0 <= j < vxk0 ==> vxo0@[j] == (vxs0[j], (offset0 + counts(drefs(vxs0).take(j))) as u64)
{
proof
{
vxk0 = vxk0 + 1 ;
}
let x = vxit0 . take_next ( ) ;
//@ proof { lemma_count_take(drefs(vxs0), vxk0 - 1); }
let offset = & mut vxst0 ;
let o0 = * offset ;
* offset += x . count ( ) ;
vxo0 . push ( ( x , o0 ) ) ;
}
vxo0 . vx_into_iter ( )
}
}

### fn banyan/src/forest/write.rs Transaction::retain0
props: C06
params: self offset query index level stream
spec:
    requires wf(*index), good(Aspect::Intact, *index), *old(level) >= -1, offset + index.count() <= u64::MAX
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)),
    r is Ok && free_from(*index, *old(stream)) ==> settled(r->Ok_0, *final(stream), *index, *old(stream)),
    r is Ok ==> ret(*index, r->Ok_0, query, offset as int, *old(level) as int, *final(level) as int) && *final(level) >= -1,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && a != Aspect::Linked && good(a, *index) ==> #[trigger] good(a, r->Ok_0)
    decreases index.level()
body:
{
//@ let ghost ix = *index;
//@ let ghost l0 = *level as int;
//@ let ghost o = offset as int;
//@ let ghost secrets = stream.secrets;
//@ let ghost config = stream.config;
//@ proof { T::law_link(); }
if index . sealed ( ) && index . level ( ) as i32 <= * level
{
* level = index . level ( ) as i32 ;
}
else
{
* level = ( * level ) . vx_min ( index . level ( ) as i32 - 1 ) ;
}
match index
{
Index :: Branch ( index ) =>
{
let mut index = index . vx_as_ref ( ) . clone ( ) ;
let mut matching = vx_repeat ( true , index . summaries . len ( ) ) ;
//@ let ghost m0 = matching@;
query . intersecting ( offset , & index , & mut matching ) ;
//@ let ghost l1 = *level as int;
//@ proof {
//@ if none(matching@) { lemma_ruled_out(branch_ix(ix), query, o, m0, matching@); }
//@ }
if index . link . is_some ( ) && index . sealed && ! matching . vx_any ( ) && index . level as i32 <= * level
{
index . link = None ;
}
//@ proof { if index.link is None { lemma_ret_none(branch_ix(ix), index, query, o, l0, l1); } }
if let Some ( node ) = self . load_branch ( stream . secrets ( ) , & index ) ?
{
let mut children = node . children . vx_to_vec ( ) ;
let mut changed = false ;
//@ let ghost ks = kids::<T>(ix.link().unwrap()).unwrap();
//@ proof {
//@ lemma_kids(ix);
//@ lemma_good_kids(ix);
//@ assert(drefs(refs(ks)) =~= ks);
//@ lemma_counts_take(ks);
//@ assert(children@ =~= ks);
//@ lemma_ret_start(ks, ix.level(), query, o, l1);
//@ }
let offsets = zip_with_offset_ref ( node . children . vx_iter ( ) , offset ) ;
vx_block ;
let mut vxit0 = vx_for ( offsets . vx_enumerate ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ node.children@ == ks, vxs0.len() == ks.len(), forall|j: int| #![trigger vxs0[j]] 0 <= j < ks.len() ==> vxs0[j].0 == j && *vxs0[j].1.0 == ks[j] && vxs0[j].1.1 == o + counts(ks.take(j)),
//@ children@.len() == ks.len(), ret_kids(ks, children@, vxk0, ix.level(), query, o, l1, *level as int), *level >= -1,
//@ moved(*old(self), *old(stream), *self, *stream), !changed ==> children@ == ks, still_good(ks, children@, *stream),
//@ free_from(ix, *old(stream)) && !changed ==> stream.offset.value == old(stream).offset.value,
{
proof
{
vxk0 = vxk0 + 1 ;
}
let ( i , ( child , offset ) ) = vxit0 . take_next ( ) ;
//@ let ghost ch0 = children@;
//@ let ghost st2 = *stream;
//@ let ghost l2 = *level as int;
//@ proof {
//@ lemma_count_take(ks, vxk0 - 1);
//@ assert(*child == ks[vxk0 - 1] && wf(ks[vxk0 - 1]) && ks[vxk0 - 1].level() < ix.level());
//@ }
let child1 = self . retain0 ( offset , query , child , level , stream ) ? ;
if child1 . link ( ) != child . link ( )
{
children [ i ] = child1 ;
changed = true ;
}
//@ proof {
//@ if free_from(ix, *old(stream)) { lemma_settled(ix, ks, vxk0 - 1, child1, *old(stream), st2, *stream); }
//@ lemma_ret_step(ks, ch0, children@, child1, vxk0 - 1, ix.level(), query, o, l1, l2, *level as int);
//@ lemma_still_good(ks, ch0, children@, vxk0 - 1, child1, st2, *stream);
//@ }
}
//@ let ghost l3 = *level as int;
if changed
{
let ( link , _ ) = self . persist_branch ( & children , stream ) ? ;
index . link = Some ( link ) ;
}
//@ proof {
//@ reveal(ret_kids);
//@ lemma_ret_branch(branch_ix(ix), index, children@, query, o, l0, l1, l3);
//@ lemma_ret_good(branch_ix(ix), index, children@, *stream);
//@ }
}
Ok ( index . vx_into ( ) )
}
Index :: Leaf ( index ) =>
{
let mut index = index . vx_as_ref ( ) . clone ( ) ;
if index . sealed && index . link . is_some ( ) && * level >= 0
{
let mut matching = vx_repeat ( true , index . keys . len ( ) ) ;
//@ let ghost m0 = matching@;
query . containing ( offset , & index , & mut matching ) ;
//@ proof { lemma_mask(query, o, index.keys.seq(), m0, matching@); }
if ! matching . vx_any ( )
{
index . link = None
}
}
//@ proof { lemma_ret_leaf(leaf_ix(ix), index, query, o, l0, *level as int); }
Ok ( index . vx_into ( ) )
}
}
}

### fn banyan/src/tree.rs Transaction::retain
props: C06 C08
rewrite: i32 :: max_value ( )=>i32 :: MAX
params: self tree query
spec:
    requires builder_ok(*old(tree))
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state), builder_ok(*final(tree)),
    r is Ok && tight(*old(tree)) ==> tight(*final(tree)),
    r is Ok ==> (final(tree).root is Some) == (old(tree).root is Some),
    r is Ok && old(tree).root is Some ==> final(tree).root.unwrap() == with_link(old(tree).root.unwrap(), *final(tree).root.unwrap().link()) && elems(final(tree).root.unwrap()) == kept(old(tree).root.unwrap(), query, 0, false),
    r is Err ==> final(tree).root == old(tree).root,
    r is Ok ==> forall|a: Aspect| keeps(a, final(tree).state) && a != Aspect::Linked && root_good(a, old(tree).root) ==> #[trigger] root_good(a, final(tree).root)
body:
{
//@ broadcast use lemma_before;
let index = tree . index ( ) . vx_cloned ( ) ;
//@ proof { if old(tree).root is Some { lemma_ret_root(old(tree).root.unwrap(), query); } }
if let Some ( index ) = index
{
let mut level : i32 = i32 :: max_value ( ) ;
let index = self . retain0 ( 0 , query , & index , & mut level , tree . state_mut ( ) ) ? ;
tree . set_index ( Some ( index ) ) ;
}
Ok ( ( ) )
}
