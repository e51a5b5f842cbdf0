### fn banyan/src/forest/read.rs Forest::check_leaf
props: C07
params: self stream index
spec:
    ensures r is Ok && index.link is Some ==> served(index.link.unwrap()) && under_key::<T>(stream.value_key, index.link.unwrap()),
    wf(lx(*index)) && (index.link is Some ==> readable::<T>(stream.value_key, index.link.unwrap())) ==> r is Ok
body:
{
if let Some ( leaf ) = self . load_leaf ( stream , index ) ?
{
let count = leaf . vx_as_ref ( ) . count ( ) ? ;
if ! ( count == index . keys . count ( ) )
{
return Err ( vx_err ( ) ) ;
}
}
Ok ( ( ) )
}

### fn banyan/src/forest/write.rs Transaction::repair0
props: C07
closure 0: -> (vxr: String)
closure 1: -> (vxr: String)
params: self index report level stream
spec:
    requires wf(*index), *old(level) >= -1
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), *final(level) >= -1,
    r is Ok ==> is_before(*index, r->Ok_0, *final(stream)),
    r is Ok && free_from(*index, *old(stream)) ==> settled(r->Ok_0, *final(stream), *index, *old(stream)),
    r is Ok ==> rep(*index, r->Ok_0, old(stream).secrets)
    decreases index.level()
body:
{
//@ let ghost ix = *index;
//@ let ghost secrets = stream.secrets;
//@ proof { T::law_link(); }
if ! index . sealed ( )
{
* level = ( * level ) . vx_min ( ( index . level ( ) as i32 ) - 1 ) ;
}
match index
{
Index :: Branch ( index ) =>
{
let branch = self . load_branch ( stream . secrets ( ) , index ) ;
let mut index = index . vx_as_ref ( ) . clone ( ) ;
match branch
{
Ok ( Some ( node ) ) =>
{
let mut children = node . children . vx_to_vec ( ) ;
//@ let ghost ks = kids::<T>(ix.link().unwrap()).unwrap();
//@ proof {
//@ assert(children@ =~= ks && children.len() == ks.len());
//@ lemma_kids(ix);
//@ lemma_reps_start(ks, secrets);
//@ }
let mut changed = false ;
vx_block ;
let mut vxit0 = vx_for ( node . children . vx_iter ( ) . vx_enumerate ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0.len() == ks.len(), forall|j: int| #![trigger vxs0[j]] 0 <= j < ks.len() ==> vxs0[j].0 == j && *vxs0[j].1 == ks[j],
//@ children@.len() == ks.len(), reps(ks, children@, vxk0, secrets, changed), *level >= -1, all_before(ks, children@, *stream),
//@ moved(*old(self), *old(stream), *self, *stream),
//@ free_from(ix, *old(stream)) && !changed ==> stream.offset.value == old(stream).offset.value,
{
proof
{
vxk0 = vxk0 + 1 ;
}
let ( i , child ) = vxit0 . take_next ( ) ;
//@ let ghost ch0 = children@;
//@ let ghost st2 = *stream;
//@ let ghost changed0 = changed;
//@ proof { assert(*child == ks[vxk0 - 1] && wf(ks[vxk0 - 1]) && ks[vxk0 - 1].level() < ix.level()); }
let child1 = self . repair0 ( child , report , level , stream ) ? ;
if child1 . link ( ) != child . link ( )
{
children [ i ] = child1 ;
changed = true ;
}
//@ proof {
//@ if free_from(ix, *old(stream)) { lemma_settled(ix, ks, vxk0 - 1, child1, *old(stream), st2, *stream); }
//@ lemma_all_before(ks, ch0, children@, vxk0 - 1, child1, st2, *stream);
//@ lemma_reps_step(ks, ch0, children@, child1, vxk0 - 1, secrets, changed0, changed);
//@ }
}
if changed
{
let ( link , _ ) = self . persist_branch ( & children , stream ) ? ;
index . link = Some ( link ) ;
}
//@ proof { reveal(reps); lemma_reps_branch(branch_ix(ix), index, children@, secrets, changed); lemma_branch_before(branch_ix(ix), index, children@, *stream); }
}
Ok ( None ) =>
{
}
Err ( cause ) =>
{
let link_txt = index . link . vx_map ( | x | -> ( vxr : String )
{
x . vx_to_string ( )
}
) . vx_unwrap_or_default ( ) ;
report . push ( vx_string ( ) ) ;
if ! index . sealed
{
report . push ( "warning: forgetting unsealed branch!" . vx_into ( ) ) ;
}
else if index . level as i32 > * level
{
report . push ( "warning: forgetting branch in unpacked part!" . vx_into ( ) ) ;
}
index . link = None ;
}
}
//@ proof { if index.link is None { lemma_rep_none(ix, bx(index), secrets); lemma_none_before(ix, bx(index), *stream); } }
Ok ( index . vx_into ( ) )
}
Index :: Leaf ( index ) =>
{
let mut index = index . vx_as_ref ( ) . clone ( ) ;
if let Err ( cause ) = self . check_leaf ( stream . secrets ( ) , & index )
{
let link_txt = index . link . vx_map ( | x | -> ( vxr : String )
{
x . vx_to_string ( )
}
) . vx_unwrap_or_default ( ) ;
report . push ( vx_string ( ) ) ;
if ! index . sealed
{
report . push ( "warning: forgetting unsealed leaf!" . vx_into ( ) ) ;
}
else if * level < 0
{
report . push ( "warning: forgetting leaf in unpacked part!" . vx_into ( ) ) ;
}
index . link = None ;
}
//@ proof { lemma_none_before(ix, lx(index), *stream); if index.link is None { lemma_rep_none(ix, lx(index), secrets); } else { lemma_rep_leaf(ix, secrets); } }
Ok ( index . vx_into ( ) )
}
}
}

### fn banyan/src/tree.rs Transaction::repair
props: C07 C08
rewrite: i32 :: max_value ( )=>i32 :: MAX
params: self tree
spec:
    requires old(tree).root is Some ==> wf(old(tree).root.unwrap())
    ensures moved(*old(self), old(tree).state, *final(self), final(tree).state),
    root_good(Aspect::Before(old(tree).state.offset.value as int), old(tree).root) ==> root_good(Aspect::Before(final(tree).state.offset.value as int), final(tree).root),
    r is Ok && tight(*old(tree)) && root_good(Aspect::Before(old(tree).state.offset.value as int), old(tree).root) ==> tight(*final(tree)),
    r is Ok ==> (final(tree).root is Some) == (old(tree).root is Some),
    r is Ok && old(tree).root is Some ==> rep(old(tree).root.unwrap(), final(tree).root.unwrap(), old(tree).state.secrets),
    r is Ok && old(tree).root is Some && keeps_serving::<T::Link>() ==> good(Aspect::Avail(old(tree).state.secrets), final(tree).root.unwrap()),
    r is Err ==> final(tree).root == old(tree).root
body:
{
//@ broadcast use lemma_before;
let mut report = Vec :: new ( ) ;
let index = tree . index ( ) . vx_cloned ( ) ;
//@ proof { if old(tree).root is Some { lemma_repaired_root(old(tree).root.unwrap(), old(tree).state.secrets); } }
if let Some ( index ) = index
{
let mut level : i32 = i32 :: max_value ( ) ;
let repaired = self . repair0 ( & index , & mut report , & mut level , tree . state_mut ( ) ) ? ;
tree . set_index ( Some ( repaired ) ) ;
}
Ok ( report )
}
