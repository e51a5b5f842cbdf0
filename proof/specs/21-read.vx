### fn banyan/src/forest/read.rs Forest::get0
props: C02 C15
params: self stream index offset
spec:
    requires wf(*index)
    ensures offset >= index.count() ==> r is Ok && r->Ok_0 is None,
    r is Ok && offset < index.count() ==> offset < elems(*index).len() && shows(elems(*index)[offset as int], r->Ok_0),
    at_ok::<T, V>(*stream, *index, offset as int) ==> r is Ok
    decreases index.level()
body:
{
//@ let ghost offset0 = offset as int;
//@ let ghost ix = *index;
//@ proof { lemma_len(ix); }
if offset >= index . count ( )
{
return Ok ( None ) ;
}
match self . node_info ( stream , index )
{
NodeInfo :: Branch ( _ , info ) =>
{
//@ let ghost ks = kids::<T>(ix.link().unwrap()).unwrap();
//@ proof { lemma_kids(ix); lemma_len_wf(ks); assert(ks.skip(0) =~= ks); assert(ks.take(0) =~= Seq::empty()); }
let node = info . load_cached ( ) ? ;
vx_block ;
let mut vxit0 = vx_for ( node . children . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ node.children@ == ks, vxs0.len() == ks.len(), forall|j: int| 0 <= j < ks.len() ==> *vxs0[j] == #[trigger] ks[j], offset0 == offset + counts(ks.take(vxk0)), kids_at_ok::<T, V>(*stream, ks, offset0, ix.level()) == kids_at_ok::<T, V>(*stream, ks.skip(vxk0), offset as int, ix.level())
{
proof
{
vxk0 = vxk0 + 1 ;
}
let child = vxit0 . take_next ( ) ;
//@ proof {
//@ let k = vxk0 - 1;
//@ assert(*child == ks[k] && wf(ks[k]) && ks[k].level() < ix.level());
//@ lemma_child_elems(ks, k);
//@ assert(ks.skip(k)[0] == ks[k]);
//@ assert(ks.skip(k).skip(1) =~= ks.skip(vxk0));
//@ if offset < child.count() { assert(elems(*child)[offset as int] == all_elems(ks)[offset0]); }
//@ }
if offset < child . count ( )
{
return self . get0 ( stream , child , offset ) ;
}
else
{
offset -= child . count ( ) ;
}
}
//@ proof { assert(ks.take(vxk0) =~= ks); }
Err ( vx_err ( ) )
}
NodeInfo :: Leaf ( index , leaf ) =>
{
let k = index . keys . vx_get ( offset as usize ) . vx_unwrap ( ) ;
let leaf = leaf . load ( ) ? ;
//@ proof { lemma_cbor_nth(raw(ix.link().unwrap()), offset as int); }
let v = leaf . child_at :: < V > ( offset ) ? ;
Ok ( Some ( ( k , v ) ) )
}
NodeInfo :: PurgedBranch ( _ ) | NodeInfo :: PurgedLeaf ( _ ) => Ok ( None ) ,
}
}

### fn banyan/src/forest/read.rs Forest::collect0
props: C02 C15
params: self stream index offset into
attr: #[verifier::spinoff_prover]
spec:
    requires wf(*index)
    ensures final(into)@.len() >= old(into)@.len(), final(into)@.take(old(into)@.len() as int) == old(into)@,
    r is Ok ==> shows_all(elems(*index).skip(min(offset as int, index.count() as int)), final(into)@.skip(old(into)@.len() as int)),
    rest_ok::<T, V>(*stream, *index, offset as int) ==> r is Ok
    decreases index.level()
body:
{
//@ let ghost offset0 = offset as int;
//@ let ghost ix = *index;
//@ let ghost into0 = into@;
//@ proof { lemma_len(ix); }
if offset >= index . count ( )
{
return Ok ( ( ) ) ;
}
match self . node_info ( stream , index )
{
NodeInfo :: Branch ( _ , node ) =>
{
//@ let ghost ks = kids::<T>(ix.link().unwrap()).unwrap();
//@ proof { lemma_kids(ix); lemma_len_wf(ks); assert(ks.skip(0) =~= ks); assert(ks.take(0) =~= Seq::empty()); }
vx_block ;
let vxv0 = node . load_cached ( ) ? ;
let mut vxit0 = vx_for ( vxv0 . children . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0.len() == ks.len(), forall|j: int| 0 <= j < ks.len() ==> *vxs0[j] == #[trigger] ks[j], offset == (if offset0 >= counts(ks.take(vxk0)) { offset0 - counts(ks.take(vxk0)) } else { 0 }),
//@ kids_rest_ok::<T, V>(*stream, ks, offset0, ix.level()) ==> kids_rest_ok::<T, V>(*stream, ks.skip(vxk0), offset as int, ix.level()),
//@ into@.len() >= into0.len(), into@.take(into0.len() as int) == into0,
//@ 0 <= counts(ks.take(vxk0)) <= all_elems(ks).len(), shows_all(all_elems(ks).subrange(min(offset0, counts(ks.take(vxk0))), counts(ks.take(vxk0))), into@.skip(into0.len() as int))
{
proof
{
vxk0 = vxk0 + 1 ;
}
let child = vxit0 . take_next ( ) ;
//@ let ghost into1 = into@;
//@ proof {
//@ let k = vxk0 - 1;
//@ assert(*child == ks[k] && wf(ks[k]) && ks[k].level() < ix.level());
//@ lemma_child_elems(ks, k);
//@ assert(ks.skip(k)[0] == ks[k]);
//@ assert(ks.skip(k).skip(1) =~= ks.skip(vxk0));
//@ }
if offset < child . count ( )
{
self . collect0 ( stream , child , offset , into ) ? ;
}
//@ proof { lemma_collected(all_elems(ks), elems(*child), offset0, offset as int, counts(ks.take(vxk0 - 1)), counts(ks.take(vxk0)), into0.len() as int, into0, into1, into@); }
offset = offset . vx_saturating_sub ( child . count ( ) ) ;
}
}
NodeInfo :: Leaf ( index , node ) =>
{
let vs = node . load ( ) ? . vx_as_ref ( ) . items :: < V > ( ) ? ;
let ks = index . keys . vx_to_vec ( ) ;
//@ let ghost es = elems(ix);
//@ proof { assert(vals(ix.link().unwrap()).unwrap().len() == es.len()); }
vx_block ;
let mut vxit1 = vx_for ( ks . vx_into_iter ( ) . vx_zip ( vs . vx_into_iter ( ) ) . vx_skip ( offset as usize ) ) ;
let ghost vxs1 = vxit1 @ ;
let ghost mut vxk1 = 0int ;
while vxit1 . has_next ( ) vx_invariants ( vxit1 , vxs1 , vxk1 )
//@ vxs1.len() == es.len() - offset, forall|j: int| #![trigger vxs1[j]] 0 <= j < vxs1.len() ==> shows(es[offset + j], Some(vxs1[j])), into@.len() == into0.len() + vxk1, into@.take(into0.len() as int) == into0, forall|j: int| #![trigger into@[j]] into0.len() <= j < into@.len() ==> shows(es[offset + j - into0.len()], into@[j])
{
proof
{
vxk1 = vxk1 + 1 ;
}
//@ let ghost into1 = into@;
let ( k , v ) = vxit1 . take_next ( ) ;
into . push ( Some ( ( k , v ) ) ) ;
//@ proof { assert(into@.take(into0.len() as int) =~= into1.take(into0.len() as int)); }
}
}
NodeInfo :: PurgedLeaf ( index ) =>
{
vx_block ;
let mut vxit2 = vx_for ( offset .. index . keys . count ( ) ) ;
let ghost vxs2 = vxit2 @ ;
let ghost mut vxk2 = 0int ;
while vxit2 . has_next ( ) vx_invariants ( vxit2 , vxs2 , vxk2 )
//@ vxs2.len() == elems(ix).len() - offset, into@.len() == into0.len() + vxk2, into@.take(into0.len() as int) == into0, forall|j: int| #![trigger into@[j]] into0.len() <= j < into@.len() ==> into@[j] is None
{
proof
{
vxk2 = vxk2 + 1 ;
}
//@ let ghost into1 = into@;
let _ = vxit2 . take_next ( ) ;
into . push ( None ) ;
//@ proof { assert(into@.take(into0.len() as int) =~= into1.take(into0.len() as int)); }
}
}
NodeInfo :: PurgedBranch ( index ) =>
{
vx_block ;
let mut vxit3 = vx_for ( offset .. index . count ) ;
let ghost vxs3 = vxit3 @ ;
let ghost mut vxk3 = 0int ;
while vxit3 . has_next ( ) vx_invariants ( vxit3 , vxs3 , vxk3 )
//@ vxs3.len() == elems(ix).len() - offset, into@.len() == into0.len() + vxk3, into@.take(into0.len() as int) == into0, forall|j: int| #![trigger into@[j]] into0.len() <= j < into@.len() ==> into@[j] is None
{
proof
{
vxk3 = vxk3 + 1 ;
}
//@ let ghost into1 = into@;
let _ = vxit3 . take_next ( ) ;
into . push ( None ) ;
//@ proof { assert(into@.take(into0.len() as int) =~= into1.take(into0.len() as int)); }
}
}
}
Ok ( ( ) )
}
