### fn banyan/src/forest/write.rs Transaction::extend_unpacked0
props: C01 C05 C08
params: self index from stream
spec:
    requires cfg_ok(old(stream).config), index is Some ==> wf(*index.unwrap())
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)),
    r is Ok && from.ii().len() > 0 ==> newest(r->Ok_0.unwrap(), *final(stream)),
    r is Ok && from.ii().len() == 0 ==> final(stream).offset.value == old(stream).offset.value,
    r is Ok && from.ii().len() == 0 ==> (r->Ok_0 is Some) == (index is Some) && (index is Some ==> r->Ok_0 == Some(*index.unwrap())),
    r is Ok && from.ii().len() > 0 ==> r->Ok_0 is Some && wf(r->Ok_0.unwrap()) && elems(r->Ok_0.unwrap()) == (if index is Some { elems(*index.unwrap()) } else { Seq::empty() }) + added(from.ii()),
    r is Ok && index is None && r->Ok_0 is Some ==> packed(r->Ok_0.unwrap()),
    r is Ok && index is Some && rootable(*index.unwrap(), top()) ==> rootable(r->Ok_0.unwrap(), top()),
    r is Ok && r->Ok_0 is Some ==> forall|a: Aspect| keeps(a, *final(stream)) && (index is Some ==> good(a, *index.unwrap())) ==> #[trigger] good(a, r->Ok_0.unwrap())
body:
{
let mut from = from . vx_into_iter ( ) . vx_peekable ( ) ;
if from . peek ( ) . is_none ( )
{
return Ok ( index . vx_cloned ( ) ) ;
}
//@ let ghost from0 = from@;
let b = self . extend_above ( None , u32 :: max_value ( ) , & mut from , stream ) ? ;
//@ proof { lemma_taken(from0, from0, from0); assert(from@ =~= Seq::empty()); assert(taken(from0, from@) =~= from0); }
Ok ( Some ( match index . vx_cloned ( )
{
Some ( a ) =>
{
let level = a . level ( ) . vx_max ( b . level ( ) ) + 1 ;
//@ proof { lemma_two(a, b); assert(keeps(Aspect::Linked, *stream)); assert(good(Aspect::Linked, b)); lemma_joins_rootable(a, b); assert(seq![a, b][1] == b); assert(has_level(seq![a, b], level - 1)) by { assert(seq![a, b][0].level() == level - 1 || seq![a, b][1].level() == level - 1); } }
self . extend_branch ( vx_vec2 ( a , b ) , level , from . vx_by_ref ( ) , stream , CreateMode :: Unpacked , ) ? . vx_into ( )
}
None => b ,
}
) )
}

### fn banyan/src/forest/write.rs Transaction::simplify_roots
props: C01 C05 C08 C14
rewrite: & roots [ range . clone ( ) ] => roots . vx_sub ( range . start , range . end )
params: self roots from stream
spec:
    requires cfg_ok(old(stream).config), packed_roots(old(roots)@), from + 1 < old(roots)@.len(), from > 0 ==> old(roots)@[from - 1].level() > old(roots)@[from as int].level()
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)),
    r is Ok && final(roots)@.len() == 1 ==> newest(final(roots)@[0], *final(stream)),
    r is Ok ==> packed_roots(final(roots)@) && all_elems(final(roots)@) == all_elems(old(roots)@) && 0 <= weight(final(roots)@) < weight(old(roots)@) && final(roots)@.len() > 0,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && goods(a, old(roots)@) ==> #[trigger] goods(a, final(roots)@)
    decreases old(roots)@.len() - from
body:
{
//@ broadcast use lemma_desc_levels;
//@ let ghost s0 = roots@;
//@ proof { lemma_rest_desc(s0, from as int); }
vx_assert ( roots . len ( ) > 1 ) ;
vx_assert ( is_sorted ( roots . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_rev ( ) ) ) ;
match find_valid_branch ( stream . config ( ) , roots . vx_from ( from ) )
{
BranchResult :: Sealed ( count ) | BranchResult :: Unsealed ( count ) =>
{
//@ proof { lemma_range(s0, from as int, from + count); }
let range = from .. from + count ;
let node = self . new_branch ( & roots [ range . clone ( ) ] , stream , CreateMode :: Packed ) ? ;
//@ proof { lemma_joint(s0, from as int, from + count, node, stream.config); }
roots . vx_splice ( range , Some ( node . vx_into ( ) ) ) ;
//@ proof { lemma_joined(s0, from as int, from + count, bx(node), roots@); }
}
BranchResult :: Skip ( count ) =>
{
//@ proof { assert(s0.skip(from as int)[count as int] == s0[from + count]); assert(s0.skip(from as int)[count - 1] == s0[from + count - 1]); }
self . simplify_roots ( roots , from + count , stream ) ? ;
}
}
Ok ( ( ) )
}

### fn banyan/src/forest/read.rs Forest::is_packed0
props: C05 C15
params: self secrets index
spec:
    requires wf(*index)
    ensures r is Ok ==> r->Ok_0 == packed0(*index)
    decreases index.level()
body:
{
Ok ( if let NodeInfo :: Branch ( index , branch ) = self . node_info ( secrets , index )
{
if index . sealed
{
true
}
else if let Some ( ( last , rest ) ) = branch . load_cached ( ) ? . children . vx_split_last ( )
{
let first_ok = rest . vx_iter ( ) . vx_all ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . sealed ( ) && child . level ( ) == index . level - 1 )
}
)
{
child . sealed ( ) && child . level ( ) == index . level - 1
}
) ;
//@ proof {
//@ let ks = kids::<T>(index.link.unwrap()).unwrap();
//@ assert(rest@ == ks.drop_last());
//@ if first_ok { assert forall|j: int| 0 <= j < ks.len() - 1 implies (#[trigger] ks[j]).sealed() && ks[j].level() == index.level - 1 by { assert(rest@[j] == ks[j]); } }
//@ else { let j = choose|j: int| 0 <= j < rest@.len() && !((#[trigger] rest@[j]).sealed() && rest@[j].level() == index.level - 1); assert(ks[j] == rest@[j]); }
//@ }
let last_ok = last . level ( ) < index . level ;
let rec_ok = self . is_packed0 ( secrets , last ) ? ;
first_ok && last_ok && rec_ok
}
else
{
true
}
}
else
{
true
}
, )
}

### fn banyan/src/tree.rs Forest::left_roots0
props: C14 C15
params: self secrets index
spec:
    requires wf(*index)
    ensures r is Ok ==> left_edge(r->Ok_0@) && r->Ok_0@.last() == *index
    decreases index.level()
body:
{
let mut result = if let Index :: Branch ( branch ) = index
{
if let Some ( link ) = branch . link
{
let branch = self . load_branch_cached_from_link ( secrets , & link ) ? ;
self . left_roots0 ( secrets , branch . first_child ( ) ) ?
}
else
{
Vec :: new ( )
}
}
else
{
Vec :: new ( )
}
;
//@ proof { lemma_left_edge(result@, *index); }
result . push ( index . clone ( ) ) ;
Ok ( result )
}

### fn banyan/src/index.rs Branch::first_child
props: C14
params: self
spec:
    requires self.children@.len() > 0
    ensures *r == self.children@[0]
body:
{
self . children . vx_first ( ) . vx_expect ( "branch can never have 0 children" )
}

### fn banyan/src/index.rs Branch::last_child
props: C05
params: self
spec:
    requires self.children@.len() > 0
    ensures *r == self.children@.last()
body:
{
self . children . vx_last ( ) . vx_expect ( "branch can never have 0 children" )
}

### fn banyan/src/forest/read.rs Forest::roots0
props: C14 C05
params: self secrets index level res
spec:
    requires wf(*index), *old(level) >= -1
    ensures r is Ok ==> *final(level) >= -1 && *final(level) == walk(*index, *old(level) as int) && visited(old(res)@, final(res)@, elems(*index), *old(level) as int, *final(level) as int, rootable(*index, *old(level) as int)),
    r is Ok && rootable(*index, *old(level) as int) ==> lone(*index, final(res)@.skip(old(res)@.len() as int)),
    r is Ok ==> forall|a: Aspect| good(a, *index) ==> #[trigger] goods(a, final(res)@.skip(old(res)@.len() as int))
    decreases index.level()
body:
{
//@ let ghost ix = *index;
//@ let ghost res0 = res@;
//@ let ghost l0 = *level as int;
if index . sealed ( ) && index . level ( ) as i32 <= * level
{
* level = index . level ( ) as i32 ;
res . push ( index . clone ( ) ) ;
//@ proof { lemma_visit_one(res0, ix, l0); lemma_lone_none(ix); assert(res@.skip(res0.len() as int) =~= seq![ix]); }
}
else
{
* level = ( * level ) . vx_min ( index . level ( ) as i32 - 1 ) ;
//@ let ghost l1 = *level as int;
//@ proof { lemma_visit_none(res0, l1); lemma_lone_none(ix); assert(res0.skip(res0.len() as int) =~= Seq::empty()); }
if let Index :: Branch ( b ) = index
{
if let Some ( link ) = b . link
{
let branch = self . load_branch_from_link ( secrets , & link ) ? ;
//@ let ghost ks = branch.children@;
//@ proof { lemma_kids(ix); lemma_good_kids(ix); assert(ks.take(0) =~= Seq::empty()); assert(ks.take(ks.len() as int) =~= ks); }
vx_block ;
let mut vxit0 = vx_for ( branch . children . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ ks.len() == vxs0.len(), -1 <= *level,
//@ *level as int == kwalk(ks.take(vxk0), ix.level(), l1),
//@ visited(res0, res@, all_elems(ks.take(vxk0)), l1, *level as int, krootable(ks.take(vxk0), ix.level(), l1)),
//@ krootable(ks.take(vxk0), ix.level(), l1) ==> lones(ks.take(vxk0), res@.skip(res0.len() as int)),
//@ forall|a: Aspect| good(a, ix) ==> #[trigger] goods(a, res@.skip(res0.len() as int)),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let child = vxit0 . take_next ( ) ;
//@ let ghost res1 = res@;
//@ let ghost la = *level as int;
self . roots0 ( secrets , child , level , res ) ? ;
//@ proof {
//@ lemma_lones(ix, ks, vxk0 - 1, l1, la, *level as int, res0, res1, res@);
//@ lemma_visit(ix, ks, vxk0 - 1, l1, la, *level as int, res0, res1, res@);
//@ assert forall|a: Aspect| good(a, ix) implies #[trigger] goods(a, res@.skip(res0.len() as int)) by { assert(goods(a, ks)); assert(good(a, ks[vxk0 - 1])); assert(goods(a, res1.skip(res0.len() as int))); assert(goods(a, res@.skip(res1.len() as int))); }
//@ }
}
}
}
}
//@ proof { if !(ix.sealed() && ix.level() <= l0) { lemma_visit_widen(res0, res@, elems(ix), l0, min(l0, ix.level() - 1), *level as int, rootable(ix, l0)); if ix is Branch && ix.link() is Some && rootable(ix, l0) { lemma_lone_branch(ix, res@.skip(res0.len() as int)); } } }
Ok ( ( ) )
}

### fn banyan/src/forest/read.rs Forest::roots_impl
props: C14 C05
params: self stream index
spec:
    requires wf(*index)
    ensures r is Ok ==> visited(Seq::empty(), r->Ok_0@, elems(*index), top(), walk(*index, top()), rootable(*index, top())),
    r is Ok && rootable(*index, top()) ==> lone(*index, r->Ok_0@),
    r is Ok ==> forall|a: Aspect| good(a, *index) ==> #[trigger] goods(a, r->Ok_0@)
body:
{
let mut res = Vec :: new ( ) ;
let mut level : i32 = i32 :: max_value ( ) ;
//@ let ghost res0 = res@;
self . roots0 ( stream , index , & mut level , & mut res ) ? ;
//@ proof { assert(res0.len() == 0); assert(res@.skip(0) =~= res@); assert forall|a: Aspect| good(a, *index) implies #[trigger] goods(a, res@) by { assert(goods(a, res@.skip(0))); } }
Ok ( res )
}

### fn banyan/src/tree.rs Forest::roots
props: C14 C05
params: self tree
spec:
    requires tree.root is Some ==> wf(tree.root.unwrap())
    ensures r is Ok && tree.root is None ==> r->Ok_0@.len() == 0,
    r is Ok && tree.root is Some ==> visited(Seq::empty(), r->Ok_0@, elems(tree.root.unwrap()), top(), walk(tree.root.unwrap(), top()), rootable(tree.root.unwrap(), top())),
    r is Ok && tree.root is Some && rootable(tree.root.unwrap(), top()) ==> lone(tree.root.unwrap(), r->Ok_0@),
    r is Ok && tree.root is Some ==> forall|a: Aspect| good(a, tree.root.unwrap()) ==> #[trigger] goods(a, r->Ok_0@)
body:
{
match tree . index ( )
{
Some ( index ) => self . roots_impl ( tree . state ( ) . secrets ( ) , index ) ,
None => Ok ( Vec :: new ( ) ) ,
}
}
