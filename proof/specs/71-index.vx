### type banyan-utils/src/tag_index.rs TagIndex

### fn banyan-utils/src/tag_index.rs map_to_index_set
props: C11
closure 0: -> (vxr: Option<u32>) requires table.sq().len() <= 0x1_0000_0000 ensures found(table.sq(), *$0, vxr)
params: table tags
spec:
    requires table.sq().len() <= 0x1_0000_0000,
    ensures
        // every tag is in the table, and these are their positions; or one is not
        tags.set().subset_of(table.set()) ==> r is Some && positions(table.sq(), tags.set(), r.unwrap().set()),
        !tags.set().subset_of(table.set()) ==> r is None,
body:
{
tags . vx_iter ( ) . vx_map ( | t | -> ( vxr : Option < u32 > ) requires table . sq ( ) . len ( ) <= 0x1_0000_0000 ensures found ( table . sq ( ) , * t , vxr )
{
table . vx_as_ref ( ) . vx_binary_search ( t ) . vx_ok ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x as u32 )
}
)
{
x as u32
}
)
}
) . vx_collect :: < Option < _ > > ( )
}

### fn banyan-utils/src/tag_index.rs TagIndex::matching
props: C11
closure 0: -> (vxr: Option<IndexSet>) requires self.wf() ensures looked_up(self.tags.sq(), *$0, vxr)
closure 1: -> (vxr: Option<u32>) requires self.wf() ensures found(self.tags.sq(), *$0, vxr)
closure 3: -> (vxr: Option<usize>) ensures vxr == (if any_sub(vxq, $0.1.set()) { Some($0.0) } else { None })
closure 4: -> (vxr: bool) ensures vxr == $0.set().subset_of(e.set())
params: self query
spec:
    requires self.wf(),
    ensures
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) < self.elements.len() && dsem(query, self.elem(r@[i] as int)),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j],
        forall|i: int| 0 <= i < self.elements.len() && #[trigger] dsem(query, self.elem(i)) ==> r@.contains(i as usize),
body:
{
let lookup = | s : & TagSet | -> ( vxr : Option < IndexSet > ) requires self . wf ( ) ensures looked_up ( self . tags . sq ( ) , * s , vxr )
{
s . vx_iter ( ) . vx_map ( | t | -> ( vxr : Option < u32 > ) requires self . wf ( ) ensures found ( self . tags . sq ( ) , * t , vxr )
{
self . tags . vx_as_ref ( ) . vx_binary_search ( t ) . vx_ok ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x as u32 )
}
)
{
x as u32
}
)
}
) . vx_collect :: < Option < _ > > ( )
}
;
let query = query . 0 . vx_iter ( ) . vx_filter_map ( lookup ) . vx_collect :: < Vec < _ > > ( ) ;
//@ let ghost vxq = query@;
if query . is_empty ( )
{
return Vec :: new ( ) ;
}
self . elements . vx_iter ( ) . vx_enumerate ( ) . vx_filter_map ( | vxp0 | -> ( vxr : Option < usize > ) ensures vxr == ( if any_sub ( vxq , vxp0 . 1 . set ( ) )
{
Some ( vxp0 . 0 )
}
else
{
None
}
)
{
let ( i , e ) = vxp0 ;
if query . vx_iter ( ) . vx_any ( | x | -> ( vxr : bool ) ensures vxr == x . set ( ) . subset_of ( e . set ( ) )
{
x . vx_is_subset ( e )
}
)
{
Some ( i )
}
else
{
None
}
}
) . vx_collect ( )
}

### fn banyan-utils/src/tag_index.rs TagIndex::iter_elements
props: C11
closure 0: -> (vxr: TagSet) requires self.wf_set(*$0) ensures vxr.set() == tags_at(self.tags.sq(), $0.set())
closure 1: -> (vxr: SmolStr) requires *$0 < self.tags.sq().len() ensures vxr == self.tags.sq()[*$0 as int]
params: self
spec:
    requires self.wf(),
    ensures r@.len() == self.elements.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).set() == self.elem(i),
body:
{
self . elements . vx_iter ( ) . vx_map ( | is | -> ( vxr : TagSet ) requires self . wf_set ( * is ) ensures vxr . set ( ) == tags_at ( self . tags . sq ( ) , is . set ( ) )
{
is . vx_iter ( ) . vx_map ( | i | -> ( vxr : SmolStr ) requires * i < self . tags . sq ( ) . len ( ) ensures vxr == self . tags . sq ( ) [ * i as int ]
{
self . tags . vx_as_ref ( ) [ * i as usize ] . clone ( )
}
) . vx_collect :: < TagSet > ( )
}
)
}

### fn banyan-utils/src/tag_index.rs TagIndex::as_elements
props: C11
params: self
spec:
    requires self.wf(),
    ensures r@.len() == self.elements.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).set() == self.elem(i),
body:
{
self . iter_elements ( ) . vx_collect ( )
}

### fn banyan-utils/src/tag_index.rs TagIndex::get
props: C11 C12
name: vx_get
closure 0: -> (vxr: TagSet) requires self.wf_set(*$0) ensures vxr.set() == tags_at(self.tags.sq(), $0.set())
closure 1: -> (vxr: SmolStr) requires *$0 < self.tags.sq().len() ensures vxr == self.tags.sq()[*$0 as int]
params: self index
spec:
    requires self.wf(),
    ensures (r is Some) == (index < self.elements.len()), r is Some ==> r.unwrap().set() == self.elem(index as int),
body:
{
self . elements . vx_get ( index ) . vx_map ( | is | -> ( vxr : TagSet ) requires self . wf_set ( * is ) ensures vxr . set ( ) == tags_at ( self . tags . sq ( ) , is . set ( ) )
{
is . vx_iter ( ) . vx_map ( | i | -> ( vxr : SmolStr ) requires * i < self . tags . sq ( ) . len ( ) ensures vxr == self . tags . sq ( ) [ * i as int ]
{
self . tags . vx_as_ref ( ) [ * i as usize ] . clone ( )
}
) . vx_collect ( )
}
)
}

### fn banyan-utils/src/tag_index.rs TagIndex::from_elements
props: C11 C12
closure 0: -> (vxr: IndexSet) requires $0.set().subset_of(tags.set()), tags.sq().len() <= 0x1_0000_0000 ensures positions(tags.sq(), $0.set(), vxr.set())
closure 1: -> (vxr: u32) requires tags.set().contains(*$0), tags.sq().len() <= 0x1_0000_0000 ensures vxr < tags.sq().len() && tags.sq()[vxr as int] == *$0
params: e
spec:
    // positions are 32 bit
    requires all_tags(e@).len() <= 0x1_0000_0000,
    ensures
        r.wf(),
        r.elements.len() == e.len(),
        forall|i: int| 0 <= i < e.len() ==> #[trigger] r.elem(i) == e[i].set(),
        r.tags.set() == all_tags(e@),
body:
{
let mut tags = TagSet :: default ( ) ;
vx_block ;
let mut vxit0 = vx_for ( e . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == refs(e@), tags.set() == all_tags(e@.take(vxk0)),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let a = vxit0 . take_next ( ) ;
//@ proof { assert(e@.take(vxk0).drop_last() =~= e@.take(vxk0 - 1)); assert(e@.take(vxk0).last() == *a); }
tags . vx_extend ( a . vx_iter ( ) . vx_cloned ( ) ) ;
}
//@ proof { lemma_table_size(tags); assert forall|k: int| 0 <= k < e@.len() implies (#[trigger] e@[k]).set().subset_of(tags.set()) by { lemma_all_tags(e@, k); } }
let elements = e . vx_iter ( ) . vx_map ( | a | -> ( vxr : IndexSet ) requires a . set ( ) . subset_of ( tags . set ( ) ) , tags . sq ( ) . len ( ) <= 0x1_0000_0000 ensures positions ( tags . sq ( ) , a . set ( ) , vxr . set ( ) )
{
a . vx_iter ( ) . vx_map ( | e | -> ( vxr : u32 ) requires tags . set ( ) . contains ( * e ) , tags . sq ( ) . len ( ) <= 0x1_0000_0000 ensures vxr < tags . sq ( ) . len ( ) && tags . sq ( ) [ vxr as int ] == * e
{
tags . vx_as_ref ( ) . vx_binary_search ( e ) . vx_unwrap ( ) as u32
}
) . vx_collect :: < IndexSet > ( )
}
) . vx_collect :: < Vec < _ > > ( ) ;
Self
{
tags ,
elements
}
}
