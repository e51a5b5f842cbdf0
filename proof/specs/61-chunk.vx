### type banyan/src/forest/mod.rs FilteredChunk
### type banyan/src/forest/read.rs ChunkVisitor

### fn banyan/src/index.rs LeafIndex::select_keys
props: C03
params: self bits
spec:
    requires bits@.len() >= self.keys.seq().len()
    ensures r@ == picks(bits@, self.keys.seq(), self.keys.seq().len() as int)
body:
{
self . keys . select ( bits ) . vx_into_iter ( )
}

### fn banyan/src/forest/read.rs ChunkVisitor::new
props: C03
params: mk_extra
spec:
    ensures r.mk_extra == mk_extra
body:
{
Self
{
mk_extra ,
_p : PhantomData ,
}
}

### impl banyan/src/forest/read.rs ChunkVisitor as TreeVisitor
items:
    type Item = FilteredChunk<(u64, T::Key, V), E>;
    open spec fn vok(&self) -> bool { forall|i: &NodeInfo<T, R>| call_requires(*self.mk_extra, (i,)) }
    open spec fn skips(&self, a: int, b: int, item: Self::Item) -> bool { item.range.start == a && item.range.end == b && item.data@.len() == 0 }
    open spec fn yields(&self, a: int, b: int, x: LeafIndex<T>, mask: Seq<bool>, item: Self::Item) -> bool { item.range.start == a && item.range.end == b && triples(item.data@, a, x.keys.seq(), vals(x.link.unwrap()).unwrap(), mask) }
    open spec fn suits(&self, b: Bytes) -> bool { V::rd(b) is Some }
### fn banyan/src/forest/read.rs ChunkVisitor as TreeVisitor::skip
props: C03
params: self range index
spec:
body:
{
FilteredChunk
{
range ,
data : Vec :: new ( ) ,
extra : ( self . mk_extra ) ( index ) ,
}
}

### fn banyan/src/forest/read.rs ChunkVisitor as TreeVisitor::leaf
props: C03
closure 1: -> (vxr: u64) requires $0.0 + range.start <= u64::MAX ensures vxr == range.start + $0.0
params: self range index leaf matching
spec:
body:
{
let data = if matching . vx_any ( )
{
let leaf = leaf . load ( ) ? ;
//@ proof { lemma_filtered(matching@, range.start as int, matching@.len() as int); }
let offsets = matching . vx_iter ( ) . vx_enumerate ( ) . vx_filter ( | vxp0 | -> ( vxr : _ ) ensures (
{
let ( _ , m ) = vxp0 ;
vx_same ( vxr , * * m )
}
)
{
let ( _ , m ) = vxp0 ;
* * m
}
) . vx_map ( | vxp0 | -> ( vxr : u64 ) requires vxp0 . 0 + range . start <= u64 :: MAX ensures vxr == range . start + vxp0 . 0
{
let ( i , _ ) = vxp0 ;
range . start + i as u64
}
) ;
//@ proof { assert(offsets@ =~= picks(matching@, offs(range.start as int, matching@.len()), matching@.len() as int)); }
let keys = index . select_keys ( matching ) ;
let elems : Vec < V > = leaf . vx_as_ref ( ) . select ( matching ) ? ;
//@ proof {
//@ let n = matching@.len() as int;
//@ let vs = vals(index.link.unwrap()).unwrap();
//@ lemma_picks_len(matching@, offs(range.start as int, matching@.len()), index.keys.seq(), n);
//@ lemma_picks_len(matching@, vs, index.keys.seq(), n);
//@ assert(read_as(picks(matching@, vs, n), elems@));
//@ }
offsets . vx_zip ( keys ) . vx_zip ( elems ) . vx_map ( | vxp0 | -> ( vxr : _ ) ensures (
{
let ( ( o , k ) , v ) = vxp0 ;
vx_same ( vxr , ( o , k , v ) )
}
)
{
let ( ( o , k ) , v ) = vxp0 ;
( o , k , v )
}
) . vx_collect :: < Vec < _ > > ( )
}
else
{
Vec :: new ( )
}
;
//@ proof { if forall|i: int| 0 <= i < matching@.len() ==> !matching@[i] { lemma_picks_none(matching@, index.keys.seq(), 0, matching@.len() as int); } }
//@ proof { assert(triples(data@, range.start as int, index.keys.seq(), vals(index.link.unwrap()).unwrap(), matching@)); }
let extra = ( self . mk_extra ) ( & NodeInfo :: Leaf ( index , leaf ) ) ;
Ok ( FilteredChunk
{
range ,
data ,
extra
}
)
}
