### type banyan/src/store/mem_store.rs MemStore
attr: #[verifier::reject_recursive_types(L)]
### type banyan/src/store/mem_store.rs Inner
attr: #[verifier::reject_recursive_types(L)]
rewrite: Arc < dyn Fn ( & [ u8 ] ) -> L + Send + Sync > => VxDigest < L >
### type banyan/src/store/mem_store.rs Blocks
attr: #[verifier::reject_recursive_types(L)]
### type banyan/src/store/mem_cache.rs MemBlock
### type banyan/src/store/mem_cache.rs Cache
derives: Clone
### type banyan/src/store/mem_cache.rs MemCache
### type banyan/src/store/mem_cache.rs MemWriter

### fn banyan/src/store/mem_store.rs MemStore::new
props: C10
rewrite: Arc :: new ( digest ) => VxDigest :: new ( digest )
params: max_size digest
spec:
    requires addresses(digest)
    ensures r.0.max_size == max_size
body:
{
Self ( Arc :: new ( Inner
{
digest : Arc :: new ( digest ) ,
blocks : Mutex :: new ( Blocks
{
map : FnvHashMap :: default ( ) ,
current_size : 0 ,
}
) ,
max_size ,
}
) )
}

### fn banyan/src/store/mem_store.rs MemStore::into_inner
props: C10
rewrite: Arc :: try_unwrap ( => vx_try_unwrap (
params: self
spec:
    ensures r is Ok ==> content_ok(r->Ok_0@) && exists|s: Blocks<L>| #[trigger] transition(self.0.blocks, s, s) && s.map == r->Ok_0
body:
{
let inner = Arc :: try_unwrap ( self . 0 ) . vx_map_err ( | vxp0 |
{
vx_err ( )
}
) ? ;
let blocks = inner . blocks . into_inner ( ) ;
Ok ( blocks . map )
}

### fn banyan/src/store/mem_store.rs MemStore::get0
props: C10
rewrite: blocks . g . map . vx_get ( link ) . vx_cloned ( ) => vx_block_cloned ( blocks . g . map . vx_get ( link ) )
params: self link
spec:
    ensures exists|s: Blocks<L>| #[trigger] transition(self.0.blocks, s, s) && get_step(*link, s.map@, view_of(r))
body:
{
let blocks = self . 0 . vx_as_ref ( ) . blocks . vx_guard ( ) ;
let vxr = blocks . g . map . vx_get ( link ) . vx_cloned ( ) ;
blocks . vx_drop ( ) ;
vxr
}

### fn banyan/src/store/mem_store.rs MemStore::put0
props: C10
rewrite: ( self . 0 . digest ) ( & data ) => self . 0 . digest . vx_call ( & data )
params: self data
spec:
    ensures exists|s: Blocks<L>, t: Blocks<L>| #[trigger] transition(self.0.blocks, s, t) && put_step(self.0.max_size as int, data@, s.map@, t.map@, r)
body:
{
let digest = ( self . 0 . digest ) ( & data ) ;
let len = data . len ( ) ;
let mut blocks = self . 0 . blocks . vx_guard ( ) ;
//@ let ghost d0 = data@;
//@ proof { axiom_memory(blocks.g.map); axiom_vec(data); }
if blocks . g . current_size + data . len ( ) > self . 0 . max_size
{
{
let vxr = Err ( vx_err ( ) ) ;
blocks . vx_drop ( ) ;
return vxr ;
}
;
}
let new = blocks . g . map . vx_insert ( digest , data . vx_into ( ) ) . is_none ( ) ;
//@ proof { assert(blocks.g.map@[digest]@ == d0); lemma_total_insert(blocks.pre@.map@, digest, blocks.g.map@[digest]); axiom_memory(blocks.g.map); assert(block(digest) == d0);
//@ assert(content_ok(blocks.g.map@)) by { assert forall|l: L| blocks.g.map@.contains_key(l) implies (#[trigger] blocks.g.map@[l])@ == block(l) by { if l != digest { assert(blocks.pre@.map@[l]@ == block(l)); } } } }
if new
{
blocks . g . current_size += len ;
}
blocks . vx_drop ( ) ;
Ok ( digest )
}

### impl banyan/src/store/mem_store.rs MemStore as ReadOnlyStore
head: impl<L: Eq + Hash + Copy> MemStore<L>

### fn banyan/src/store/mem_store.rs MemStore as ReadOnlyStore::get
props: C10
params: self link
spec:
    ensures exists|s: Blocks<L>| #[trigger] transition(self.0.blocks, s, s) && get_step(*link, s.map@, view_of(ok_of(r)))
body:
{
if let Some ( value ) = self . get0 ( link )
{
Ok ( value )
}
else
{
Err ( vx_err ( ) )
}
}

### impl banyan/src/store/mem_store.rs MemStore as BlockWriter
head: impl<L: Eq + Hash + Copy> MemStore<L>

### fn banyan/src/store/mem_store.rs MemStore as BlockWriter::put
props: C10
params: self data
spec:
    ensures exists|s: Blocks<L>, t: Blocks<L>| #[trigger] transition(old(self).0.blocks, s, t) && put_step(old(self).0.max_size as int, data@, s.map@, t.map@, r)
body:
{
self . put0 ( data )
}

### fn banyan/src/store/mem_cache.rs MemBlock as Weighable::measure
props: C10
params: value
spec:
body:
{
value . 0 . len ( )
}

### fn banyan/src/store/mem_cache.rs Cache::new
props: C10
rewrite: . try_into ( ) => . vx_try_into ( )
params: max_size capacity
spec:
    ensures r is Some ==> r.unwrap().max_size.v == max_size && max_size > 0 && capacity > 0
body:
{
let capacity = capacity . try_into ( ) . vx_ok ( ) ? ;
let max_size = max_size . try_into ( ) . vx_ok ( ) ? ;
Some ( Self
{
cache : Arc :: new ( Mutex :: new ( WeightCache :: new ( capacity ) ) ) ,
max_size ,
}
)
}

### fn banyan/src/store/mem_cache.rs MemCache::new
props: C10
params: inner max_size capacity
spec:
    ensures r.inner == inner, max_size == 0 || capacity == 0 ==> r.cache is None
body:
{
Self
{
inner ,
cache : Cache :: new ( max_size , capacity ) ,
}
}

### fn banyan/src/store/mem_cache.rs MemCache::offer
props: C10
params: self link data
spec:
    requires data@ == block(*link), served(*link), data@.len() <= isize::MAX
body:
{
if let Some ( cache ) = self . cache . vx_as_ref ( )
{
if data . len ( ) <= cache . max_size . vx_into ( )
{
let copy : Box < [ u8 ] > = data . vx_into ( ) ;
let _ = cache . cache . vx_lock ( ) . put ( * link , MemBlock ( copy ) ) ;
}
}
}

### fn banyan/src/store/mem_cache.rs MemCache::write
props: C10
params: self f
spec:
    requires call_requires(f, (&self.inner,))
    ensures r is Ok ==> call_ensures(f, (&self.inner,), Ok(r->Ok_0.inner)) && cached_by(r->Ok_0.cache, self.cache)
body:
{
Ok ( MemWriter :: new ( f ( & self . inner ) ? , self . cache . clone ( ) ) )
}

### fn banyan/src/store/mem_cache.rs MemCache::get0
props: C10
closure 0: -> (vxr: Option<Block>) ensures vxr is Some ==> vxr.unwrap()@ == block(*key) && served(*key) && vxr.unwrap()@.len() <= isize::MAX
closure 1: -> (vxr: Block) ensures vxr@ == x.0@
rewrite: x . 0 . clone ( ) => vx_box_clone ( & x . 0 )
params: self key
spec:
    ensures r is Some ==> r.unwrap()@ == block(*key) && served(*key) && r.unwrap()@.len() <= isize::MAX
body:
{
self . cache . vx_as_ref ( ) . vx_and_then ( | cache | -> ( vxr : Option < Block > ) ensures vxr is Some ==> vxr . unwrap ( ) @ == block ( * key ) && served ( * key ) && vxr . unwrap ( ) @. len ( ) <= isize :: MAX
{
cache . cache . vx_lock ( ) . vx_get ( key ) . vx_map ( | x | -> ( vxr : Block ) ensures vxr @ == x . 0 @
{
x . 0 . clone ( )
}
)
}
)
}

### fn banyan/src/store/mem_cache.rs MemCache as ReadOnlyStore::get
props: C10
name: vx_get
params: self link
spec:
body:
{
match self . get0 ( link )
{
Some ( data ) => Ok ( data ) ,
None => self . inner . vx_get ( link ) ,
}
}

### fn banyan/src/store/mem_cache.rs MemWriter::new
props: C10
params: inner cache
spec:
    ensures r.inner == inner, r.cache == cache
body:
{
Self
{
inner ,
cache
}
}

### fn banyan/src/store/mem_cache.rs MemWriter::into_inner
props: C10
params: self
spec:
    ensures r == self.inner
body:
{
self . inner
}

### impl banyan/src/store/mem_cache.rs MemWriter as BlockWriter
items:
    open spec fn log(&self) -> Seq<Bytes> { self.inner.log() }

### fn banyan/src/store/mem_cache.rs MemWriter as BlockWriter::put
props: C10
params: self data
spec:
body:
{
if let Some ( cache ) = self . cache . vx_as_ref ( )
{
if data . len ( ) <= cache . max_size . vx_into ( )
{
//@ proof { axiom_vec(data); }
let copy : Box < [ u8 ] > = data . vx_as_slice ( ) . vx_into ( ) ;
let link = self . inner . put ( data ) ? ;
let _ = cache . cache . vx_lock ( ) . put ( link , MemBlock ( copy ) ) ;
return Ok ( link ) ;
}
}
self . inner . put ( data )
}

### fn banyan/src/store/branch_cache.rs BranchCache::new
props: C10
params: capacity
spec:
    ensures capacity == 0 <==> r.0 is None
body:
{
let cache = NonZeroUsize :: new ( capacity ) . vx_map ( WeightCache :: new ) . vx_map ( Mutex :: new ) . vx_map ( Arc :: new ) ;
Self ( cache )
}

### fn banyan/src/store/branch_cache.rs BranchCache::reset
props: C10
params: self capacity
spec:
body:
{
if let Some ( cache ) = self . 0 . vx_as_ref ( )
{
let mut cache = cache . vx_guard ( ) ;
cache . g = WeightCache :: new ( capacity ) ;
cache . vx_drop ( ) ;
}
}

### fn banyan/src/store/branch_cache.rs BranchCache as Default::default
props: C10
params: 
spec:
body:
{
Self :: new ( 64 << 20 )
}

