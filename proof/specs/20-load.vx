### type banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq
derives: Clone
### type banyan/src/store/zstd_dag_cbor_seq.rs IpldNode
### type banyan/src/stream_builder.rs CipherOffset
### type banyan/src/index.rs Leaf
### type banyan/src/forest/mod.rs Secrets
derives: Clone
### type banyan/src/store/branch_cache.rs BranchCache
derives: Clone
### type banyan/src/store/branch_cache.rs CacheOrBypass
### type banyan/src/forest/mod.rs ForestInner
### type banyan/src/forest/mod.rs Forest
### type banyan/src/index.rs BranchLoader
### type banyan/src/index.rs LeafLoader
### type banyan/src/index.rs NodeInfo

### fn banyan/src/forest/mod.rs Secrets::index_key
props: C08 C15
params: self
spec:
    ensures *r == self.index_key
body:
{
& self . index_key
}

### fn banyan/src/forest/mod.rs Secrets::value_key
props: C08 C15
params: self
spec:
    ensures *r == self.value_key
body:
{
& self . value_key
}

### fn banyan/src/stream_builder.rs CipherOffset::new
props: C08
params: value
spec:
    ensures r.value == value
body:
{
Self
{
value
}
}

### fn banyan/src/stream_builder.rs CipherOffset::current
props: C08
params: self
spec:
    ensures r == self.value
body:
{
self . value
}

### fn banyan/src/stream_builder.rs CipherOffset::reserve
props: C08
params: self n
rewrite: . vx_expect ( "ran out of offsets" )=>. vx_room ( )
spec:
    ensures r == old(self).value, final(self).value == old(self).value + n
body:
{
let result = self . value ;
self . value = self . value . checked_add ( n as u64 ) . vx_expect ( "ran out of offsets" ) ;
result
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::new
props: C09
params: data links
spec:
    ensures r.data == data, r.links == links
body:
{
Self
{
data ,
links
}
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::compressed
props: C09
params: self
spec:
    ensures r@ == self.data@
body:
{
& self . data
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs IpldNode::new
props: C09
params: links data offset
spec:
    ensures r.0 == offset, r.1 == links, r.2 is Bytes, data.into_ens(r.2->Bytes_0)
body:
{
Self ( offset , links , Ipld :: Bytes ( data . vx_into ( ) ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs IpldNode::into_data
props: C09 C15
params: self
spec:
    ensures (r is Ok) == (self.2 is Bytes), r is Ok ==> r->Ok_0.0 == self.0 && r->Ok_0.1 == self.1 && r->Ok_0.2 == self.2->Bytes_0
body:
{
if let Ipld :: Bytes ( data ) = self . 2
{
Ok ( ( self . 0 , self . 1 , data ) )
}
else
{
Err ( vx_err ( ) )
}
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::decrypt
props: C09 C15
params: data key nonce
spec:
    ensures (r is Ok) == (opened(data@) is Some),
    r is Ok ==> r->Ok_0.0.data@ == env_zip(*key, *nonce, data@) && r->Ok_0.0.links@ == opened(data@).unwrap().links
        && r->Ok_0.1.start == env_start(data@) && r->Ok_0.1.end == env_end(data@) && contents(*key, *nonce, data@) == unzip(r->Ok_0.0.data@)
body:
{
let ( offset , links , mut encrypted ) = DagCborCodec . decode :: < IpldNode > ( data ) ? . into_data ( ) ? ;
let mut cipher = XChaCha20 :: new ( key , nonce ) ;
let end_offset = offset . checked_add ( encrypted . len ( ) as u64 ) . vx_ok_or_else ( | |
{
vx_err ( )
}
) ? ;
cipher . seek ( offset ) ;
cipher . apply_keystream ( & mut encrypted ) ;
let decrypted = encrypted ;
Ok ( ( Self :: new ( decrypted , links ) , offset .. end_offset ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::into_encrypted
props: C09 C08
params: self key nonce state
spec:
    ensures final(state).value == old(state).value + self.data@.len(),
    r is Ok ==> opened(r->Ok_0@) is Some && env_start(r->Ok_0@) == old(state).value && env_end(r->Ok_0@) == final(state).value
    && opened(r->Ok_0@).unwrap().links == self.links@ && env_zip(*key, *nonce, r->Ok_0@) == self.data@ && contents(*key, *nonce, r->Ok_0@) == unzip(self.data@) && r->Ok_0@.len() <= isize::MAX
body:
{
let Self
{
mut data ,
links
}
= self ;
let mut chacha20 = XChaCha20 :: new ( key , nonce ) ;
let offset = state . reserve ( data . len ( ) ) ;
chacha20 . seek ( offset ) ;
chacha20 . apply_keystream ( & mut data ) ;
let result = DagCborCodec . encode ( & IpldNode :: new ( links , data , offset ) ) ? ;
Ok ( result )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::encrypt
props: C09
params: self key nonce offset
spec:
    ensures r is Ok ==> opened(r->Ok_0@) is Some && env_start(r->Ok_0@) == offset && env_end(r->Ok_0@) == offset + self.data@.len()
    && opened(r->Ok_0@).unwrap().links == self.links@ && env_zip(*key, *nonce, r->Ok_0@) == self.data@ && contents(*key, *nonce, r->Ok_0@) == unzip(self.data@)
body:
{
let mut state = CipherOffset :: new ( offset ) ;
self . clone ( ) . into_encrypted ( key , nonce , & mut state )
}

### fn banyan/src/store/thread_local_zstd.rs decompress_and_transform
props: C09
trusted: decompression into a thread local buffer
params: compressed f
spec:
    requires forall|b: &[u8]| unzip(compressed@) == Some(b@) ==> call_requires(*old(f), (b,))
    ensures r is Ok ==> unzip(compressed@) is Some && unzip(compressed@).unwrap().len() <= max_raw() && r->Ok_0.0 == unzip(compressed@).unwrap().len() && (exists|b: &[u8]| unzip(compressed@) == Some(b@) && call_ensures(*old(f), (b,), r->Ok_0.1)),
    unzip(compressed@) is Some && unzip(compressed@).unwrap().len() <= max_raw() ==> r is Ok
body:
{
DECOMPRESSOR . with ( | d | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , d . borrow_mut ( ) . decompress_and_transform ( compressed , f ) )
}
)
{
d . borrow_mut ( ) . decompress_and_transform ( compressed , f )
}
)
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::get
props: C02 C15
closure 0: -> (vxr: Result<Option<T>>) ensures vxr is Ok ==> cbor_nth($0@, index as int) is Some && nth_is(cbor_nth($0@, index as int).unwrap(), vxr->Ok_0), nth_ok::<T>(cbor_nth($0@, index as int)) ==> vxr is Ok
params: self index
spec:
    ensures r is Ok ==> unzip(self.data@) is Some && cbor_nth(unzip(self.data@).unwrap(), index as int) is Some && nth_is(cbor_nth(unzip(self.data@).unwrap(), index as int).unwrap(), r->Ok_0),
    decodes(self.data@) && nth_ok::<T>(cbor_nth(unzip(self.data@).unwrap(), index as int)) ==> r is Ok
body:
{
let ( _ , data ) = decompress_and_transform ( self . compressed ( ) , & mut | uncompressed | -> ( vxr : Result < Option < T >> ) ensures vxr is Ok ==> cbor_nth ( uncompressed @, index as int ) is Some && nth_is ( cbor_nth ( uncompressed @, index as int ) . unwrap ( ) , vxr -> Ok_0 ) , nth_ok ::< T > ( cbor_nth ( uncompressed @, index as int ) ) ==> vxr is Ok
{
{
let mut remaining = index ;
let mut bytes = uncompressed ;
while ! bytes . is_empty ( )
//@ invariant cbor_nth(uncompressed@, index as int) == cbor_nth(bytes@, remaining as int)
//@ decreases bytes@.len()
{
let ( cbor , rest ) = Cbor :: checked_prefix ( bytes ) ? ;
if remaining > 0
{
remaining -= 1 ;
bytes = rest ;
}
else
{
return Ok ( Some ( T :: read_cbor ( cbor ) ? ) ) ;
}
}
Ok ( None )
}
}
) ? ;
data
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::items
props: C02 C09 C15
closure 0: -> (vxr: Result<Vec<T>>) ensures vxr is Ok ==> cbor_items($0@) is Some && read_as(cbor_items($0@).unwrap(), vxr->Ok_0@), cbor_items($0@) is Some && reads::<T>(cbor_items($0@).unwrap()) ==> vxr is Ok
params: self
spec:
    ensures r is Ok ==> decodes(self.data@) && cbor_items(unzip(self.data@).unwrap()) is Some && read_as(cbor_items(unzip(self.data@).unwrap()).unwrap(), r->Ok_0@),
    decodes(self.data@) && cbor_items(unzip(self.data@).unwrap()) is Some && reads::<T>(cbor_items(unzip(self.data@).unwrap()).unwrap()) ==> r is Ok
body:
{
let ( _ , data ) = decompress_and_transform ( self . compressed ( ) , & mut | vxp0 | -> ( vxr : Result < Vec < T >> ) ensures vxr is Ok ==> cbor_items ( vxp0 @ ) is Some && read_as ( cbor_items ( vxp0 @ ) . unwrap ( ) , vxr -> Ok_0 @ ) , cbor_items ( vxp0 @ ) is Some && reads ::< T > ( cbor_items ( vxp0 @ ) . unwrap ( ) ) ==> vxr is Ok
{
let mut uncompressed = vxp0 ;
{
let mut result = Vec :: new ( ) ;
//@ let ghost mut done = Seq::<Bytes>::empty();
while ! uncompressed . is_empty ( )
//@ invariant (cbor_items(vxp0@) is Some) == (cbor_items(uncompressed@) is Some), cbor_items(vxp0@) is Some ==> cbor_items(vxp0@).unwrap() == done + cbor_items(uncompressed@).unwrap(), read_as(done, result@)
//@ decreases uncompressed@.len()
{
let ( cbor , rest ) = Cbor :: checked_prefix ( uncompressed ) ? ;
//@ proof {
//@ if cbor_items(vxp0@) is Some { assert(cbor_items(uncompressed@).unwrap() =~= seq![cbor.bytes()] + cbor_items(rest@).unwrap()); assert(cbor_items(vxp0@).unwrap()[done.len() as int] == cbor.bytes()); assert(cbor_items(vxp0@).unwrap() =~= done.push(cbor.bytes()) + cbor_items(rest@).unwrap()); }
//@ done = done.push(cbor.bytes());
//@ }
result . push ( T :: read_cbor ( cbor ) ? ) ;
uncompressed = rest ;
}
//@ proof { if cbor_items(vxp0@) is Some { assert(done + Seq::<Bytes>::empty() =~= done); } }
Ok ( result )
}
}
) ? ;
data
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::items_ipld
props: C09 C15
rewrite: u64 :: try_from (=>vx_u64 (
closure 0: -> (vxr: Result<Vec<T>>) ensures (vxr is Ok) == (dag_seq::<T>($0@) is Some), vxr is Ok ==> dag_seq::<T>($0@) == Some(vxr->Ok_0@)
params: self
spec:
    ensures r is Ok ==> decodes(self.data@) && dag_seq::<T>(unzip(self.data@).unwrap()) == Some(r->Ok_0@),
    decodes(self.data@) && dag_seq::<T>(unzip(self.data@).unwrap()) is Some ==> r is Ok
body:
{
let ( _ , data ) = decompress_and_transform ( self . compressed ( ) , & mut | uncompressed | -> ( vxr : Result < Vec < T >> ) ensures ( vxr is Ok ) == ( dag_seq ::< T > ( uncompressed @ ) is Some ) , vxr is Ok ==> dag_seq ::< T > ( uncompressed @ ) == Some ( vxr -> Ok_0 @ )
{
{
let mut result = Vec :: new ( ) ;
let mut r = Cursor :: new ( & uncompressed ) ;
let len = u64 :: try_from ( uncompressed . len ( ) ) ? ;
//@ proof { assert(uncompressed@.skip(0) =~= uncompressed@); }
while r . vx_position ( ) < len
//@ invariant r.data() == uncompressed@, 0 <= r.pos() <= len, len == uncompressed@.len(), (dag_seq::<T>(uncompressed@) is Some) == (dag_seq::<T>(uncompressed@.skip(r.pos())) is Some),
//@ dag_seq::<T>(uncompressed@) is Some ==> dag_seq::<T>(uncompressed@).unwrap() == result@ + dag_seq::<T>(uncompressed@.skip(r.pos())).unwrap()
//@ decreases len - r.pos()
{
//@ let ghost p0 = r.pos();
//@ let ghost r0 = result@;
result . push ( T :: decode ( DagCborCodec , & mut r ) ? ) ;
//@ proof {
//@ let n = r.pos() - p0;
//@ assert(uncompressed@.skip(p0).skip(n) =~= uncompressed@.skip(r.pos()));
//@ if dag_seq::<T>(uncompressed@) is Some { assert(r0 + (seq![result@.last()] + dag_seq::<T>(uncompressed@.skip(r.pos())).unwrap()) =~= result@ + dag_seq::<T>(uncompressed@.skip(r.pos())).unwrap()); }
//@ }
}
Ok ( result )
}
}
) ? ;
data
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs shrink_to_fit
props: C09
params: slice
spec:
    ensures r@.len() <= slice@.len(), r@ == slice@.take(r@.len() as int), r@.len() > 0 ==> r@.last(), forall|i: int| r@.len() <= i < slice@.len() ==> !slice@[i]
body:
{
vx_block ;
let mut vxit0 = vx_for ( ( 0 .. slice . len ( ) ) . vx_rev ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0.len() == slice@.len(), forall|j: int| #![trigger vxs0[j]] 0 <= j < vxs0.len() ==> vxs0[j] == slice@.len() - 1 - j, forall|i: int| slice@.len() - vxk0 <= i < slice@.len() ==> !slice@[i]
{
proof
{
vxk0 = vxk0 + 1 ;
}
let i = vxit0 . take_next ( ) ;
if slice [ i ]
{
return slice . vx_sub ( 0 , i + 1 ) ;
}
}
& [ ]
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::select
props: C02 C03 C09
closure 0: -> (vxr: Result<Vec<T>>) ensures vxr is Ok && cbor_items($0@) is Some ==> read_as(picks(take@, cbor_items($0@).unwrap(), min(take@.len() as int, cbor_items($0@).unwrap().len() as int)), vxr->Ok_0@), cbor_items($0@) is Some && reads::<T>(cbor_items($0@).unwrap()) ==> vxr is Ok
params: self take
spec:
    ensures r is Ok && unzip(self.data@) is Some && cbor_items(unzip(self.data@).unwrap()) is Some ==> ({ let s = cbor_items(unzip(self.data@).unwrap()).unwrap(); read_as(picks(take@, s, min(take@.len() as int, s.len() as int)), r->Ok_0@) }),
    r is Ok ==> unzip(self.data@) is Some || forall|i: int| 0 <= i < take@.len() ==> !take@[i],
    decodes(self.data@) && cbor_items(unzip(self.data@).unwrap()) is Some && reads::<T>(cbor_items(unzip(self.data@).unwrap()).unwrap()) ==> r is Ok
body:
{
//@ let ghost take0 = take@;
let take = shrink_to_fit ( take ) ;
//@ proof {
//@ if unzip(self.data@) is Some && cbor_items(unzip(self.data@).unwrap()) is Some {
//@ let s = cbor_items(unzip(self.data@).unwrap()).unwrap();
//@ let n0 = min(take0.len() as int, s.len() as int);
//@ let n1 = min(take@.len() as int, s.len() as int);
//@ lemma_picks_none(take0, s, n1, n0);
//@ lemma_picks_prefix(take0, take@, s, s, n1);
//@ }
//@ }
if take . is_empty ( )
{
return Ok ( Vec :: new ( ) ) ;
}
let ( _ , data ) = decompress_and_transform ( self . compressed ( ) , & mut | uncompressed | -> ( vxr : Result < Vec < T >> ) ensures vxr is Ok && cbor_items ( uncompressed @ ) is Some ==> read_as ( picks ( take @, cbor_items ( uncompressed @ ) . unwrap ( ) , min ( take @. len ( ) as int , cbor_items ( uncompressed @ ) . unwrap ( ) . len ( ) as int ) ) , vxr -> Ok_0 @ ) , cbor_items ( uncompressed @ ) is Some && reads ::< T > ( cbor_items ( uncompressed @ ) . unwrap ( ) ) ==> vxr is Ok
{
{
let mut result : Vec < T > = Vec :: new ( ) ;
let mut bytes = uncompressed ;
//@ let ghost mut done = Seq::<Bytes>::empty();
vx_block ;
let mut vxit0 = vx_for ( take . vx_iter ( ) . vx_cloned ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ done.len() <= vxk0, done.len() == vxk0 || bytes@.len() == 0, vxs0 == take@, (cbor_items(uncompressed@) is Some) == (cbor_items(bytes@) is Some), cbor_items(uncompressed@) is Some ==> cbor_items(uncompressed@).unwrap() == done + cbor_items(bytes@).unwrap(),
//@ cbor_items(uncompressed@) is Some ==> read_as(picks(take@, cbor_items(uncompressed@).unwrap(), done.len() as int), result@)
{
proof
{
vxk0 = vxk0 + 1 ;
}
let take = vxit0 . take_next ( ) ;
if bytes . is_empty ( )
{
break ;
}
let ( cbor , rest ) = Cbor :: checked_prefix ( bytes ) ? ;
//@ proof {
//@ if cbor_items(uncompressed@) is Some { assert(cbor_items(bytes@).unwrap() =~= seq![cbor.bytes()] + cbor_items(rest@).unwrap()); assert(cbor_items(uncompressed@).unwrap()[done.len() as int] == cbor.bytes()); assert(cbor_items(uncompressed@).unwrap() =~= done.push(cbor.bytes()) + cbor_items(rest@).unwrap()); }
//@ done = done.push(cbor.bytes());
//@ }
bytes = rest ;
if take
{
result . push ( T :: read_cbor ( cbor ) ? ) ;
}
}
Ok ( result )
}
}
) ? ;
data
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs count_cbor_items
props: C05
params: data
spec:
    ensures (r is Ok) == (cbor_items(data@) is Some), r is Ok ==> cbor_items(data@).unwrap().len() == r->Ok_0
body:
{
let mut count = 0 ;
let mut bytes = data ;
//@ let vxn = data.len();
while ! bytes . is_empty ( )
//@ invariant (cbor_items(data@) is Some) == (cbor_items(bytes@) is Some), cbor_items(data@) is Some ==> cbor_items(data@).unwrap().len() == vu64(count) + cbor_items(bytes@).unwrap().len(), vu64(count) + bytes@.len() <= data@.len()
//@ decreases bytes@.len()
{
let ( _cbor , rest ) = Cbor :: checked_prefix ( bytes ) ? ;
bytes = rest ;
count += 1 ;
}
Ok ( count )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::count
props: C05
closure 0: -> (vxr: Result<u64>) ensures (vxr is Ok) == (cbor_items($0@) is Some), vxr is Ok ==> cbor_items($0@).unwrap().len() == vxr->Ok_0
params: self
spec:
    ensures r is Ok ==> decodes(self.data@) && cbor_items(unzip(self.data@).unwrap()) is Some && cbor_items(unzip(self.data@).unwrap()).unwrap().len() == r->Ok_0,
    decodes(self.data@) && cbor_items(unzip(self.data@).unwrap()) is Some ==> r is Ok
body:
{
decompress_and_transform ( self . compressed ( ) , & mut | uncompressed | -> ( vxr : Result < u64 > ) ensures ( vxr is Ok ) == ( cbor_items ( uncompressed @ ) is Some ) , vxr is Ok ==> cbor_items ( uncompressed @ ) . unwrap ( ) . len ( ) == vxr -> Ok_0
{
count_cbor_items ( uncompressed )
}
) ? . 1
}

### fn banyan/src/util.rs nonce
props: C09
trusted: reads the constant of the tree types
params: 
spec:
    ensures *r == tree_nonce::<T>()
body:
{
< & XNonce > try_from ( T :: NONCE ) . vx_unwrap ( )
}

### fn banyan/src/index.rs Leaf::new
props: C15
params: items byte_range
spec:
    ensures r.items == items, r.byte_range == byte_range
body:
{
Self
{
items ,
byte_range
}
}

### impl banyan/src/index.rs Leaf as AsRef
head: impl AsRef<ZstdDagCborSeq> for Leaf
items:
    open spec fn ar(&self) -> &ZstdDagCborSeq { &self.items }
### fn banyan/src/index.rs Leaf as AsRef::as_ref
props: C02
params: self
spec:
body:
{
//@ let ghost vxg = self.ar();
& self . items
}

### fn banyan/src/index.rs Branch::new
props: C15
params: children byte_range
spec:
    requires children@.len() > 0
    ensures r.children@ == children@, r.byte_range == byte_range
body:
{
vx_assert ( ! children . is_empty ( ) ) ;
Self
{
children : children . vx_into ( ) ,
byte_range ,
}
}

### fn banyan/src/index.rs Branch::count
props: C05
params: self
spec:
    ensures r == self.children@.len()
body:
{
self . children . len ( ) as u64
}

### fn banyan/src/index.rs deserialize_compressed
props: C15
params: key nonce ipld
spec:
    ensures r is Ok ==> contents(*key, *nonce, ipld@) is Some && contents(*key, *nonce, ipld@).unwrap().len() <= max_raw() && dag_seq::<Index<T>>(contents(*key, *nonce, ipld@).unwrap()) == Some(r->Ok_0.0@) && r->Ok_0.0@.len() > 0
        && r->Ok_0.1.start == env_start(ipld@) && r->Ok_0.1.end == env_end(ipld@),
    contents(*key, *nonce, ipld@) is Some && contents(*key, *nonce, ipld@).unwrap().len() <= max_raw() && dag_seq::<Index<T>>(contents(*key, *nonce, ipld@).unwrap()) is Some
        && dag_seq::<Index<T>>(contents(*key, *nonce, ipld@).unwrap()).unwrap().len() > 0 ==> r is Ok
body:
{
let ( seq , byte_range ) = ZstdDagCborSeq :: decrypt ( ipld , key , nonce ) ? ;
let seq = seq . items_ipld :: < Index < T > > ( ) ? ;
if ! ( ! seq . is_empty ( ) )
{
return Err ( vx_err ( ) ) ;
}
Ok ( ( seq , byte_range ) )
}

### fn banyan/src/forest/read.rs Forest::store
props: C15
params: self
spec:
    ensures *r == self.0.store
body:
{
& self . 0 . store
}

### fn banyan/src/forest/read.rs Forest::branch_cache
props: C15
params: self
spec:
    ensures *r == self.0.branch_cache
body:
{
& self . 0 . branch_cache
}

### fn banyan/src/forest/read.rs Forest::get_block
props: C15 C10
rewrite: self . store=>self . 0 . store
params: self link
spec:
    ensures r is Ok ==> r->Ok_0@.len() <= isize::MAX, r is Ok ==> r->Ok_0@ == block(*link) && served(*link) || bad(r->Ok_0@), avail(*link) ==> r is Ok && r->Ok_0@ == block(*link)
body:
{
let res = self . store . vx_get ( link ) ;
res
}

### fn banyan/src/forest/read.rs Forest::load_leaf_from_link
props: C15
params: self stream link
spec:
    ensures r is Ok ==> is_leaf(*link, r->Ok_0), r is Ok && decodes(r->Ok_0.items.data@) ==> served(*link) && under_key::<T>(stream.value_key, *link), readable::<T>(stream.value_key, *link) ==> r is Ok && decodes(r->Ok_0.items.data@)
body:
{
let data = & self . get_block ( link ) ? ;
let ( items , range ) = ZstdDagCborSeq :: decrypt ( data , stream . value_key ( ) , nonce :: < T > ( ) ) ? ;
Ok ( Leaf :: new ( items , range ) )
}

### fn banyan/src/forest/read.rs Forest::load_leaf
props: C15
params: self stream index
spec:
    ensures r is Ok ==> (r->Ok_0 is Some) == (index.link is Some), r is Ok && index.link is Some ==> is_leaf(index.link.unwrap(), r->Ok_0.unwrap()),
    r is Ok && index.link is Some && decodes(r->Ok_0.unwrap().items.data@) ==> served(index.link.unwrap()) && under_key::<T>(stream.value_key, index.link.unwrap()),
    (index.link is Some ==> readable::<T>(stream.value_key, index.link.unwrap())) ==> r is Ok && (index.link is Some ==> decodes(r->Ok_0.unwrap().items.data@))
body:
{
Ok ( if let Some ( link ) = & index . link
{
Some ( self . load_leaf_from_link ( stream , link ) ? )
}
else
{
None
}
)
}

### fn banyan/src/forest/read.rs Forest::load_branch_from_link
props: C15
params: self secrets link
spec:
    ensures r is Ok ==> is_branch(*link, r->Ok_0), r is Ok ==> served(*link) && under_key::<T>(secrets.index_key, *link), readable_branch::<T>(secrets.index_key, *link) ==> r is Ok
body:
{
Ok (
{
let bytes = self . get_block ( link ) ? ;
let ( children , byte_range ) = deserialize_compressed ( secrets . index_key ( ) , nonce :: < T > ( ) , & bytes ) ? ;
Branch :: < T > :: new ( children , byte_range )
}
)
}

### fn banyan/src/forest/read.rs Forest::load_branch
props: C15
params: self secrets index
spec:
    ensures r is Ok ==> (r->Ok_0 is Some) == (index.link is Some), r is Ok && index.link is Some ==> is_branch(index.link.unwrap(), r->Ok_0.unwrap()),
    r is Ok && index.link is Some ==> served(index.link.unwrap()) && under_key::<T>(secrets.index_key, index.link.unwrap()),
    (index.link is Some ==> readable_branch::<T>(secrets.index_key, index.link.unwrap())) ==> r is Ok
body:
{
let t0 = Instant :: now ( ) ;
let result = Ok ( if let Some ( link ) = & index . link
{
let bytes = self . get_block ( link ) ? ;
let ( children , byte_range ) = deserialize_compressed ( secrets . index_key ( ) , nonce :: < T > ( ) , & bytes ) ? ;
Some ( Branch :: < T > :: new ( children , byte_range ) )
}
else
{
None
}
) ;
result
}

### fn banyan/src/store/branch_cache.rs BranchCache::get
props: C10
closure 0: -> (vxr: Option<Branch<T>>) ensures vxr is Some ==> is_branch(*link, vxr.unwrap())
params: self link
spec:
    ensures r is Some ==> is_branch(*link, r.unwrap())
body:
{
self . 0 . vx_as_ref ( ) . vx_and_then ( | x | -> ( vxr : Option < Branch < T >> ) ensures vxr is Some ==> is_branch ( * link , vxr . unwrap ( ) )
{
x . vx_lock ( ) . vx_get ( link ) . vx_cloned ( )
}
)
}

### fn banyan/src/store/branch_cache.rs BranchCache::put
props: C10
closure 0: -> (vxr: Result<()>) requires is_branch(link, branch)
params: self link branch
spec:
    requires is_branch(link, branch)
body:
{
if let Some ( Err ( e ) ) = self . 0 . vx_as_ref ( ) . vx_map ( | x | -> ( vxr : Result < ( ) > ) requires is_branch ( link , branch )
{
x . vx_lock ( ) . put ( link , branch )
}
)
{
}
}

### fn banyan/src/forest/read.rs Forest::load_branch_cached_from_link
props: C15
params: self secrets link
spec:
    ensures r is Ok ==> is_branch(*link, r->Ok_0), readable_branch::<T>(secrets.index_key, *link) ==> r is Ok
body:
{
let res = self . branch_cache ( ) . vx_get ( link ) ;
match res
{
Some ( branch ) => Ok ( branch ) ,
None =>
{
let branch = self . load_branch_from_link ( secrets , link ) ? ;
self . branch_cache ( ) . put ( * link , branch . clone ( ) ) ;
Ok ( branch )
}
}
}

### fn banyan/src/index.rs BranchLoader::new
props: C15
params: forest secrets link
spec:
    ensures r.link == link, r.secrets == *secrets, r.forest == *forest
body:
{
Self
{
forest : forest . clone ( ) ,
secrets : secrets . clone ( ) ,
link ,
}
}

### fn banyan/src/index.rs BranchLoader::load
props: C15
params: self
spec:
    ensures r is Ok ==> is_branch(self.link, r->Ok_0), readable_branch::<T>(self.secrets.index_key, self.link) ==> r is Ok
body:
{
self . forest . load_branch_from_link ( & self . secrets , & self . link )
}

### fn banyan/src/index.rs BranchLoader::load_cached
props: C15
params: self
spec:
    ensures r is Ok ==> is_branch(self.link, r->Ok_0), readable_branch::<T>(self.secrets.index_key, self.link) ==> r is Ok
body:
{
self . forest . load_branch_cached_from_link ( & self . secrets , & self . link )
}

### fn banyan/src/index.rs LeafLoader::new
props: C15
params: forest secrets link
spec:
    ensures r.link == link, r.secrets == *secrets, r.forest == *forest
body:
{
Self
{
forest : forest . clone ( ) ,
secrets : secrets . clone ( ) ,
link ,
}
}

### fn banyan/src/index.rs LeafLoader::load
props: C15
params: self
spec:
    ensures r is Ok ==> is_leaf(self.link, r->Ok_0), readable::<T>(self.secrets.value_key, self.link) ==> r is Ok && decodes(r->Ok_0.items.data@)
body:
{
self . forest . load_leaf_from_link ( & self . secrets , & self . link )
}

### fn banyan/src/forest/read.rs Forest::node_info
props: C15
params: self secrets index
spec:
    ensures match *index {
    Index::Branch(x) => match x.link { Some(l) => r is Branch && r->Branch_0 == x && r->Branch_1.link == l && r->Branch_1.secrets == *secrets && r->Branch_1.forest == *self, None => r is PurgedBranch && r->PurgedBranch_0 == x },
    Index::Leaf(x) => match x.link { Some(l) => r is Leaf && r->Leaf_0 == x && r->Leaf_1.link == l && r->Leaf_1.secrets == *secrets && r->Leaf_1.forest == *self, None => r is PurgedLeaf && r->PurgedLeaf_0 == x },
    }
body:
{
match index
{
Index :: Branch ( index ) => match index . link
{
Some ( link ) =>
{
NodeInfo :: Branch ( index . clone ( ) , BranchLoader :: new ( self , secrets , link ) )
}
None => NodeInfo :: PurgedBranch ( index . clone ( ) ) ,
}
,
Index :: Leaf ( index ) => match index . link
{
Some ( link ) => NodeInfo :: Leaf ( index . clone ( ) , LeafLoader :: new ( self , secrets , link ) ) ,
None => NodeInfo :: PurgedLeaf ( index . clone ( ) ) ,
}
,
}
}

### fn banyan/src/index.rs Leaf::child_at
props: C02
params: self offset
spec:
    ensures r is Ok ==> unzip(self.items.data@) is Some && cbor_nth(unzip(self.items.data@).unwrap(), offset as int) is Some && cbor_nth(unzip(self.items.data@).unwrap(), offset as int).unwrap() is Some
        && T::rd(cbor_nth(unzip(self.items.data@).unwrap(), offset as int).unwrap().unwrap()) == Some(r->Ok_0),
    decodes(self.items.data@) && cbor_nth(unzip(self.items.data@).unwrap(), offset as int) is Some && cbor_nth(unzip(self.items.data@).unwrap(), offset as int).unwrap() is Some
        && T::rd(cbor_nth(unzip(self.items.data@).unwrap(), offset as int).unwrap().unwrap()) is Some ==> r is Ok
body:
{
self . vx_as_ref ( ) . vx_get ( offset ) ? . vx_ok_or_else ( | |
{
vx_err ( )
}
)
}

### fn banyan/src/forest/mod.rs Forest as Clone::clone
props: C15
params: self
spec:
    ensures r == *self
body:
{
Self ( self . 0 . clone ( ) )
}
