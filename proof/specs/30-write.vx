### type banyan/src/store/thread_local_zstd.rs MIN_CAPACITY
### type banyan/src/store/thread_local_zstd.rs MAX_CAPACITY
### type banyan/src/store/thread_local_zstd.rs DecompressionState
### type banyan/src/forest/mod.rs Transaction
### type banyan/src/stream_builder.rs StreamBuilderState

### fn banyan/src/stream_builder.rs StreamBuilderState::new
props: C08
params: offset secrets config
spec:
    ensures r.offset.value == offset, r.secrets == secrets, r.config == config
body:
{
Self
{
offset : CipherOffset :: new ( offset ) ,
secrets ,
config ,
}
}

### fn banyan/src/stream_builder.rs StreamBuilderState::config
props: C05
params: self
spec:
    ensures *r == self.config
body:
{
& self . config
}

### fn banyan/src/stream_builder.rs StreamBuilderState::secrets
props: C08
params: self
spec:
    ensures *r == self.secrets
body:
{
& self . secrets
}

### fn banyan/src/stream_builder.rs StreamBuilderState::value_key
props: C08
params: self
spec:
    ensures *r == self.secrets.value_key
body:
{
self . secrets . value_key ( )
}

### fn banyan/src/stream_builder.rs StreamBuilderState::index_key
props: C08
params: self
spec:
    ensures *r == self.secrets.index_key
body:
{
self . secrets . index_key ( )
}

### type banyan/src/store/zstd_dag_cbor_seq.rs V
### impl banyan/src/store/zstd_dag_cbor_seq.rs V as Visitor
items:
    open spec fn acc(&self) -> Set<Cid> { self.0.es() }
    #[verifier::prophetic] open spec fn same_visitor(a: Self, b: Self) -> bool { *final(a.0) == *final(b.0) }

### fn banyan/src/store/zstd_dag_cbor_seq.rs V as Visitor::visit_simple
props: C09
params: self item
spec:
body:
{
//@ let ghost a0 = self.0.es();
//@ proof { let s = seq![item.m()]; assert(s.drop_last() =~= Seq::empty()); assert(simple_links(Seq::empty()) == Set::<Cid>::empty()); assert(simple_links(s) == if is_link(item.m()) { Set::<Cid>::empty().insert(cid_of(item.m().bytes.unwrap().skip(1)).unwrap()) } else { Set::empty() }); assert(a0.union(Set::empty()) =~= a0); }
if let ( Some ( 42 ) , ItemKind :: Bytes ( b ) ) = ( item . tags ( ) . single ( ) , item . kind ( ) )
{
let b = b . as_cow ( ) ;
if ! b . is_empty ( ) && b [ 0 ] == 0
{
self . 0 . vx_extend ( [ Cid :: read_bytes ( b . vx_from ( 1 ) ) ? ] ) ;
}
else
{
return Err ( Error :: Io ( Error :: new ( ErrorKind :: Other , vx_string ( ) , ) ) ) ;
}
}
//@ proof { assert(self.0.es() =~= a0.union(simple_links(seq![item.m()]))); }
Ok ( ( ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs scrape_links
props: C09 C15
params: data c
spec:
    ensures r is Ok ==> cbor_items(data@) is Some && final(c).es() == old(c).es().union(links_of(data@)),
    (r is Ok) == (cbor_items(data@) is Some && forall|j: int| 0 <= j < cbor_items(data@).unwrap().len() ==> links_ok(#[trigger] cbor_items(data@).unwrap()[j]))
body:
{
let mut bytes = data ;
//@ let ghost c0 = c.es();
let mut visitor = V ( c ) ;
//@ let ghost v0 = visitor;
//@ let ghost mut done = Seq::<Bytes>::empty();
//@ proof { assert(all_links(done) == Set::<Cid>::empty()); assert(c0.union(Set::empty()) =~= c0); }
while ! bytes . is_empty ( )
//@ invariant (cbor_items(data@) is Some) == (cbor_items(bytes@) is Some), cbor_items(data@) is Some ==> cbor_items(data@).unwrap() == done + cbor_items(bytes@).unwrap(), visitor.acc() == c0.union(all_links(done)), V::same_visitor(v0, visitor), forall|j: int| 0 <= j < done.len() ==> links_ok(#[trigger] done[j])
//@ decreases bytes@.len()
{
let ( cbor , rest ) = Cbor :: checked_prefix ( bytes ) ? ;
//@ proof {
//@ if cbor_items(data@) is Some { assert(cbor_items(bytes@).unwrap() =~= seq![cbor.bytes()] + cbor_items(rest@).unwrap()); assert(cbor_items(data@).unwrap()[done.len() as int] == cbor.bytes()); assert(cbor_items(data@).unwrap() =~= done.push(cbor.bytes()) + cbor_items(rest@).unwrap()); }
//@ }
bytes = rest ;
cbor . visit ( & mut visitor ) ? ;
//@ proof { assert(done.push(cbor.bytes()).drop_last() =~= done); assert(c0.union(all_links(done)).union(item_links(cbor.bytes())) =~= c0.union(all_links(done.push(cbor.bytes())))); done = done.push(cbor.bytes()); }
}
//@ proof { assert(done + Seq::<Bytes>::empty() =~= done); }
Ok ( ( ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::from_iter_ipld
props: C09
params: iter zstd_level
spec:
    ensures r is Ok ==> exists|encs: Seq<Bytes>| #![trigger cat(encs)] encs.len() == iter.ii().len() && (forall|j: int| 0 <= j < encs.len() ==> iter.ii()[j].enc_ok(#[trigger] encs[j])) && unzip(r->Ok_0.data@) == Some(cat(encs)) && cat(encs).len() <= max_raw() && r->Ok_0.links@.to_set() == links_of(cat(encs))
body:
{
let t0 = Instant :: now ( ) ;
let mut encoder = Encoder :: new ( Vec :: new ( ) , zstd_level ) ? ;
let mut links = BTreeSet :: new ( ) ;
let mut size : usize = 0 ;
//@ let ghost mut encs = Seq::<Bytes>::empty();
//@ proof { lemma_no_items(); assert(links@ =~= links_of(cat(encs))); }
vx_block ;
let mut vxit0 = vx_for ( iter . vx_into_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == iter.ii(), encs.len() == vxk0, forall|j: int| 0 <= j < encs.len() ==> iter.ii()[j].enc_ok(#[trigger] encs[j]), encoder.written() == cat(encs), size == cat(encs).len(), size <= isize::MAX, cbor_items(cat(encs)) is Some, links@ == links_of(cat(encs))
{
proof
{
vxk0 = vxk0 + 1 ;
}
let item = vxit0 . take_next ( ) ;
let encoded = DagCborCodec . encode ( item ) ? ;
size += encoded . len ( ) ;
scrape_links ( encoded . vx_as_ref ( ) , & mut links ) ? ;
encoder . vx_write_all ( encoded . vx_as_ref ( ) ) ? ;
//@ proof { lemma_cat_push(encs, encoded@); lemma_cbor_concat(cat(encs), encoded@); encs = encs.push(encoded@); }
}
if ! ( size <= MAX_CAPACITY )
{
return Err ( vx_err ( ) ) ;
}
let data = encoder . vx_finish ( ) ? ;
Ok ( Self :: new ( data , links . vx_into_iter ( ) . vx_collect ( ) ) )
}

### fn banyan/src/index.rs serialize_compressed
props: C09 C08
params: key nonce state items level
spec:
    ensures final(state).value >= old(state).value,
    r is Ok ==> opened(r->Ok_0@) is Some && env_start(r->Ok_0@) == old(state).value && env_end(r->Ok_0@) == final(state).value && r->Ok_0@.len() <= isize::MAX
    && contents(*key, *nonce, r->Ok_0@) is Some && contents(*key, *nonce, r->Ok_0@).unwrap().len() <= max_raw() && dag_seq::<Index<T>>(contents(*key, *nonce, r->Ok_0@).unwrap()) == Some(items@)
body:
{
let zs = ZstdDagCborSeq :: from_iter_ipld ( items , level ) ? ;
//@ proof { let encs = choose|encs: Seq<Bytes>| #![trigger cat(encs)] encs.len() == items@.len() && (forall|j: int| 0 <= j < encs.len() ==> items@[j].enc_ok(#[trigger] encs[j])) && unzip(zs.data@) == Some(cat(encs)) && cat(encs).len() <= max_raw(); lemma_dag_cat(items@, encs); }
zs . into_encrypted ( key , nonce , state )
}

### fn banyan/src/forest/write.rs Transaction::put_block
props: C16
params: self data
spec:
    ensures final(self).read == old(self).read, r is Ok ==> block(r->Ok_0) == data@ && known(r->Ok_0) && served(r->Ok_0) && final(self).writer.log() == old(self).writer.log().push(data@),
    r is Err ==> final(self).writer.log() == old(self).writer.log() || final(self).writer.log() == old(self).writer.log().push(data@)
body:
{
self . writer . put ( data )
}

### fn banyan/src/forest/write.rs Transaction::persist_branch
props: C05 C08 C16
params: self items stream
spec:
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)),
    r is Ok ==> env_end(block(r->Ok_0.0)) == final(stream).offset.value,
    r is Ok ==> ({ let l = r->Ok_0.0; known(l) && served(l) && kids::<T>(l) == Some(items@) && under_key::<T>(old(stream).secrets.index_key, l) && r->Ok_0.1 <= isize::MAX })
body:
{
let level = stream . config ( ) . zstd_level ;
let key = * stream . index_key ( ) ;
let cbor = serialize_compressed ( & key , nonce :: < T > ( ) , & mut stream . offset , items , level ) ? ;
let len = cbor . len ( ) as u64 ;
Ok ( ( self . put_block ( cbor ) ? , len ) )
}

### fn banyan/src/forest/write.rs Transaction::new_branch
props: C05 C01
params: self children stream mode
spec:
    requires children@.len() > 0, all_wf(children@), mode == CreateMode::Packed ==> desc(children@)
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)),
    r is Ok ==> newest(bx(r->Ok_0), *final(stream)),
    r is Ok ==> r->Ok_0.link is Some && kids::<T>(r->Ok_0.link.unwrap()) == Some(children@) && wf(bx(r->Ok_0)) && elems(bx(r->Ok_0)) == all_elems(children@) && r->Ok_0.sealed == seal(old(stream).config, children@, r->Ok_0.level),
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && goods(a, children@) && (a is Limits ==> children@.len() <= lim(old(stream).config, r->Ok_0.level)) ==> #[trigger] good(a, bx(r->Ok_0))
body:
{
//@ broadcast use lemma_desc_levels;
vx_assert ( ! children . is_empty ( ) ) ;
if mode == CreateMode :: Packed
{
vx_assert ( is_sorted ( children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_rev ( ) ) ) ;
}
let level = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_max ( ) . vx_unwrap ( ) + 1 ;
let count = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . count ( ) )
}
)
{
x . count ( )
}
) . vx_sum ( ) ;
let summaries = children . vx_iter ( ) . vx_map ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . summarize ( ) )
}
)
{
child . summarize ( )
}
) . vx_collect :: < T :: SummarySeq > ( ) ;
let value_bytes = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . value_bytes ( ) )
}
)
{
x . value_bytes ( )
}
) . vx_sum ( ) ;
let sealed = stream . config ( ) . branch_sealed ( children , level ) ;
//@ proof { assume(level <= max_level()); }
let ( link , encoded_children_len ) = self . persist_branch ( children , stream ) ? ;
let key_bytes = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . key_bytes ( ) )
}
)
{
x . key_bytes ( )
}
) . vx_sum :: < u64 > ( ) + encoded_children_len ;
//@ proof {
//@ lemma_sum_counts(children@, Seq::new(children@.len(), |j: int| children@[j].count() as int));
//@ assert(summaries.seq() =~= summs(children@));
//@ let x = BranchIndex { level, count, sealed, link: Some(link), summaries, key_bytes, value_bytes };
//@ assert(branch_of(x, children@));
//@ lemma_new_branch(x, children@);
//@ lemma_good(x, children@, *stream);
//@ }
Ok ( BranchIndex
{
level ,
count ,
sealed ,
link : Some ( link ) ,
summaries ,
key_bytes ,
value_bytes ,
}
)
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::fill
props: C09 C01
params: compressed from keys zstd_level compressed_size uncompressed_size max_keys
attr: #[verifier::loop_isolation(true)]
spec:
    ensures suffix(old(from)@, final(from)@),
    r is Ok ==> filled(compressed@, old(keys)@, old(from)@, r->Ok_0.0.data@, final(keys)@, final(from)@, compressed_size as int, uncompressed_size as int, max_keys as int, r->Ok_0.1)
    && r->Ok_0.0.links@.to_set() == links_of(unzip(r->Ok_0.0.data@).unwrap())
body:
{
let mut links = BTreeSet :: new ( ) ;
let t0 = Instant :: now ( ) ;
let mut encoder = Encoder :: new ( Vec :: new ( ) , zstd_level ) ? ;
let mut size = if ! compressed . is_empty ( )
{
let ( size , data ) = match vx_half_decompress_and_transform ( compressed )
{
Ok ( ( vxn , decompressed ) ) =>
{
let vxr = match scrape_links ( decompressed , & mut links )
{
Ok ( _ ) =>
{
match encoder . vx_write_all ( decompressed )
{
Ok ( _ ) =>
{
Ok ( ( ) )
}
Err ( vxe ) => Err ( vxe )
}
}
Err ( vxe ) => Err ( vxe )
}
;
Ok ( ( vxn , vxr ) )
}
Err ( vxe ) => Err ( vxe )
}
? ;
data ? ;
size
}
else
{
0
}
;
let mut full = false ;
let mut bytes = Vec :: new ( ) ;
//@ let ghost max = uncompressed_size as int;
//@ let ghost b0 = unzip(compressed@).unwrap();
//@ proof { assert(taken(old(from)@, from@) =~= Seq::empty()); assert(b0 + cat(wrs(taken(old(from)@, from@))) =~= b0); assert(old(keys)@ + firsts(taken(old(from)@, from@)) =~= old(keys)@); assert(from@ =~= from@.skip(0)); assert(cbor_items(Seq::<u8>::empty()) == Some(Seq::<Bytes>::empty())); assert(all_links(Seq::empty()) == Set::<Cid>::empty()); assert(links@ =~= links_of(b0)); }
loop
//@ invariant_except_break !full,
//@ invariant suffix(old(from)@, from@), unzip(compressed@) == Some(b0), b0.len() <= max_raw(), cbor_items(encoder.written()) is Some, links@ == links_of(encoder.written()),
//@ encoder.written() == b0 + cat(wrs(taken(old(from)@, from@))), size == encoder.written().len(), size <= isize::MAX,
//@ keys@ == old(keys)@ + firsts(taken(old(from)@, from@)), max == uncompressed_size,
//@ taken(old(from)@, from@).len() > 0 ==> size <= uncompressed_size && keys@.len() <= max_keys,
//@ ensures from@.len() > 0 ==> keys@.len() >= max_keys || encoder.sink().len() >= compressed_size || full,
//@ full ==> from@.len() > 0 && size + from@[0].1.wr().len() > max,
//@ from@.len() > 0 && taken(old(from)@, from@).len() == 0 ==> keys@.len() >= max_keys || from@[0].1.wr().len() <= max && size + from@[0].1.wr().len() > max
//@ decreases from@.len()
{
//@ let ghost f0 = from@;
//@ let ghost w0 = encoder.written();
match from . peek ( )
{
Some ( ( _ , value ) ) =>
{
if keys . len ( ) >= max_keys
{
break ;
}
bytes . clear ( ) ;
value . write_cbor ( CborBuilder :: append_to ( & mut bytes ) ) ;
if ! ( bytes . len ( ) <= uncompressed_size )
{
return Err ( vx_err ( ) ) ;
}
if size + bytes . len ( ) > uncompressed_size
{
full = true ;
break ;
}
//@ proof { lemma_one_item(value); assert(bytes@ =~= value.wr()); }
scrape_links ( bytes . vx_as_ref ( ) , & mut links ) ? ;
let ( key , _ ) = from . next ( ) . vx_unwrap ( ) ;
//@ proof { lemma_take_one(old(from)@, f0); }
size += bytes . len ( ) ;
encoder . vx_write_all ( & bytes ) ? ;
//@ proof { lemma_take_one(old(from)@, f0); lemma_cbor_concat(w0, bytes@); assert(b0 + cat(wrs(taken(old(from)@, f0))) + bytes@ =~= b0 + (cat(wrs(taken(old(from)@, f0))) + bytes@)); }
keys . push ( key ) ;
//@ proof { assert(keys@ =~= old(keys)@ + firsts(taken(old(from)@, from@))); }
if encoder . get_ref ( ) . len ( ) >= compressed_size
{
break ;
}
}
_ =>
{
break ;
}
}
}
let data = encoder . vx_finish ( ) ? ;
full = vx_or ( full , data . len ( ) >= compressed_size ) ;
full = vx_or ( full , keys . len ( ) >= max_keys ) ;
full = vx_or ( full , size >= uncompressed_size ) ;
//@ proof {
//@ let t = taken(old(from)@, from@);
//@ assert(unzip(data@) == Some(unzip(compressed@).unwrap() + cat(wrs(t))));
//@ assert(keys@ == old(keys)@ + firsts(t));
//@ assert(t.len() > 0 ==> size <= max && keys@.len() <= max_keys);
//@ assert(from@.len() > 0 ==> full);
//@ assert(full == (data@.len() >= compressed_size || keys@.len() >= max_keys || size >= max || from@.len() > 0 && size + from@[0].1.wr().len() > max));
//@ }
Ok ( ( Self :: new ( data , links . vx_into_iter ( ) . vx_collect ( ) ) , full ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::from_iter
props: C09
params: iter zstd_level
spec:
    ensures r is Ok ==> unzip(r->Ok_0.data@) == Some(cat(wrs1(iter.ii()))) && cat(wrs1(iter.ii())).len() <= max_raw() && r->Ok_0.links@.to_set() == links_of(cat(wrs1(iter.ii())))
body:
{
let t0 = Instant :: now ( ) ;
let mut encoder = Encoder :: new ( Vec :: new ( ) , zstd_level ) ? ;
let mut links = BTreeSet :: new ( ) ;
let mut size : usize = 0 ;
let mut encoded = Vec :: new ( ) ;
//@ let ghost done = wrs1(iter.ii());
//@ proof { lemma_no_items(); assert(done.take(0) =~= Seq::empty()); assert(links@ =~= links_of(cat(done.take(0)))); }
vx_block ;
let mut vxit0 = vx_for ( iter . vx_into_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == iter.ii(), done == wrs1(vxs0), encoder.written() == cat(done.take(vxk0)), size == cat(done.take(vxk0)).len(), size <= isize::MAX, cbor_items(cat(done.take(vxk0))) is Some, links@ == links_of(cat(done.take(vxk0)))
{
proof
{
vxk0 = vxk0 + 1 ;
}
let item = vxit0 . take_next ( ) ;
encoded . clear ( ) ;
item . write_cbor ( CborBuilder :: append_to ( & mut encoded ) ) ;
//@ proof { assert(encoded@ =~= item.wr()); lemma_one_item(item); lemma_cat_push(done.take(vxk0 - 1), encoded@); lemma_cbor_concat(cat(done.take(vxk0 - 1)), encoded@); assert(done.take(vxk0 - 1).push(encoded@) =~= done.take(vxk0)); }
size += encoded . len ( ) ;
scrape_links ( encoded . vx_as_ref ( ) , & mut links ) ? ;
encoder . vx_write_all ( encoded . vx_as_ref ( ) ) ? ;
}
//@ proof { assert(done.take(vxk0) =~= done); }
if ! ( size <= MAX_CAPACITY )
{
return Err ( vx_err ( ) ) ;
}
let data = encoder . vx_finish ( ) ? ;
Ok ( Self :: new ( data , links . vx_into_iter ( ) . vx_collect ( ) ) )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::single
props: C09
params: value zstd_level
spec:
    ensures r is Ok ==> unzip(r->Ok_0.data@) == Some(value.wr()) && value.wr().len() <= max_raw() && r->Ok_0.links@.to_set() == links_of(value.wr())
body:
{
//@ proof { let s = seq![value]; lemma_no_items(); lemma_cat_push(Seq::empty(), value.wr()); assert(wrs1(s) =~= Seq::<Bytes>::empty().push(value.wr())); assert(Seq::<u8>::empty() + value.wr() =~= value.wr()); }
Self :: from_iter ( vx_iter_once ( value ) , zstd_level )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::single_ipld
props: C09
params: value zstd_level
spec:
    ensures r is Ok ==> unzip(r->Ok_0.data@) is Some && unzip(r->Ok_0.data@).unwrap().len() <= max_raw() && value.enc_ok(unzip(r->Ok_0.data@).unwrap()) && r->Ok_0.links@.to_set() == links_of(unzip(r->Ok_0.data@).unwrap())
body:
{
//@ proof { assert forall|encs: Seq<Bytes>| encs.len() == 1 implies #[trigger] cat(encs) == encs[0] by { lemma_cat_push(Seq::empty(), encs[0]); assert(encs =~= Seq::<Bytes>::empty().push(encs[0])); assert(Seq::<u8>::empty() + encs[0] =~= encs[0]); } }
Self :: from_iter_ipld ( vx_iter_once ( value ) , zstd_level )
}

### fn banyan/src/store/zstd_dag_cbor_seq.rs ZstdDagCborSeq::fill_ipld
props: C09
params: compressed from keys zstd_level compressed_size uncompressed_size max_keys
attr: #[verifier::loop_isolation(true)]
spec:
    ensures suffix(old(from)@, final(from)@),
    r is Ok ==> exists|encs: Seq<Bytes>| #![trigger cat(encs)] filled_ipld(compressed@, old(keys)@, old(from)@, r->Ok_0.0.data@, final(keys)@, final(from)@, compressed_size as int, uncompressed_size as int, max_keys as int, r->Ok_0.1, encs),
    r is Ok ==> r->Ok_0.0.links@.to_set() == links_of(unzip(r->Ok_0.0.data@).unwrap())
body:
{
let mut links = BTreeSet :: new ( ) ;
let t0 = Instant :: now ( ) ;
let mut encoder = Encoder :: new ( Vec :: new ( ) , zstd_level ) ? ;
let mut size = if ! compressed . is_empty ( )
{
let ( size , data ) = match vx_half_decompress_and_transform ( compressed )
{
Ok ( ( vxn , decompressed ) ) =>
{
let vxr = match scrape_links ( decompressed , & mut links )
{
Ok ( _ ) =>
{
match encoder . vx_write_all ( decompressed )
{
Ok ( _ ) =>
{
Ok ( ( ) )
}
Err ( vxe ) => Err ( vxe )
}
}
Err ( vxe ) => Err ( vxe )
}
;
Ok ( ( vxn , vxr ) )
}
Err ( vxe ) => Err ( vxe )
}
? ;
data ? ;
size
}
else
{
0
}
;
let mut full = false ;
//@ let ghost max = uncompressed_size as int;
//@ let ghost b0 = unzip(compressed@).unwrap();
//@ let ghost mut encs = Seq::<Bytes>::empty();
//@ proof { lemma_no_items(); assert(taken(old(from)@, from@) =~= Seq::empty()); assert(b0 + cat(encs) =~= b0); assert(old(keys)@ + firsts(taken(old(from)@, from@)) =~= old(keys)@); assert(from@ =~= from@.skip(0)); assert(links@ =~= links_of(b0)); }
loop
//@ invariant_except_break !full,
//@ invariant suffix(old(from)@, from@), unzip(compressed@) == Some(b0), b0.len() <= max_raw(), cbor_items(encoder.written()) is Some, links@ == links_of(encoder.written()),
//@ encs.len() == taken(old(from)@, from@).len(), encoded_as(taken(old(from)@, from@), encs),
//@ encoder.written() == b0 + cat(encs), size == encoder.written().len(), size <= isize::MAX,
//@ keys@ == old(keys)@ + firsts(taken(old(from)@, from@)), max == uncompressed_size,
//@ taken(old(from)@, from@).len() > 0 ==> size <= uncompressed_size && keys@.len() <= max_keys,
//@ ensures from@.len() > 0 ==> keys@.len() >= max_keys || encoder.sink().len() >= compressed_size || full,
//@ full ==> from@.len() > 0 && too_big(from@[0].1, max - size),
//@ from@.len() > 0 && taken(old(from)@, from@).len() == 0 ==> keys@.len() >= max_keys || too_big(from@[0].1, max - size)
//@ decreases from@.len()
{
//@ let ghost f0 = from@;
//@ let ghost w0 = encoder.written();
//@ let ghost t0 = taken(old(from)@, from@);
match from . peek ( )
{
Some ( ( _ , value ) ) =>
{
if keys . len ( ) >= max_keys
{
break ;
}
let bytes = DagCborCodec . encode ( value ) ? ;
if ! ( bytes . len ( ) <= uncompressed_size )
{
return Err ( vx_err ( ) ) ;
}
if size + bytes . len ( ) > uncompressed_size
{
//@ proof { assert(value.enc_ok(bytes@)); }
full = true ;
break ;
}
scrape_links ( bytes . vx_as_ref ( ) , & mut links ) ? ;
let ( key , _ ) = from . next ( ) . vx_unwrap ( ) ;
//@ proof { lemma_take_item(old(from)@, f0); }
size += bytes . len ( ) ;
encoder . vx_write_all ( & bytes ) ? ;
//@ proof { lemma_cbor_concat(w0, bytes@); lemma_cat_push(encs, bytes@); assert(b0 + cat(encs) + bytes@ =~= b0 + (cat(encs) + bytes@)); encs = encs.push(bytes@); assert(encoded_as(t0.push(f0[0]), encs)); }
keys . push ( key ) ;
//@ proof { assert(keys@ =~= old(keys)@ + firsts(taken(old(from)@, from@))); }
if encoder . get_ref ( ) . len ( ) >= compressed_size
{
break ;
}
}
_ =>
{
break ;
}
}
}
let data = encoder . vx_finish ( ) ? ;
full = vx_or ( full , data . len ( ) >= compressed_size ) ;
full = vx_or ( full , keys . len ( ) >= max_keys ) ;
full = vx_or ( full , size >= uncompressed_size ) ;
//@ proof {
//@ let t = taken(old(from)@, from@);
//@ assert(unzip(data@) == Some(unzip(compressed@).unwrap() + cat(encs)));
//@ assert(keys@ == old(keys)@ + firsts(t));
//@ assert(t.len() > 0 ==> size <= max && keys@.len() <= max_keys);
//@ assert(from@.len() > 0 ==> full);
//@ assert(encoded_as(t, encs));
//@ assert(t.len() == 0 && old(from)@.len() > 0 ==> from@ =~= old(from)@);
//@ assert(zlen(data@) == size);
//@ assert(t.len() == 0 && old(from)@.len() > 0 ==> keys@.len() >= max_keys || too_big(old(from)@[0].1, max - zlen(data@)));
//@ assert(filled_ipld(compressed@, old(keys)@, old(from)@, data@, keys@, from@, compressed_size as int, max, max_keys as int, full, encs));
//@ }
Ok ( ( Self :: new ( data , links . vx_into_iter ( ) . vx_collect ( ) ) , full ) )
}

### fn banyan/src/forest/write.rs Transaction::extend_leaf
props: C01 C05 C08
closure 0: -> (vxr: Vec<T::Key>) ensures vxr@ == $0.seq()
params: self compressed keys from stream
spec:
    requires cfg_ok(old(stream).config), old(from)@.len() > 0, unzip(compressed@) is Some ==> cbor_items(unzip(compressed@).unwrap()) is Some && cbor_items(unzip(compressed@).unwrap()).unwrap().len() == opt_keys::<T>(keys).len()
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(lx(r->Ok_0), *final(stream)),
    r is Ok ==> wf(lx(r->Ok_0)) && r->Ok_0.link is Some && unzip(compressed@) is Some && elems(lx(r->Ok_0)) == leaf_elems(opt_keys::<T>(keys), cbor_items(unzip(compressed@).unwrap()).unwrap()) + added(taken(old(from)@, final(from)@)),
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.sealed,
    r is Ok && opt_keys::<T>(keys).len() == 0 ==> taken(old(from)@, final(from)@).len() > 0,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && (a is Limits ==> opt_keys::<T>(keys).len() <= old(stream).config.max_leaf_count) ==> #[trigger] good(a, lx(r->Ok_0))
body:
{
//@ let ghost keys0 = opt_keys::<T>(keys);
vx_assert ( from . peek ( ) . is_some ( ) ) ;
let mut keys = keys . vx_map ( | keys | -> ( vxr : Vec < T :: Key > ) ensures vxr @ == keys . seq ( )
{
keys . vx_to_vec ( )
}
) . vx_unwrap_or_default ( ) ;
let ( data , sealed ) = ZstdDagCborSeq :: fill ( compressed , from , & mut keys , stream . config ( ) . zstd_level , stream . config ( ) . target_leaf_size , stream . config ( ) . max_uncompressed_leaf_size , stream . config ( ) . max_leaf_count , ) ? ;
let value_bytes = data . compressed ( ) . len ( ) as u64 ;
let encrypted = data . into_encrypted ( & stream . value_key ( ) . clone ( ) , nonce :: < T > ( ) , & mut stream . offset , ) ? ;
//@ let vxn = keys.len();
let keys = keys . vx_into_iter ( ) . vx_collect :: < T :: KeySeq > ( ) ;
let link = self . put_block ( encrypted ) ? ;
let index : LeafIndex < T > = LeafIndex
{
link : Some ( link ) ,
value_bytes ,
sealed ,
keys ,
}
;
//@ proof { lemma_leaf(index, unzip(compressed@).unwrap(), keys0, taken(old(from)@, from@)); }
Ok ( index )
}

### fn banyan/src/forest/write.rs Transaction::leaf_from_iter
props: C01 C05 C08
params: self from stream
spec:
    requires cfg_ok(old(stream).config), old(from)@.len() > 0
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(lx(r->Ok_0), *final(stream)),
    r is Ok ==> wf(lx(r->Ok_0)) && r->Ok_0.link is Some && elems(lx(r->Ok_0)) == added(taken(old(from)@, final(from)@)) && taken(old(from)@, final(from)@).len() > 0,
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.sealed,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) ==> #[trigger] good(a, lx(r->Ok_0))
body:
{
vx_assert ( from . peek ( ) . is_some ( ) ) ;
self . extend_leaf ( & [ ] , None , from , stream )
}

### fn banyan/src/forest/write.rs Transaction::extend_branch
props: C01 C05 C08
params: self children level from stream mode
spec:
    requires level > 0, cfg_ok(old(stream).config), all_wf(children@), forall|j: int| 0 <= j < children@.len() ==> (#[trigger] children@[j]).level() < level,
    mode == CreateMode::Packed ==> left_full(children@, level) && (children@.len() > 0 ==> packed(children@.last())) && (old(from)@.len() > 0 ==> all_full(children@, level)) && (children@.len() == 0 ==> old(from)@.len() > 0),
    mode != CreateMode::Packed ==> children@.len() > 0 && has_level(children@, level - 1) && old(from)@.len() == 0
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(bx(r->Ok_0), *final(stream)),
    r is Ok ==> wf(bx(r->Ok_0)) && r->Ok_0.link is Some && elems(bx(r->Ok_0)) == all_elems(children@) + added(taken(old(from)@, final(from)@)) && 1 <= r->Ok_0.level <= level,
    r is Ok && has_level(children@, level - 1) ==> r->Ok_0.level == level,
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.level == level && r->Ok_0.sealed,
    r is Ok && mode == CreateMode::Packed ==> packed(bx(r->Ok_0)),
    r is Ok && mode != CreateMode::Packed ==> kids::<T>(r->Ok_0.link.unwrap()) == Some(children@),
    r is Ok && children@.len() == 0 ==> taken(old(from)@, final(from)@).len() > 0,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && goods(a, children@) && (a is Limits ==> children@.len() <= lim(old(stream).config, level)) ==> #[trigger] good(a, bx(r->Ok_0))
    decreases level, 0int
body:
{
//@ let ghost ch0 = children@;
//@ let ghost from0 = from@;
//@ proof { lemma_taken(from0, from0, from0); assert(ch0.len() == 0 ==> all_elems(ch0) =~= Seq::empty()); }
vx_assert ( level > 0 ) ;
vx_assert ( children . vx_iter ( ) . vx_all ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . level ( ) < level )
}
)
{
child . level ( ) < level
}
) ) ;
if mode == CreateMode :: Packed
{
vx_assert ( from . peek ( ) . is_none ( ) || children . vx_iter ( ) . vx_all ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . level ( ) == level - 1 && child . sealed ( ) )
}
)
{
child . level ( ) == level - 1 && child . sealed ( )
}
) ) ;
}
else
{
vx_assert ( children . is_empty ( ) || children . vx_iter ( ) . vx_any ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . level ( ) == level - 1 )
}
)
{
child . level ( ) == level - 1
}
) ) ;
}
let max_branch_count = if level == 1
{
stream . config ( ) . max_key_branches
}
else
{
stream . config ( ) . max_summary_branches
}
;
let mut summaries = children . vx_iter ( ) . vx_map ( | child | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , child . summarize ( ) )
}
)
{
child . summarize ( )
}
) . vx_collect :: < Vec < _ > > ( ) ;
while from . peek ( ) . is_some ( ) && ( children . len ( ) < max_branch_count )
//@ invariant moved(*old(self), *old(stream), *self, *stream), suffix(from0, from@), all_wf(children@), forall|j: int| 0 <= j < children@.len() ==> (#[trigger] children@[j]).level() < level,
//@ mode == CreateMode::Packed ==> left_full(children@, level) && (children@.len() > 0 ==> packed(children@.last())) && (children@.len() == 0 ==> from@ == from0),
//@ from@.len() > 0 ==> mode == CreateMode::Packed && all_full(children@, level),
//@ mode != CreateMode::Packed ==> children@ == ch0, has_level(ch0, level - 1) ==> has_level(children@, level - 1),
//@ children@.len() >= ch0.len(), ch0.len() <= max_branch_count ==> children@.len() <= max_branch_count,
//@ children@.len() > ch0.len() ==> from@.len() < from0.len(),
//@ all_elems(children@) == all_elems(ch0) + added(taken(from0, from@)),
//@ forall|a: Aspect| keeps(a, *stream) && #[trigger] goods(a, ch0) ==> goods(a, children@)
//@ decreases max_branch_count - children@.len()
{
//@ let ghost from1 = from@;
//@ let ghost ch1 = children@;
let child = self . fill_node ( level - 1 , from , stream ) ? ;
let summary = child . summarize ( ) ;
summaries . push ( summary ) ;
children . push ( child ) ;
//@ proof {
//@ lemma_taken(from0, from1, from@);
//@ lemma_all_elems_push(ch1, child);
//@ assert(all_elems(children@) =~= all_elems(ch0) + added(taken(from0, from@)));
//@ if has_level(ch0, level - 1) { let j = choose|j: int| 0 <= j < ch1.len() && (#[trigger] ch1[j]).level() == level - 1; assert(children@[j].level() == level - 1); }
//@ }
}
//@ proof { reveal(desc); }
let index = self . new_branch ( & children , stream , mode ) ? ;
//@ proof {
//@ if mode == CreateMode::Packed { lemma_packed(index, children@, level); }
//@ assert(index.level == level || children@.len() == 1);
//@ assert forall|a: Aspect| keeps(a, *stream) && #[trigger] goods(a, ch0) && (a is Limits ==> ch0.len() <= lim(old(stream).config, level)) implies good(a, bx(index)) by { assert(goods(a, children@)); }
//@ }
if from . peek ( ) . is_some ( )
{
vx_assert ( index . level == level ) ;
if mode == CreateMode :: Packed
{
vx_assert ( index . sealed ) ;
}
}
else
{
vx_assert ( index . level <= level ) ;
}
Ok ( index )
}

### fn banyan/src/forest/write.rs Transaction::fill_node
props: C01 C05 C08
params: self level from stream
spec:
    requires cfg_ok(old(stream).config), old(from)@.len() > 0
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(r->Ok_0, *final(stream)),
    r is Ok ==> wf(r->Ok_0) && elems(r->Ok_0) == added(taken(old(from)@, final(from)@)) && taken(old(from)@, final(from)@).len() > 0 && r->Ok_0.level() <= level && packed(r->Ok_0),
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.level() == level && r->Ok_0.sealed(),
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) ==> #[trigger] good(a, r->Ok_0)
    decreases level, 1int
body:
{
vx_assert ( from . peek ( ) . is_some ( ) ) ;
Ok ( if level == 0
{
self . leaf_from_iter ( from , stream ) ? . vx_into ( )
}
else
{
self . extend_branch ( Vec :: new ( ) , level , from , stream , CreateMode :: Packed ) ? . vx_into ( )
}
)
}

### fn banyan/src/forest/write.rs Transaction::extend0
props: C01 C05 C08 C15
rewrite: index . keys . clone ( )=>index . keys . vx_clone ( )
params: self index from stream
spec:
    requires cfg_ok(old(stream).config), wf(*index), packed(*index)
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(r->Ok_0, *final(stream)) || unmoved(r->Ok_0, *final(stream), *index, *old(stream)) && final(from)@ == old(from)@,
    r is Ok ==> wf(r->Ok_0) && elems(r->Ok_0) == elems(*index) + added(taken(old(from)@, final(from)@)) && r->Ok_0.level() == index.level() && packed(r->Ok_0),
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.sealed(),
    r is Ok && index.sealed() ==> r->Ok_0 == *index,
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && good(a, *index) ==> #[trigger] good(a, r->Ok_0)
    decreases index.level(), 0int
body:
{
//@ let ghost ix = *index;
//@ let ghost from0 = from@;
//@ proof { lemma_taken(from0, from0, from0); assert(elems(ix) + Seq::<Elem<T::Key>>::empty() =~= elems(ix)); }
if index . sealed ( ) || from . peek ( ) . is_none ( )
{
return Ok ( index . clone ( ) ) ;
}
let secrets = stream . secrets ( ) . clone ( ) ;
Ok ( match self . node_info ( & secrets , index )
{
NodeInfo :: Leaf ( index , leaf ) =>
{
let leaf = leaf . load ( ) ? ;
let keys = index . keys . clone ( ) ;
self . extend_leaf ( leaf . vx_as_ref ( ) . compressed ( ) , Some ( keys ) , from , stream ) ? . vx_into ( )
}
NodeInfo :: Branch ( index , branch ) =>
{
let branch = branch . load_cached ( ) ? ;
let mut children = branch . children . vx_to_vec ( ) ;
//@ let ghost ch0 = children@;
if let Some ( last_child ) = children . vx_last_mut ( )
{
* last_child = self . extend_above ( Some ( last_child ) , index . level - 1 , from , stream ) ? ;
}
//@ let ghost from1 = from@;
//@ proof { lemma_replace_last(ix, children@, added(taken(from0, from1))); }
self . extend_branch ( children , index . level , from , stream , CreateMode :: Packed ) ? . vx_into ( )
}
NodeInfo :: PurgedBranch ( _ ) | NodeInfo :: PurgedLeaf ( _ ) =>
{
index . clone ( )
}
}
)
}

### fn banyan/src/forest/write.rs Transaction::extend_above
props: C01 C05 C08 C15
params: self node level from stream
spec:
    requires cfg_ok(old(stream).config), node is Some ==> wf(*node.unwrap()) && packed(*node.unwrap()) && node.unwrap().level() <= level
    ensures moved(*old(self), *old(stream), *final(self), *final(stream)), suffix(old(from)@, final(from)@),
    r is Ok ==> newest(r->Ok_0, *final(stream)) || node is Some && unmoved(r->Ok_0, *final(stream), *node.unwrap(), *old(stream)) && final(from)@ == old(from)@,
    r is Ok ==> wf(r->Ok_0) && elems(r->Ok_0) == (if node is Some { elems(*node.unwrap()) } else { Seq::empty() }) + added(taken(old(from)@, final(from)@)) && r->Ok_0.level() <= level && packed(r->Ok_0) && (level > 0 ==> r->Ok_0.level() > 0) && (node is Some ==> node.unwrap().level() <= r->Ok_0.level()),
    r is Ok && final(from)@.len() > 0 ==> r->Ok_0.level() == level && r->Ok_0.sealed(),
    r is Ok ==> forall|a: Aspect| keeps(a, *final(stream)) && (node is Some ==> good(a, *node.unwrap())) ==> #[trigger] good(a, r->Ok_0)
    decreases (if node is Some { node.unwrap().level() } else { 0 }), 1int
body:
{
//@ let ghost from0 = from@;
//@ let ghost e0 = if node is Some { elems(*node.unwrap()) } else { Seq::empty() };
//@ let ghost n0 = node;
if ! ( from . peek ( ) . is_some ( ) )
{
return Err ( vx_err ( ) ) ;
}
vx_assert ( node . vx_map ( | node | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , level >= node . level ( ) )
}
)
{
level >= node . level ( )
}
) . vx_unwrap_or ( true ) ) ;
let mut node = if let Some ( node ) = node
{
self . extend0 ( node , from , stream ) ?
}
else
{
self . leaf_from_iter ( from , stream ) ? . vx_into ( )
}
;
while ( from . peek ( ) . is_some ( ) || node . level ( ) == 0 ) && node . level ( ) < level
//@ invariant moved(*old(self), *old(stream), *self, *stream), suffix(from0, from@), wf(node), packed(node), node.level() <= level, from@.len() > 0 ==> node.sealed(), elems(node) == e0 + added(taken(from0, from@)), n0 is Some ==> n0.unwrap().level() <= node.level(), newest(node, *stream) || n0 is Some && unmoved(node, *stream, *n0.unwrap(), *old(stream)) && from@ == from0,
//@ forall|a: Aspect| keeps(a, *stream) && (n0 is Some ==> good(a, *n0.unwrap())) ==> #[trigger] good(a, node)
//@ decreases level - node.level()
{
//@ let ghost from1 = from@;
//@ let ghost node1 = node;
let level = node . level ( ) + 1 ;
node = self . extend_branch ( vx_vec1 ( node ) , level , from , stream , CreateMode :: Packed ) ? . vx_into ( ) ;
//@ proof {
//@ lemma_taken(from0, from1, from@);
//@ lemma_one(node1);
//@ assert(elems(node) =~= e0 + added(taken(from0, from@)));
//@ }
}
if from . peek ( ) . is_some ( )
{
vx_assert ( node . level ( ) == level ) ;
vx_assert ( node . sealed ( ) ) ;
}
else
{
vx_assert ( node . level ( ) <= level ) ;
}
Ok ( node )
}

### fn banyan/src/store/thread_local_zstd.rs DecompressionState::new
props: C09
params:
spec:
    ensures r.buffer@.len() == MIN_CAPACITY
body:
{
Self
{
decompressor : Decompressor :: new ( ) ,
buffer : vx_repeat ( 0u8 , MIN_CAPACITY ) ,
}
}

### fn banyan/src/store/thread_local_zstd.rs DecompressionState::decompress_and_transform
props: C09
params: self compressed f
spec:
    requires old(self).buffer@.len() == MIN_CAPACITY, forall|b: &[u8]| unzip(compressed@) == Some(b@) ==> call_requires(*old(f), (b,))
    ensures final(self).buffer@.len() == MIN_CAPACITY,
    r is Ok ==> unzip(compressed@) is Some && unzip(compressed@).unwrap().len() <= max_raw() && r->Ok_0.0 == unzip(compressed@).unwrap().len() && (exists|b: &[u8]| unzip(compressed@) == Some(b@) && call_ensures(*old(f), (b,), r->Ok_0.1)),
    unzip(compressed@) is Some && unzip(compressed@).unwrap().len() <= max_raw() ==> r is Ok
body:
{
let capacity = Decompressor :: upper_bound ( compressed ) . vx_unwrap_or ( MAX_CAPACITY ) . vx_min ( MAX_CAPACITY ) ;
let mut tmp = Vec :: new ( ) ;
let buffer = if capacity <= MIN_CAPACITY
{
self . buffer . vx_all_mut ( )
}
else
{
tmp . resize ( capacity , 0u8 ) ;
& mut tmp
}
;
let len = self . decompressor . decompress_to_buffer ( compressed , buffer ) ? ;
let result = f ( buffer . vx_sub ( 0 , len ) ) ;
Ok ( ( len , result ) )
}
