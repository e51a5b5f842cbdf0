### type banyan-utils/src/tags.rs TT

### type banyan-utils/src/tags.rs Key

### type banyan-utils/src/tags.rs TimeData

### type banyan-utils/src/tags.rs DnfQuery

### type banyan-utils/src/tags.rs IndexSet
same: banyan-utils/src/tag_index.rs IndexSet

### type banyan-utils/src/tags.rs TranslatedKey

### type banyan-utils/src/tags.rs TranslatedDnfQuery

### type banyan-utils/src/tags.rs KeySeq

### impl banyan-utils/src/tags.rs DnfQuery as Query
head: impl DnfQuery
### impl banyan-utils/src/tags.rs KeySeq as CompactSeq
head: impl KeySeq
### impl banyan-utils/src/tags.rs KeySeq as Summarizable
head: impl KeySeq
### impl banyan-utils/src/tags.rs KeySeq as FromIterator<Key>
head: impl KeySeq

### fn banyan-utils/src/tags.rs TimeData::intersects
props: C12
params: self that
spec:
    ensures r == self.overlaps(*that),
body:
{
if self . max_time < that . min_time
{
return false ;
}
if self . min_time > that . max_time
{
return false ;
}
true
}

### fn banyan-utils/src/tags.rs TimeData::contains
props: C12
name: vx_contains
params: self that
spec:
    ensures r == that.within(*self),
body:
{
if that . min_time < self . min_time
{
return false ;
}
if that . max_time > self . max_time
{
return false ;
}
true
}

### fn banyan-utils/src/tags.rs TimeData::combine
props: C12
params: self b
spec:
    ensures final(self).min_lamport <= old(self).min_lamport, final(self).min_lamport <= b.min_lamport, old(self).within(*final(self)), b.within(*final(self)),
    final(self).min_lamport == old(self).min_lamport || final(self).min_lamport == b.min_lamport, final(self).min_time == old(self).min_time || final(self).min_time == b.min_time, final(self).max_time == old(self).max_time || final(self).max_time == b.max_time,
body:
{
self . min_lamport = self . min_lamport . vx_min ( b . min_lamport ) ;
self . min_time = self . min_time . vx_min ( b . min_time ) ;
self . max_time = self . max_time . vx_max ( b . max_time ) ;
}

### fn banyan-utils/src/tags.rs Key::single
props: C12
params: lamport time tags
spec:
    ensures r.tags == tags, r.time.min_lamport == lamport, r.time.min_time == time, r.time.max_time == time,
body:
{
Self
{
time : TimeData
{
min_lamport : lamport ,
min_time : time ,
max_time : time ,
}
,
tags ,
}
}

### fn banyan-utils/src/tags.rs Key::filter_tags
props: C12
params: tags
spec:
    // all events with none but these tags
    ensures r.tags == tags, forall|t: TimeData| #[trigger] t.within(r.time),
body:
{
Self
{
time : TimeData
{
min_lamport : u64 :: MIN ,
min_time : u64 :: MIN ,
max_time : u64 :: MAX ,
}
,
tags ,
}
}

### fn banyan-utils/src/tags.rs Key::range
props: C12
params: min_time max_time tags
spec:
    ensures r.tags == tags, r.time.min_time == min_time, r.time.max_time == max_time,
body:
{
Self
{
time : TimeData
{
min_lamport : 0 ,
min_time ,
max_time ,
}
,
tags ,
}
}

### fn banyan-utils/src/tags.rs Key::intersects
props: C12
params: self that
spec:
    ensures r == meets(*self, that.ev()),
body:
{
self . time . intersects ( & that . time ) && ! self . tags . vx_is_disjoint ( & that . tags )
}

### fn banyan-utils/src/tags.rs Key::contains
props: C12
name: vx_contains
params: self that
spec:
    ensures r == in_key(*self, that.ev()),
body:
{
self . time . vx_contains ( & that . time ) && self . tags . is_superset ( & that . tags )
}

### fn banyan-utils/src/tags.rs Key::combine
props: C12
params: self b
spec:
    ensures covers(final(self).ev(), old(self).ev()), covers(final(self).ev(), b.ev()), final(self).tags.set() == old(self).tags.set().union(b.tags.set()),
body:
{
self . time . combine ( & b . time ) ;
self . tags . vx_extend ( b . tags . vx_iter ( ) . vx_cloned ( ) ) ;
}

### fn banyan-utils/src/tags.rs DnfQuery::intersects
props: C12
closure 0: -> (vxr: bool) ensures vxr == meets(*$0, v.ev())
params: self v
spec:
    ensures r == meets_query(*self, v.ev()),
body:
{
self . 0 . vx_iter ( ) . vx_any ( | x | -> ( vxr : bool ) ensures vxr == meets ( * x , v . ev ( ) )
{
x . intersects ( v )
}
)
}

### fn banyan-utils/src/tags.rs DnfQuery::contains
props: C12
name: vx_contains
closure 0: -> (vxr: bool) ensures vxr == in_key(*$0, v.ev())
params: self v
spec:
    ensures r == in_query(*self, v.ev()),
body:
{
self . 0 . vx_iter ( ) . vx_any ( | x | -> ( vxr : bool ) ensures vxr == in_key ( * x , v . ev ( ) )
{
x . vx_contains ( v )
}
)
}

### fn banyan-utils/src/tags.rs DnfQuery::map_into
props: C12
closure 0: -> (vxr: TranslatedKey) requires keyseq.wf() ensures trans(keyseq.tags.tags.sq(), *$0, vxr)
closure 1: -> (vxr: Option<usize>) requires keyseq.wf() ensures pos_of(keyseq.tags.tags.sq(), *$0, vxr)
params: self keyseq
spec:
    requires keyseq.wf(),
    ensures trans_all(*self, r), r.seq == keyseq,
body:
{
TranslatedDnfQuery
{
query : self . 0 . vx_iter ( ) . vx_map ( | key | -> ( vxr : TranslatedKey ) requires keyseq . wf ( ) ensures trans ( keyseq . tags . tags . sq ( ) , * key , vxr )
{
TranslatedKey
{
index_set : key . tags . vx_iter ( ) . vx_filter_map ( | t | -> ( vxr : Option < usize > ) requires keyseq . wf ( ) ensures pos_of ( keyseq . tags . tags . sq ( ) , * t , vxr )
{
keyseq . tags . tags . vx_as_ref ( ) . vx_binary_search ( t ) . vx_ok ( )
}
) . vx_map ( | i | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , i as u32 )
}
)
{
i as u32
}
) . vx_collect ( ) ,
time : key . time ,
}
}
) . vx_collect ( ) ,
seq : keyseq ,
}
}

### fn banyan-utils/src/tags.rs TranslatedDnfQuery::intersects
props: C12
closure 0: -> (vxr: bool) requires self.seq.wf(), i < self.seq.size() ensures vxr == ($0.time.overlaps(self.seq.time_at(i as int)) && !$0.index_set.set().disjoint(self.seq.tags.elements@[i as int].set()))
params: self i
spec:
    requires self.seq.wf(), i < self.seq.size(),
    ensures r == t_meets(*self, i as int),
body:
{
self . query . vx_iter ( ) . vx_any ( | q | -> ( vxr : bool ) requires self . seq . wf ( ) , i < self . seq . size ( ) ensures vxr == ( q . time . overlaps ( self . seq . time_at ( i as int ) ) && ! q . index_set . set ( ) . disjoint ( self . seq . tags . elements @ [ i as int ] . set ( ) ) )
{
q . time . intersects ( & self . seq . time ( i ) . vx_unwrap ( ) ) && ! q . index_set . vx_is_disjoint ( & self . seq . tags . elements [ i ] )
}
)
}

### fn banyan-utils/src/tags.rs TranslatedDnfQuery::contains
props: C12
name: vx_contains
closure 0: -> (vxr: bool) requires self.seq.wf(), i < self.seq.size() ensures vxr == (self.seq.time_at(i as int).within($0.time) && self.seq.tags.elements@[i as int].set().subset_of($0.index_set.set()))
params: self i
spec:
    requires self.seq.wf(), i < self.seq.size(),
    ensures r == t_in(*self, i as int),
body:
{
self . query . vx_iter ( ) . vx_any ( | q | -> ( vxr : bool ) requires self . seq . wf ( ) , i < self . seq . size ( ) ensures vxr == ( self . seq . time_at ( i as int ) . within ( q . time ) && self . seq . tags . elements @ [ i as int ] . set ( ) . subset_of ( q . index_set . set ( ) ) )
{
q . time . vx_contains ( & self . seq . time ( i ) . vx_unwrap ( ) ) && q . index_set . is_superset ( & self . seq . tags . elements [ i ] )
}
)
}

### fn banyan-utils/src/tags.rs TranslatedDnfQuery::intersecting
props: C12
params: self matching
spec:
    requires self.seq.wf(),
    ensures final(matching)@.len() == old(matching)@.len(),
    forall|i: int| 0 <= i < old(matching)@.len() ==> #[trigger] final(matching)@[i] == (old(matching)@[i] && (i < self.seq.size() ==> t_meets(*self, i))),
body:
{
vx_block ;
let mut vxit0 = vx_for ( 0 .. self . seq . len ( ) . vx_min ( matching . len ( ) ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0.len() == (if self.seq.size() <= old(matching)@.len() { self.seq.size() as int } else { old(matching)@.len() as int }), forall|k: int| #![trigger vxs0[k]] 0 <= k < vxs0.len() ==> vxs0[k] == k, matching@.len() == old(matching)@.len(),
//@ forall|i: int| 0 <= i < matching@.len() ==> #[trigger] matching@[i] == (old(matching)@[i] && (i < vxk0 ==> t_meets(*self, i))),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let i = vxit0 . take_next ( ) ;
if matching [ i ]
{
matching [ i ] = self . intersects ( i ) ;
}
}
}

### fn banyan-utils/src/tags.rs TranslatedDnfQuery::containing
props: C12
params: self matching
spec:
    requires self.seq.wf(),
    ensures final(matching)@.len() == old(matching)@.len(),
    forall|i: int| 0 <= i < old(matching)@.len() ==> #[trigger] final(matching)@[i] == (old(matching)@[i] && (i < self.seq.size() ==> t_in(*self, i))),
body:
{
vx_block ;
let mut vxit0 = vx_for ( 0 .. self . seq . len ( ) . vx_min ( matching . len ( ) ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0.len() == (if self.seq.size() <= old(matching)@.len() { self.seq.size() as int } else { old(matching)@.len() as int }), forall|k: int| #![trigger vxs0[k]] 0 <= k < vxs0.len() ==> vxs0[k] == k, matching@.len() == old(matching)@.len(),
//@ forall|i: int| 0 <= i < matching@.len() ==> #[trigger] matching@[i] == (old(matching)@[i] && (i < vxk0 ==> t_in(*self, i))),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let i = vxit0 . take_next ( ) ;
if matching [ i ]
{
matching [ i ] = self . vx_contains ( i ) ;
}
}
}

### fn banyan-utils/src/tags.rs DnfQuery as Query::intersecting
props: C12
params: self _ x matching
spec:
    requires x.summaries.wf(),
    ensures final(matching)@.len() == old(matching)@.len(),
    forall|i: int| 0 <= i < old(matching)@.len() ==> #[trigger] final(matching)@[i] == (old(matching)@[i] && (i < x.summaries.size() ==> meets_query(*self, x.summaries.at(i)))),
body:
{
self . map_into ( & x . summaries ) . intersecting ( matching ) ;
}

### fn banyan-utils/src/tags.rs DnfQuery as Query::containing
props: C12
params: self _ x matching
spec:
    requires x.keys.wf(),
    ensures final(matching)@.len() == old(matching)@.len(),
    forall|i: int| 0 <= i < old(matching)@.len() ==> #[trigger] final(matching)@[i] == (old(matching)@[i] && (i < x.keys.size() ==> in_query(*self, x.keys.at(i)))),
body:
{
self . map_into ( & x . keys ) . containing ( matching ) ;
}

### fn banyan-utils/src/tags.rs KeySeq::time
props: C12
params: self i
spec:
    requires self.wf(),
    ensures (r is Some) == (i < self.size()), r is Some ==> r.unwrap() == self.time_at(i as int),
body:
{
if i < self . min_lamport . len ( )
{
Some ( TimeData
{
min_time : self . min_time [ i ] ,
max_time : self . max_time [ i ] ,
min_lamport : self . min_lamport [ i ] ,
}
)
}
else
{
None
}
}

### fn banyan-utils/src/tags.rs KeySeq as CompactSeq::get
props: C12
params: self index
spec:
    requires self.wf(),
    ensures (r is Some) == (index < self.size()), r is Some ==> r.unwrap().ev() == self.at(index as int),
body:
{
if let ( Some ( min_lamport ) , Some ( min_time ) , Some ( max_time ) , Some ( tags ) ) = ( self . min_lamport . vx_get ( index ) , self . min_time . vx_get ( index ) , self . max_time . vx_get ( index ) , self . tags . vx_get ( index ) , )
{
Some ( Key
{
time : TimeData
{
min_lamport : * min_lamport ,
min_time : * min_time ,
max_time : * max_time ,
}
,
tags ,
}
)
}
else
{
None
}
}

### fn banyan-utils/src/tags.rs KeySeq as CompactSeq::len
props: C12
params: self
spec:
    ensures r == self.size(),
body:
{
self . tags . elements . len ( )
}

### fn banyan-utils/src/tags.rs KeySeq as Summarizable::summarize
props: C12
params: self
spec:
    requires self.wf(), self.size() > 0,
    ensures forall|i: int| 0 <= i < self.size() ==> covers(r.ev(), #[trigger] self.at(i)),
body:
{
let max_time = * self . max_time . vx_iter ( ) . vx_max ( ) . vx_unwrap ( ) ;
let min_time = * self . min_time . vx_iter ( ) . vx_min ( ) . vx_unwrap ( ) ;
let min_lamport = * self . min_lamport . vx_iter ( ) . vx_min ( ) . vx_unwrap ( ) ;
let tags = self . tags . tags . clone ( ) ;
Key
{
time : TimeData
{
min_lamport ,
min_time ,
max_time ,
}
,
tags ,
}
}

### fn banyan-utils/src/tags.rs KeySeq as FromIterator<Key>::from_iter
props: C12
params: iter
spec:
    requires all_tags(tags_of(iter.ii())).len() <= 0x1_0000_0000,
    ensures r.wf(), r.size() == iter.ii().len(), forall|i: int| 0 <= i < r.size() ==> #[trigger] r.at(i) == iter.ii()[i].ev(),
body:
{
let mut min_lamport = Vec :: new ( ) ;
let mut min_time = Vec :: new ( ) ;
let mut max_time = Vec :: new ( ) ;
let mut tag_index = Vec :: new ( ) ;
vx_block ;
let mut vxit0 = vx_for ( iter . vx_into_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == iter.ii(), min_lamport@.len() == vxk0, min_time@.len() == vxk0, max_time@.len() == vxk0, tag_index@ =~= tags_of(vxs0).take(vxk0),
//@ forall|i: int| 0 <= i < vxk0 ==> #[trigger] min_lamport@[i] == vxs0[i].time.min_lamport, forall|i: int| 0 <= i < vxk0 ==> #[trigger] min_time@[i] == vxs0[i].time.min_time, forall|i: int| 0 <= i < vxk0 ==> #[trigger] max_time@[i] == vxs0[i].time.max_time,
{
proof
{
vxk0 = vxk0 + 1 ;
}
let value = vxit0 . take_next ( ) ;
min_lamport . push ( value . time . min_lamport ) ;
min_time . push ( value . time . min_time ) ;
max_time . push ( value . time . max_time ) ;
tag_index . push ( value . tags ) ;
}
let tag_index = TagIndex :: from_elements ( & tag_index ) ;
Self
{
min_lamport ,
min_time ,
max_time ,
tags : tag_index ,
}
}
