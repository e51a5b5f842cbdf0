### fn banyan/src/util.rs lt
props: C04
params: end start
subst: T=u64;nogen=1
spec:
    ensures
        // nothing can be at or below `end` and at or above `start`
        r ==> forall|x: int| !(#[trigger] below(end, x) && above(start, x)),
body:
{
match ( end , start )
{
( Bound :: Unbounded , _ ) => false ,
( _ , Bound :: Unbounded ) => false ,
( Bound :: Included ( end ) , Bound :: Included ( start ) ) => end < start ,
( Bound :: Excluded ( end ) , Bound :: Included ( start ) ) => end <= start ,
( Bound :: Included ( end ) , Bound :: Excluded ( start ) ) => end <= start ,
( Bound :: Excluded ( end ) , Bound :: Excluded ( start ) ) => end <= start ,
}
}

### impl banyan/src/util.rs RangeBoundsExt as TraitDefault
head: pub trait RangeBoundsExt<T>: RangeBounds<u64>

### fn banyan/src/util.rs RangeBoundsExt as TraitDefault::intersects
props: C04
params: self b
subst: T=u64
spec:
    ensures !r ==> forall|x: int| !(#[trigger] within(*self, x) && within(*b, x)),
body:
{
! lt ( self . end_bound ( ) , b . start_bound ( ) ) && ! lt ( b . end_bound ( ) , self . start_bound ( ) )
}

### fn banyan/src/util.rs is_sorted
props: C05
params: iter
subst: T=u32;nogen=1
closure 0: -> (vxr: bool) requires $0@.len() == 2 ensures vxr == ($0@[0] <= $0@[1])
tail: 1
spec:
    ensures r == sorted(iter@),
body:
{
let vxt : bool = iter . vx_collect :: < Vec < _ > > ( ) . vx_windows ( 2 ) . vx_all ( | x | -> ( vxr : bool ) requires x @. len ( ) == 2 ensures vxr == ( x @ [ 0 ] <= x @ [ 1 ] )
{
x [ 0 ] <= x [ 1 ]
}
) ;
//@ proof {
//@ if vxt {
//@ assert forall|i: int| 0 <= i < iter@.len() - 1 implies #[trigger] iter@[i] <= iter@[i + 1] by { let w = iter@.subrange(i, i + 2); assert(w[0] == iter@[i] && w[1] == iter@[i + 1]); }
//@ lemma_adjacent_sorted(iter@);
//@ }
//@ }
vxt
}

### impl banyan/src/util.rs &[bool] as BoolSliceExt
head: impl BoolSliceExt for [bool]
items:
    open spec fn bs(&self) -> Seq<bool> { self@ }

### fn banyan/src/util.rs &[bool] as BoolSliceExt::any
props: C04
selfparam: &self
params: self
spec:
body:
{
//@ proof { assert(self.bs() =~= self.sl()); }
self . vx_iter ( ) . vx_any ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , * x )
}
)
{
* x
}
)
}

### impl banyan/src/util.rs &mut [bool] as MutBoolSliceExt
head: impl MutBoolSliceExt for [bool]
items:
    open spec fn mbs(&self) -> Seq<bool> { self@ }

### fn banyan/src/util.rs &mut [bool] as MutBoolSliceExt::clear
props: C04
selfparam: &mut self
params: self
spec:
body:
{
vx_block ;
let mut vxit0 = vx_for ( 0 .. self . len ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ self@.len() == old(self)@.len(), forall|i: int| 0 <= i < vxk0 ==> !self@[i],
{
proof
{
vxk0 = vxk0 + 1 ;
}
let vxi0 = vxit0 . take_next ( ) ;
let x = & mut self [ vxi0 ] ;
* x = false ;
}
}

### fn banyan/src/util.rs &mut [bool] as MutBoolSliceExt::or_with
props: C04
selfparam: &mut self
params: self rhs
spec:
body:
{
vx_block ;
let mut vxit0 = vx_for ( 0 .. self . len ( ) . vx_min ( rhs . len ( ) ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ self@.len() == old(self)@.len(),
//@ forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < vxk0 { old(self)@[i] || rhs@[i] } else { old(self)@[i] }),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let i = vxit0 . take_next ( ) ;
//@ assert(i == vxk0 - 1);
//@ let ghost s0 = self@;
//@ assert(s0[i as int] == old(self)@[i as int]);
self [ i ] = vx_or ( self [ i ] , rhs [ i ] )
}
}

### type banyan/src/query.rs OffsetRangeQuery
### type banyan/src/query.rs EmptyQuery
### type banyan/src/query.rs AllQuery
### type banyan/src/query.rs AndQuery
### type banyan/src/query.rs OrQuery

### impl banyan/src/query.rs OffsetRangeQuery as Query
before:
    impl<T: TreeTypes, R: RangeBounds<u64>> QueryModel<T> for OffsetRangeQuery<R> { open spec fn matches(&self, offset: int, key: T::Key) -> bool { within(self.0, offset) } }
### fn banyan/src/query.rs OffsetRangeQuery as Query::containing
props: C04
params: self offset index res
spec:
body:
{
//@ let ghost o0 = offset;
let range = offset .. offset + index . keys . count ( ) ;
if ! self . 0 . intersects ( & range )
{
res . clear ( ) ;
}
else
{
vx_block ;
let mut vxit0 = vx_for ( 0 .. ( index . keys . len ( ) ) . vx_min ( res . len ( ) ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ offset == o0 + vxk0, res@.len() == old(res)@.len(),
//@ forall|i: int| 0 <= i < res@.len() ==> res@[i] == (if i < vxk0 { old(res)@[i] && within(self.0, o0 + i) } else { old(res)@[i] }),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let i = vxit0 . take_next ( ) ;
if res [ i ]
{
res [ i ] = self . 0 . vx_contains ( & offset ) ;
}
offset += 1 ;
}
}
}

### fn banyan/src/query.rs OffsetRangeQuery as Query::intersecting
props: C04
params: self offset index res
spec:
body:
{
let range = offset .. offset + index . count ;
if ! self . 0 . intersects ( & range )
{
res . clear ( ) ;
}
}

### impl banyan/src/query.rs EmptyQuery as Query
before:
    impl<T: TreeTypes> QueryModel<T> for EmptyQuery { open spec fn matches(&self, offset: int, key: T::Key) -> bool { false } }
### fn banyan/src/query.rs EmptyQuery as Query::containing
props: C04
params: self offset index res
spec:
body:
{
res . clear ( ) ;
}

### fn banyan/src/query.rs EmptyQuery as Query::intersecting
props: C04
params: self offset index res
spec:
body:
{
res . clear ( ) ;
}

### impl banyan/src/query.rs AllQuery as Query
before:
    impl<T: TreeTypes> QueryModel<T> for AllQuery { open spec fn matches(&self, offset: int, key: T::Key) -> bool { true } }
### fn banyan/src/query.rs AllQuery as Query::containing
props: C04
params: self offset index res
spec:
body:
{
}

### fn banyan/src/query.rs AllQuery as Query::intersecting
props: C04
params: self offset index res
spec:
body:
{
}

### impl banyan/src/query.rs AndQuery as Query
before:
    impl<T: TreeTypes, A: QueryModel<T>, B: QueryModel<T>> QueryModel<T> for AndQuery<A, B> { open spec fn matches(&self, offset: int, key: T::Key) -> bool { self.0.matches(offset, key) && self.1.matches(offset, key) } }
### fn banyan/src/query.rs AndQuery as Query::containing
props: C04
params: self offset index res
spec:
body:
{
self . 0 . containing ( offset , index , res ) ;
self . 1 . containing ( offset , index , res ) ;
}

### fn banyan/src/query.rs AndQuery as Query::intersecting
props: C04
params: self offset index res
spec:
body:
{
self . 0 . intersecting ( offset , index , res ) ;
self . 1 . intersecting ( offset , index , res ) ;
}

### impl banyan/src/query.rs OrQuery as Query
before:
    impl<T: TreeTypes, A: QueryModel<T>, B: QueryModel<T>> QueryModel<T> for OrQuery<A, B> { open spec fn matches(&self, offset: int, key: T::Key) -> bool { self.0.matches(offset, key) || self.1.matches(offset, key) } }
### fn banyan/src/query.rs OrQuery as Query::containing
props: C04
params: self offset index res
spec:
body:
{
let mut tmp = res . vx_to_vec ( ) ;
self . 0 . containing ( offset , index , res ) ;
self . 1 . containing ( offset , index , & mut tmp ) ;
res . or_with ( & tmp ) ;
}

### fn banyan/src/query.rs OrQuery as Query::intersecting
props: C04
params: self offset index res
spec:
body:
{
let mut tmp = res . vx_to_vec ( ) ;
self . 0 . intersecting ( offset , index , res ) ;
self . 1 . intersecting ( offset , index , & mut tmp ) ;
res . or_with ( & tmp ) ;
}
