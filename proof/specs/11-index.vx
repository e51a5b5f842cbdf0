### type banyan/src/index.rs LeafIndex
### type banyan/src/index.rs BranchIndex
### type banyan/src/index.rs Index
### type banyan/src/index.rs Branch
derives: Clone

### impl banyan/src/index.rs CompactSeq as TraitDefault
head: pub trait CompactSeq: Sized
items:
    type Item;
    spec fn seq(&self) -> Seq<Self::Item>;
    fn len(&self) -> (r: usize) ensures r == self.seq().len();
    fn vx_get(&self, index: usize) -> (r: Option<Self::Item>) ensures r == (if index < self.seq().len() { Some(self.seq()[index as int]) } else { None });

### fn banyan/src/index.rs CompactSeq as TraitDefault::first
props: C02
params: self
spec:
    requires self.seq().len() > 0
    ensures r == self.seq()[0]
body:
{
self . vx_get ( 0 ) . vx_unwrap ( )
}

### fn banyan/src/index.rs CompactSeq as TraitDefault::last
props: C02
params: self
spec:
    requires self.seq().len() > 0
    ensures r == self.seq().last()
body:
{
self . vx_get ( self . len ( ) - 1 ) . vx_unwrap ( )
}

### fn banyan/src/index.rs CompactSeq as TraitDefault::to_vec
props: C01 C02
params: self
closure 0: -> (vxr: Self::Item) requires 0 <= $0 < self.seq().len() ensures vxr == self.seq()[$0 as int]
spec:
    ensures r@ == self.seq()
body:
{
( 0 .. self . len ( ) ) . vx_map ( | i | -> ( vxr : Self :: Item ) requires 0 <= i < self . seq ( ) . len ( ) ensures vxr == self . seq ( ) [ i as int ]
{
self . vx_get ( i ) . vx_unwrap ( )
}
) . vx_collect ( )
}

### fn banyan/src/index.rs CompactSeq as TraitDefault::count
props: C05
params: self
spec:
    ensures r == self.seq().len()
body:
{
self . len ( ) as u64
}

### fn banyan/src/index.rs CompactSeq as TraitDefault::is_empty
props: C05
params: self
spec:
    ensures r == (self.seq().len() == 0)
body:
{
self . len ( ) == 0
}

### fn banyan/src/index.rs LeafIndex as Clone::clone
props: C05
params: self
rewrite: . keys . clone ( )=>. keys . vx_clone ( )
spec:
    ensures r == *self
body:
{
Self
{
sealed : self . sealed ,
value_bytes : self . value_bytes ,
link : self . link ,
keys : self . keys . clone ( ) ,
}
}

### fn banyan/src/index.rs BranchIndex as Clone::clone
props: C05
params: self
rewrite: . summaries . clone ( )=>. summaries . vx_clone ( )
spec:
    ensures r == *self
body:
{
Self
{
count : self . count ,
level : self . level ,
sealed : self . sealed ,
value_bytes : self . value_bytes ,
key_bytes : self . key_bytes ,
link : self . link ,
summaries : self . summaries . clone ( ) ,
}
}

### fn banyan/src/index.rs Index as Clone::clone
props: C05
params: self
spec:
    ensures r == *self
body:
{
match self
{
Index :: Leaf ( x ) => Index :: Leaf ( x . clone ( ) ) ,
Index :: Branch ( x ) => Index :: Branch ( x . clone ( ) ) ,
}
}

### impl banyan/src/index.rs Index as From<LeafIndex>
items:
    open spec fn from_ens(a: LeafIndex<T>, r: Self) -> bool { r == Index::Leaf(Arc::new(a)) }
### fn banyan/src/index.rs Index as From<LeafIndex>::from
props: C05
params: value
spec:
body:
{
Index :: Leaf ( Arc :: new ( value ) )
}

### impl banyan/src/index.rs Index as From<BranchIndex>
items:
    open spec fn from_ens(a: BranchIndex<T>, r: Self) -> bool { r == Index::Branch(Arc::new(a)) }
### fn banyan/src/index.rs Index as From<BranchIndex>::from
props: C05
params: value
spec:
body:
{
Index :: Branch ( Arc :: new ( value ) )
}

### impl banyan/src/index.rs Index
items:
    pub open spec fn i_summ(&self) -> T::Summary { match self { Index::Leaf(x) => x.keys.summ(), Index::Branch(x) => x.summaries.summ() } }
    pub open spec fn i_link(&self) -> &Option<T::Link> { match self { Index::Leaf(x) => &x.link, Index::Branch(x) => &x.link } }
    pub open spec fn i_count(&self) -> u64 { match self { Index::Leaf(x) => x.keys.seq().len() as u64, Index::Branch(x) => x.count } }
    pub open spec fn i_sealed(&self) -> bool { match self { Index::Leaf(x) => x.sealed, Index::Branch(x) => x.sealed } }
    pub open spec fn i_level(&self) -> u32 { match self { Index::Leaf(x) => 0, Index::Branch(x) => x.level } }
    pub open spec fn i_value_bytes(&self) -> u64 { match self { Index::Leaf(x) => x.value_bytes, Index::Branch(x) => x.value_bytes } }
    pub open spec fn i_key_bytes(&self) -> u64 { match self { Index::Leaf(x) => 0, Index::Branch(x) => x.key_bytes } }

### fn banyan/src/index.rs Index::summarize
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_summ)]
spec:
    ensures r == self.i_summ()
body:
{
match self
{
Index :: Leaf ( x ) => x . keys . summarize ( ) ,
Index :: Branch ( x ) => x . summaries . summarize ( ) ,
}
}

### fn banyan/src/index.rs Index::link
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_link)]
spec:
    ensures *r == *self.i_link()
body:
{
match self
{
Index :: Leaf ( x ) => & x . link ,
Index :: Branch ( x ) => & x . link ,
}
}

### fn banyan/src/index.rs Index::count
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_count)]
spec:
    ensures r == self.i_count()
body:
{
match self
{
Index :: Leaf ( x ) => x . keys . count ( ) ,
Index :: Branch ( x ) => x . count ,
}
}

### fn banyan/src/index.rs Index::sealed
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_sealed)]
spec:
    ensures r == self.i_sealed()
body:
{
match self
{
Index :: Leaf ( x ) => x . sealed ,
Index :: Branch ( x ) => x . sealed ,
}
}

### fn banyan/src/index.rs Index::level
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_level)]
spec:
    ensures r == self.i_level()
body:
{
match self
{
Index :: Leaf ( _ ) => 0 ,
Index :: Branch ( x ) => x . level ,
}
}

### fn banyan/src/index.rs Index::value_bytes
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_value_bytes)]
spec:
    ensures r == self.i_value_bytes()
body:
{
match self
{
Index :: Leaf ( x ) => x . value_bytes ,
Index :: Branch ( x ) => x . value_bytes ,
}
}

### fn banyan/src/index.rs Index::key_bytes
props: C05
params: self
attr: #[verifier::when_used_as_spec(i_key_bytes)]
spec:
    ensures r == self.i_key_bytes()
body:
{
match self
{
Index :: Leaf ( _ ) => 0 ,
Index :: Branch ( x ) => x . key_bytes ,
}
}

### type banyan/src/forest/mod.rs Config
### type banyan/src/forest/mod.rs BranchResult
### type banyan/src/forest/mod.rs CreateMode
attr: #[derive(Structural, PartialEq, Eq, Copy, Clone)]

### fn banyan/src/forest/mod.rs Config::branch_sealed
props: C05
params: self items level
spec:
    requires level > 0
    ensures r == seal(*self, items@, level)
body:
{
vx_assert ( level > 0 ) ;
if items . vx_iter ( ) . vx_any ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , ! x . sealed ( ) )
}
)
{
! x . sealed ( )
}
)
{
return false ;
}
if items . vx_iter ( ) . vx_any ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) != level - 1 )
}
)
{
x . level ( ) != level - 1
}
)
{
return false ;
}
if level == 1
{
items . len ( ) >= self . max_key_branches
}
else
{
items . len ( ) >= self . max_summary_branches
}
}

### fn banyan/src/forest/write.rs find_valid_branch
props: C05 C14
params: config children
tail: 1
spec:
    requires children@.len() > 1, desc(children@), config.max_summary_branches > 1, config.max_key_branches > 0
    ensures ({
        let first = children@[0].level();
        let m = if first == 0 { config.max_key_branches } else { config.max_summary_branches };
        match r {
            BranchResult::Sealed(n) => n == m && n <= children@.len() && forall|i: int| 0 <= i < n ==> (#[trigger] children@[i]).level() == first,
            BranchResult::Unsealed(n) => n <= m && n == children@.len() && forall|i: int| 0 <= i < n - 1 ==> (#[trigger] children@[i]).level() == first,
            BranchResult::Skip(n) => 0 < n < children@.len() - 1 && n < m && children@[n as int].level() < first && children@[n - 1].level() == first,
        }
    })
body:
{
//@ proof { reveal(desc); }
vx_assert ( children . len ( ) > 1 ) ;
vx_assert ( is_sorted ( children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_rev ( ) ) ) ;
vx_assert ( ! children . is_empty ( ) ) ;
let first_level = children [ 0 ] . level ( ) ;
let max_count = if first_level == 0
{
config . max_key_branches
}
else
{
config . max_summary_branches
}
;
let pos = children . vx_iter ( ) . vx_position ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) < first_level )
}
)
{
x . level ( ) < first_level
}
) . vx_unwrap_or ( children . len ( ) ) ;
let vxt : BranchResult = if pos >= max_count
{
BranchResult :: Sealed ( max_count )
}
else if pos == children . len ( ) || pos == children . len ( ) - 1
{
BranchResult :: Unsealed ( max_count . vx_min ( children . len ( ) ) )
}
else
{
BranchResult :: Skip ( pos )
}
;
vxt
}

### fn banyan/src/index.rs CompactSeq as TraitDefault::select
props: C03
closure 0: -> (vxr: Option<Self::Item>) requires 0 <= $0 < self.seq().len() <= bits@.len() ensures vxr == (if bits@[$0 as int] { Some(self.seq()[$0 as int]) } else { None })
params: self bits
spec:
    requires bits@.len() >= self.seq().len()
    ensures r@ == picks(bits@, self.seq(), self.seq().len() as int)
body:
{
//@ proof { assert forall|t: Seq<Option<Self::Item>>| t.len() == self.seq().len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == (if bits@[i] { Some(self.seq()[i]) } else { None })) implies #[trigger] flats(t, t.len() as int) == picks(bits@, self.seq(), self.seq().len() as int) by { lemma_flats(bits@, self.seq(), t, t.len() as int); } }
( 0 .. self . len ( ) ) . vx_filter_map ( | i | -> ( vxr : Option < Self :: Item > ) requires 0 <= i < self . seq ( ) . len ( ) <= bits @. len ( ) ensures vxr == ( if bits @ [ i as int ]
{
Some ( self . seq ( ) [ i as int ] )
}
else
{
None
}
)
{
if bits [ i ]
{
self . vx_get ( i )
}
else
{
None
}
}
) . vx_collect ( )
}
