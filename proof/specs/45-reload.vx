### fn banyan/src/forest/read.rs Forest::create_index_from_link
props: C16 C15
params: self secrets sealed link
spec:
    requires saved::<T>(link), forall|c: &[Index<T>], l: u32| l > 0 ==> #[trigger] call_requires(sealed, (c, l)),
    ensures
    r is Ok ==> reloaded(link, r->Ok_0.0) && served(link) && under_key::<T>(secrets.index_key, link) && r->Ok_0.1.start == env_start(block(link)) && r->Ok_0.1.end == env_end(block(link)),
    r is Ok ==> sealed_by(sealed, kids::<T>(link).unwrap(), r->Ok_0.0.level(), r->Ok_0.0.sealed()),
    readable_branch::<T>(secrets.index_key, link) ==> r is Ok,
body:
{
let index_key = secrets . index_key ( ) ;
let bytes = self . get_block ( & link ) ? ;
let ( children , byte_range ) = deserialize_compressed :: < T > ( index_key , nonce :: < T > ( ) , & bytes ) ? ;
//@ proof { assert(kids::<T>(link) == Some(children@)); }
let level = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . level ( ) )
}
)
{
x . level ( )
}
) . vx_max ( ) . vx_unwrap ( ) + 1 ;
let count = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . count ( ) )
}
)
{
x . count ( )
}
) . vx_sum ( ) ;
let value_bytes = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . value_bytes ( ) )
}
)
{
x . value_bytes ( )
}
) . vx_sum ( ) ;
let key_bytes = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . key_bytes ( ) )
}
)
{
x . key_bytes ( )
}
) . vx_sum :: < u64 > ( ) + ( bytes . len ( ) as u64 ) ;
let summaries = children . vx_iter ( ) . vx_map ( | x | -> ( vxr : _ ) ensures (
{
vx_same ( vxr , x . summarize ( ) )
}
)
{
x . summarize ( )
}
) . vx_collect ( ) ;
let result = BranchIndex
{
link : Some ( link ) ,
level ,
count ,
summaries ,
sealed : sealed ( & children , level ) ,
value_bytes ,
key_bytes ,
}
. vx_into ( ) ;
//@ proof {
//@ assert(children@[0].level() < max_level());
//@ lemma_sum_counts(children@, Seq::new(children@.len(), |j: int| children@[j].count() as int));
//@ let i: Index<T> = result;
//@ let x: BranchIndex<T> = *i->Branch_0;
//@ assert(x.summaries.seq() =~= summs(children@));
//@ assert(branch_of(x, children@));
//@ lemma_new_branch(x, children@);
//@ assert(i == bx(x) && i.sealed() == x.sealed && i.level() == level);
//@ assert(sealed_by(sealed, children@, level, x.sealed));
//@ assert(sealed_by(sealed, kids::<T>(link).unwrap(), i.level(), i.sealed()));
//@ }
Ok ( ( result , byte_range ) )
}

### fn banyan/src/tree.rs Forest::load_tree
props: C16 C15
closure 0: -> (vxr: bool) ensures vxr
params: self secrets link
spec:
    requires saved::<T>(link),
    ensures
    r is Ok ==> r->Ok_0.0 is Some && r->Ok_0.0.unwrap().1 == secrets && r->Ok_0.0.unwrap().2 == env_end(block(link)) && reloaded(link, r->Ok_0.0.unwrap().0) && served(link) && under_key::<T>(secrets.index_key, link),
    r is Ok ==> r->Ok_0.0.unwrap().0.sealed(),
    readable_branch::<T>(secrets.index_key, link) ==> r is Ok,
body:
{
let ( index , byte_range ) = self . create_index_from_link ( & secrets , | vxp0 , vxp1 | -> ( vxr : bool ) ensures vxr
{
true
}
, link ) ? ;
Ok ( Tree :: new ( index , secrets , byte_range . end ) )
}

### fn banyan/src/tree.rs Forest::load_stream_builder
props: C16 C15 C08
closure 0: -> (vxr: bool) requires $1 > 0 ensures vxr == seal(config, $0@, $1)
params: self secrets config link
spec:
    requires saved::<T>(link),
    ensures
    r is Ok ==> r->Ok_0.root is Some && r->Ok_0.state.secrets == secrets && r->Ok_0.state.config == config && reloaded(link, r->Ok_0.root.unwrap()) && served(link) && under_key::<T>(secrets.index_key, link),
    r is Ok ==> r->Ok_0.root.unwrap().sealed() == seal(config, kids::<T>(link).unwrap(), r->Ok_0.root.unwrap().level()),
    // the next position after the block of the root
    r is Ok ==> r->Ok_0.state.offset.value == env_end(block(link)),
    // going on from the root of a tree that was built with this configuration
    r is Ok ==> forall|b: StreamBuilder<T, V>| #[trigger] saves(b, link, config) ==> continues(b, r->Ok_0),
    r is Ok && cfg_ok(config) ==> forall|x: Index<T>| tree_ok(x) && x is Branch && x.link() == Some(link) && good(Aspect::Limits(config), x) && good(Aspect::Before(env_end(block(link))), x) ==> #[trigger] resumes(x, r->Ok_0),
    readable_branch::<T>(secrets.index_key, link) ==> r is Ok,
body:
{
let ( index , byte_range ) = self . create_index_from_link ( & secrets , | items , level | -> ( vxr : bool ) requires level > 0 ensures vxr == seal ( config , items @, level )
{
config . branch_sealed ( items , level )
}
, link , ) ? ;
let state = StreamBuilderState :: new ( byte_range . end , secrets , config ) ;
Ok ( StreamBuilder :: new_from_index ( Some ( index ) , state ) )
}
