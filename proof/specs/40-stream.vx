### type banyan/src/stream_builder.rs StreamBuilder
### type banyan/src/stream_builder.rs StreamTransaction
### type banyan/src/tree.rs Tree
### impl banyan/src/stream_builder.rs StreamTransaction as Deref
head: impl<'a, T: TreeTypes, V> StreamTransaction<'a, T, V>
### impl banyan/src/stream_builder.rs StreamTransaction as DerefMut
head: impl<'a, T: TreeTypes, V> StreamTransaction<'a, T, V>
### impl banyan/src/stream_builder.rs StreamTransaction as Drop
head: impl<'a, T: TreeTypes, V> StreamTransaction<'a, T, V>
### impl banyan/src/tree.rs Tree as Default
head: impl<T: TreeTypes, V> Tree<T, V>

### fn banyan/src/stream_builder.rs StreamBuilder::new
props: C01 C13
params: config secrets
spec:
    ensures r.root is None, r.state.offset.value == 0, r.state.config == config, r.state.secrets == secrets
body:
{
let state = StreamBuilderState :: new ( 0 , secrets , config ) ;
Self :: new_from_index ( None , state )
}

### fn banyan/src/stream_builder.rs StreamBuilder::snapshot
props: C02 C13
closure 0: -> (vxr: Tree<T, V>) ensures vxr.0 == Some((*$0, self.state.secrets, self.state.offset.value))
params: self
spec:
    ensures self.root is Some ==> r.0 == Some((self.root.unwrap(), self.state.secrets, self.state.offset.value)), self.root is None ==> r.0 is None
body:
{
self . root . vx_as_ref ( ) . vx_map ( | root | -> ( vxr : Tree < T , V > ) ensures vxr . 0 == Some ( ( * root , self . state . secrets , self . state . offset . value ) )
{
Tree :: new ( root . clone ( ) , self . state . secrets ( ) . clone ( ) , self . state . offset . current ( ) , )
}
) . vx_unwrap_or_default ( )
}

### fn banyan/src/stream_builder.rs StreamBuilder::link
props: C16
closure 0: -> (vxr: Option<T::Link>) ensures vxr == *(*$0).link()
params: self
spec:
    ensures r == (match self.root { Some(i) => *i.link(), None => None })
body:
{
self . root . vx_as_ref ( ) . vx_and_then ( | r | -> ( vxr : Option < T :: Link > ) ensures vxr == * ( * r ) . link ( )
{
* r . link ( )
}
)
}

### fn banyan/src/stream_builder.rs StreamBuilder::as_index_ref
props: C01
params: self
spec:
    ensures (r is Some) == (self.root is Some), r is Some ==> *r.unwrap() == self.root.unwrap()
body:
{
self . root . vx_as_ref ( )
}

### fn banyan/src/stream_builder.rs StreamBuilder::level
props: C05
closure 0: -> (vxr: i32) requires (*$0).level() <= i32::MAX ensures vxr == (*$0).level()
params: self
spec:
    requires self.root is Some ==> self.root.unwrap().level() <= i32::MAX
    ensures r == (match self.root { Some(i) => i.level() as int, None => -1 })
body:
{
self . root . vx_as_ref ( ) . vx_map ( | x | -> ( vxr : i32 ) requires ( * x ) . level ( ) <= i32 :: MAX ensures vxr == ( * x ) . level ( )
{
x . level ( ) as i32
}
) . vx_unwrap_or ( - 1 )
}

### fn banyan/src/stream_builder.rs StreamBuilder::count
props: C01 C02
closure 0: -> (vxr: u64) ensures vxr == (*$0).count()
params: self
spec:
    ensures r == (match self.root { Some(i) => i.count() as int, None => 0 })
body:
{
self . root . vx_as_ref ( ) . vx_map ( | x | -> ( vxr : u64 ) ensures vxr == ( * x ) . count ( )
{
x . count ( )
}
) . vx_unwrap_or_default ( )
}

### fn banyan/src/stream_builder.rs StreamBuilder::is_empty
props: C01
params: self
spec:
    ensures r == (match self.root { Some(i) => i.count() == 0, None => true })
body:
{
self . count ( ) == 0
}

### fn banyan/src/stream_builder.rs StreamBuilder::index
props: C01
params: self
spec:
    ensures (r is Some) == (self.root is Some), r is Some ==> *r.unwrap() == self.root.unwrap()
body:
{
self . root . vx_as_ref ( )
}

### fn banyan/src/stream_builder.rs StreamBuilder::transaction
props: C13
params: self
spec:
    ensures *r.builder == *old(self), r.restore == Some(old(self).root), *final(self) == *final(r.builder)
body:
{
StreamTransaction :: new ( self , self . index ( ) . vx_cloned ( ) )
}

### fn banyan/src/stream_builder.rs StreamBuilder::state
props: C01
params: self
spec:
    ensures *r == self.state
body:
{
& self . state
}

### fn banyan/src/stream_builder.rs StreamBuilder::state_mut
props: C01 C13
params: self
spec:
    ensures *r == old(self).state, final(self).state == *final(r), final(self).root == old(self).root, final(self)._p == old(self)._p
body:
{
& mut self . state
}

### fn banyan/src/stream_builder.rs StreamBuilder::new_from_index
props: C16
params: root state
spec:
    ensures r.root == root, r.state == state
body:
{
Self
{
root ,
state ,
_p : PhantomData ,
}
}

### fn banyan/src/stream_builder.rs StreamBuilder::set_index
props: C01 C13
params: self index
spec:
    ensures final(self).root == index, final(self).state == old(self).state, final(self)._p == old(self)._p
body:
{
self . root = index
}

### fn banyan/src/stream_builder.rs StreamTransaction::new
props: C13
params: builder index
spec:
    ensures *r.builder == *old(builder), *final(builder) == *final(r.builder), r.restore == Some(index)
body:
{
Self
{
builder ,
restore : Some ( index ) ,
}
}

### fn banyan/src/stream_builder.rs StreamTransaction::commit
props: C13
params: self
spec:
    ensures *final(self.builder) == *old(self.builder)
body:
{
let mut vxself = self ;
vxself . restore . vx_take ( ) ;
vxself . vx_drop ( ) ;
}

### fn banyan/src/stream_builder.rs StreamTransaction as Deref::deref
props: C13
name: vx_deref
retty: &StreamBuilder<T, V>
params: self
spec:
    ensures *r == *old(self.builder)
body:
{
self . builder
}

### fn banyan/src/stream_builder.rs StreamTransaction as DerefMut::deref_mut
props: C13
name: vx_deref_mut
retty: &mut StreamBuilder<T, V>
params: self
spec:
    ensures *r == *old(self).builder, *final(self).builder == *final(r), final(self).restore == old(self).restore, *final(final(self).builder) == *final(old(self).builder)
body:
{
self . builder
}

### fn banyan/src/stream_builder.rs StreamTransaction as Drop::drop
props: C13
name: vx_drop
params: self
spec:
    ensures final(self).restore is None, *final(final(self).builder) == *final(old(self).builder),
    old(self).restore is None ==> *final(self).builder == *old(self).builder,
    old(self).restore is Some ==> (*final(self).builder).root == old(self).restore.unwrap() && (*final(self).builder).state == (*old(self).builder).state
body:
{
if let Some ( index ) = self . restore . vx_take ( )
{
self . builder . set_index ( index ) ;
}
}

### fn banyan/src/tree.rs Tree::new
props: C02
params: root secrets offset
spec:
    ensures r.0 == Some((root, secrets, offset))
body:
{
Self ( Some ( ( root , secrets , offset ) ) , PhantomData )
}

### fn banyan/src/tree.rs Tree::into_inner
props: C02
params: self
spec:
    ensures r == self.0
body:
{
self . 0
}

### fn banyan/src/tree.rs Tree::as_index_ref
props: C02
closure 0: -> (vxr: &Index<T>) ensures *vxr == (*$0).0
params: self
spec:
    ensures (r is Some) == (self.0 is Some), r is Some ==> *r.unwrap() == self.0.unwrap().0
body:
{
self . 0 . vx_as_ref ( ) . vx_map ( | vxp0 | -> ( vxr : & Index < T > ) ensures * vxr == ( * vxp0 ) . 0
{
let ( r , _ , _ ) = vxp0 ;
r
}
)
}

### fn banyan/src/tree.rs Tree::link
props: C16
closure 0: -> (vxr: Option<T::Link>) ensures vxr == *(*$0).0.link()
params: self
spec:
    ensures r == (match self.0 { Some(t) => *t.0.link(), None => None })
body:
{
self . 0 . vx_as_ref ( ) . vx_and_then ( | vxp0 | -> ( vxr : Option < T :: Link > ) ensures vxr == * ( * vxp0 ) . 0 . link ( )
{
let ( r , _ , _ ) = vxp0 ;
* r . link ( )
}
)
}

### fn banyan/src/tree.rs Tree::level
props: C02
closure 0: -> (vxr: i32) requires (*$0).0.level() <= i32::MAX ensures vxr == (*$0).0.level()
params: self
spec:
    requires self.0 is Some ==> self.0.unwrap().0.level() <= i32::MAX
    ensures r == (match self.0 { Some(t) => t.0.level() as int, None => -1 })
body:
{
self . 0 . vx_as_ref ( ) . vx_map ( | vxp0 | -> ( vxr : i32 ) requires ( * vxp0 ) . 0 . level ( ) <= i32 :: MAX ensures vxr == ( * vxp0 ) . 0 . level ( )
{
let ( r , _ , _ ) = vxp0 ;
r . level ( ) as i32
}
) . vx_unwrap_or ( - 1 )
}

### fn banyan/src/tree.rs Tree::is_empty
props: C02
params: self
spec:
    ensures r == (self.0 is None)
body:
{
self . 0 . is_none ( )
}

### fn banyan/src/tree.rs Tree::count
props: C02
closure 0: -> (vxr: u64) ensures vxr == (*$0).0.count()
params: self
spec:
    ensures r == (match self.0 { Some(t) => t.0.count() as int, None => 0 })
body:
{
self . 0 . vx_as_ref ( ) . vx_map ( | vxp0 | -> ( vxr : u64 ) ensures vxr == ( * vxp0 ) . 0 . count ( )
{
let ( r , _ , _ ) = vxp0 ;
r . count ( )
}
) . vx_unwrap_or_default ( )
}

### fn banyan/src/tree.rs Tree::index
props: C02
closure 0: -> (vxr: &Index<T>) ensures *vxr == (*$0).0
params: self
spec:
    ensures (r is Some) == (self.0 is Some), r is Some ==> *r.unwrap() == self.0.unwrap().0
body:
{
self . 0 . vx_as_ref ( ) . vx_map ( | vxp0 | -> ( vxr : & Index < T > ) ensures * vxr == ( * vxp0 ) . 0
{
let ( r , _ , _ ) = vxp0 ;
r
}
)
}

### fn banyan/src/tree.rs Tree::secrets
props: C02
closure 0: -> (vxr: &Secrets) ensures *vxr == (*$0).1
params: self
spec:
    ensures (r is Some) == (self.0 is Some), r is Some ==> *r.unwrap() == self.0.unwrap().1
body:
{
self . 0 . vx_as_ref ( ) . vx_map ( | vxp0 | -> ( vxr : & Secrets ) ensures * vxr == ( * vxp0 ) . 1
{
let ( _ , secrets , _ ) = vxp0 ;
secrets
}
)
}

### fn banyan/src/tree.rs Tree as Default::default
props: C02
name: default0
params: 
spec:
    ensures r.0 is None
body:
{
Self ( None , PhantomData )
}

### fn banyan/src/tree.rs Forest::is_packed
props: C05 C15
params: self tree
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures r is Ok ==> r->Ok_0 == (tree.0 is Some ==> packed0(tree.0.unwrap().0))
body:
{
if let Some ( ( root , secrets , _ ) ) = & tree . 0
{
self . is_packed0 ( secrets , root )
}
else
{
Ok ( true )
}
}
