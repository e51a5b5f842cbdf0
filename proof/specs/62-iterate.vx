### type banyan/src/util.rs EitherIter

### fn banyan/src/tree.rs Forest::traverse0
props: C03
retty: TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>
params: self secrets query index mk_extra
spec:
    requires wf(index), forall|i: &NodeInfo<T, R>| call_requires(*mk_extra, (i,))
    ensures starts(r, secrets, query, index, true)
body:
{
TreeIter :: new ( self . clone ( ) , secrets , query , ChunkVisitor :: new ( mk_extra ) , index , )
}

### fn banyan/src/tree.rs Forest::traverse_rev0
props: C03
retty: TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>
params: self secrets query index mk_extra
spec:
    requires wf(index), forall|i: &NodeInfo<T, R>| call_requires(*mk_extra, (i,))
    ensures starts(r, secrets, query, index, false)
body:
{
TreeIter :: new_rev ( self . clone ( ) , secrets , query , ChunkVisitor :: new ( mk_extra ) , index , )
}

### fn banyan/src/tree.rs Forest::iter_filtered_chunked
props: C03
retty: EitherIter<TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>, It<Result<FilteredChunk<(u64, T::Key, V), E>>>>
params: self tree query mk_extra
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0), forall|i: &NodeInfo<T, R>| call_requires(*mk_extra, (i,))
    ensures tree_starts(r, *tree, query, true)
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . traverse0 ( secrets . clone ( ) , query , index . clone ( ) , mk_extra ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}

### fn banyan/src/tree.rs Forest::iter_filtered_chunked_reverse
props: C03
retty: EitherIter<TreeIter<T, R, Q, ChunkVisitor<F, (V, E)>>, It<Result<FilteredChunk<(u64, T::Key, V), E>>>>
params: self tree query mk_extra
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0), forall|i: &NodeInfo<T, R>| call_requires(*mk_extra, (i,))
    ensures tree_starts(r, *tree, query, false)
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . traverse_rev0 ( secrets . clone ( ) , query , index . clone ( ) , mk_extra ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}

### fn banyan/src/forest/read.rs Forest::iter_filtered0
props: C03
retty: impl EventIter<T, Q, V>
closure 1: -> (vxr: Events<T::Key, V>) ensures flat_item($0, vxr)
params: self secrets query index
spec:
    requires wf(index)
    ensures r.lists(secrets, query, index, true)
body:
{
self . traverse0 ( secrets , query , index , vx_static ( | vxp0 |
{
{
}
}
) ) . vx_flat_map ( | res | -> ( vxr : Events < T :: Key , V > ) ensures flat_item ( res , vxr )
{
match res
{
Ok ( chunk ) => chunk . data . vx_into_iter ( ) . vx_map ( vx_ok ) . left_iter ( ) ,
Err ( cause ) => vx_iter_once ( Err ( cause ) ) . right_iter ( ) ,
}
}
)
}

### fn banyan/src/forest/read.rs Forest::iter_filtered_reverse0
props: C03
retty: impl EventIter<T, Q, V>
closure 1: -> (vxr: Events<T::Key, V>) ensures flat_item($0, vxr)
params: self secrets query index
spec:
    requires wf(index)
    ensures r.lists(secrets, query, index, false)
body:
{
self . traverse_rev0 ( secrets , query , index , vx_static ( | vxp0 |
{
{
}
}
) ) . vx_flat_map ( | res | -> ( vxr : Events < T :: Key , V > ) ensures flat_item ( res , vxr )
{
match res
{
Ok ( chunk ) => chunk . data . vx_into_iter ( ) . vx_map ( vx_ok ) . left_iter ( ) ,
Err ( cause ) => vx_iter_once ( Err ( cause ) ) . right_iter ( ) ,
}
}
)
}

### fn banyan/src/tree.rs Forest::iter_filtered
props: C03
retty: EitherIter<impl EventIter<T, VxI0, V>, It<Result<(u64, T::Key, V)>>>
params: self tree query
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures tree_lists(r, *tree, query, true)
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . iter_filtered0 ( secrets . clone ( ) , query , index . clone ( ) ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}

### fn banyan/src/tree.rs Forest::iter_filtered_reverse
props: C03
retty: EitherIter<impl EventIter<T, VxI0, V>, It<Result<(u64, T::Key, V)>>>
params: self tree query
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures tree_lists(r, *tree, query, false)
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . iter_filtered_reverse0 ( secrets . clone ( ) , query , index . clone ( ) ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}

### fn banyan/src/tree.rs Forest::iter_from
props: C03
retty: EitherIter<impl EventIter<T, AllQuery, V>, It<Result<(u64, T::Key, V)>>>
params: self tree
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures tree_lists(r, *tree, AllQuery, true)
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . iter_filtered0 ( secrets . clone ( ) , AllQuery , index . clone ( ) ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}
