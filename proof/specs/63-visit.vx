### type banyan/src/forest/index_iter.rs Mode
same: banyan/src/forest/read.rs Mode
### type banyan/src/forest/index_iter.rs TraverseState
same: banyan/src/forest/read.rs TraverseState
### type banyan/src/forest/index_iter.rs IndexIter

### fn banyan/src/forest/index_iter.rs TraverseState::new
props: C03
name: ix_new
params: index
spec:
    ensures r.index == index, r.position == 0, r.filter@.len() == 0
body:
{
Self
{
index ,
position : 0 ,
filter : Vec :: new ( ) ,
}
}

### fn banyan/src/forest/index_iter.rs TraverseState::is_exhausted
props: C03
name: ix_is_exhausted
params: self mode
spec:
    requires self.filter@.len() <= isize::MAX
    ensures r == (if *mode is Forward { self.filter@.len() > 0 && self.position >= self.filter@.len() } else { self.position < 0 })
body:
{
match mode
{
Mode :: Forward => ! self . filter . is_empty ( ) && self . position >= self . filter . len ( ) as isize ,
Mode :: Backward => self . position < 0 ,
}
}

### fn banyan/src/forest/index_iter.rs TraverseState::next_pos
props: C03
name: ix_next_pos
params: self mode
spec:
    requires -1 < old(self).position < isize::MAX
    ensures moved_pos(*old(self), *final(self), *mode is Forward)
body:
{
match mode
{
Mode :: Forward => self . position += 1 ,
Mode :: Backward => self . position -= 1 ,
}
}

### fn banyan/src/forest/index_iter.rs IndexIter::new
props: C03
rewrite: TraverseState :: new => TraverseState :: ix_new
params: forest secrets query index
spec:
    requires wf(index)
    ensures ix_starts(r, secrets, query, index, true)
body:
{
let mode = Mode :: Forward ;
let stack = vx_vec1 ( TraverseState :: new ( index ) ) ;
//@ proof { reveal(frames); lemma_len(index); assert(elems(index).subrange(0, index.count() as int) =~= elems(index)); reveal(inherits); lemma_hist_start(&query, stack@, index, true); }
Self
{
forest ,
secrets ,
offset : 0 ,
query ,
stack ,
mode ,
}
}

### fn banyan/src/forest/index_iter.rs IndexIter::new_rev
props: C03
rewrite: TraverseState :: new => TraverseState :: ix_new
params: forest secrets query index
spec:
    requires wf(index)
    ensures ix_starts(r, secrets, query, index, false)
body:
{
let offset = index . count ( ) ;
let mode = Mode :: Backward ;
let stack = vx_vec1 ( TraverseState :: new ( index ) ) ;
//@ proof { reveal(frames); lemma_len(index); assert(elems(index).subrange(0, index.count() as int) =~= elems(index)); reveal(inherits); lemma_hist_start(&query, stack@, index, false); }
Self
{
forest ,
secrets ,
offset ,
query ,
stack ,
mode ,
}
}

### impl banyan/src/forest/index_iter.rs IndexIter as Iterator
head: impl<T, R, Q> IndexIter<T, R, Q> where T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: Query<T>
### fn banyan/src/forest/index_iter.rs IndexIter as Iterator::next
props: C03
retty: Option<Result<Index<T>>>
attr: #[verifier::loop_isolation(true)]
rewrite: TraverseState :: new => TraverseState :: ix_new
rewrite: . is_exhausted ( => . ix_is_exhausted (
rewrite: . next_pos ( => . ix_next_pos (
params: self
spec:
    requires old(self).stack@.len() > 0 ==> at(old(self).stack@, &old(self).query, old(self).stack@[0].index, old(self).mode is Forward, old(self).offset as int)
    ensures final(self).query == old(self).query, final(self).mode == old(self).mode, final(self).secrets == old(self).secrets, final(self).forest == old(self).forest,
    old(self).stack@.len() == 0 ==> r is None && final(self).stack@.len() == 0,
    r is None ==> final(self).stack@.len() == 0,
    old(self).stack@.len() > 0 && (r is None || r.unwrap() is Ok) ==> pos_ok(final(self).stack@, &final(self).query, old(self).stack@[0].index, final(self).mode is Forward, final(self).offset as int),
    old(self).stack@.len() > 0 && r is None ==> forall|h: Seq<Index<T>>| #[trigger] hist(&old(self).query, old(self).stack@, old(self).stack@[0].index, old(self).mode is Forward, h) ==> visits(&old(self).query, old(self).stack@[0].index, 0, old(self).mode is Forward, h),
    old(self).stack@.len() > 0 && r is Some && r.unwrap() is Ok ==> forall|h: Seq<Index<T>>| #[trigger] hist(&old(self).query, old(self).stack@, old(self).stack@[0].index, old(self).mode is Forward, h) ==> hist(&old(self).query, final(self).stack@, old(self).stack@[0].index, old(self).mode is Forward, h.push(r.unwrap()->Ok_0)),
    r is Some && r.unwrap() is Err ==> final(self).stack@.len() == 0 && !good(Aspect::Avail(old(self).secrets), old(self).stack@[0].index),
body:
{
let vxb0 ;
//@ let ghost root = self.stack@[0].index;
//@ let ghost fwd = self.mode is Forward;
loop
//@ invariant_except_break old(self).stack@.len() == 0 ==> self.stack@.len() == 0, old(self).stack@.len() > 0 ==> forall|h: Seq<Index<T>>| #[trigger] hist(&self.query, old(self).stack@, root, fwd, h) ==> hist(&self.query, self.stack@, root, fwd, h),
//@ invariant self.query == old(self).query, self.mode == old(self).mode, self.secrets == old(self).secrets, self.forest == old(self).forest, fwd == (self.mode is Forward),
//@ root == old(self).stack@[0].index,
//@ old(self).stack@.len() > 0 ==> pos_ok(self.stack@, &self.query, root, fwd, self.offset as int),
//@ ensures old(self).stack@.len() > 0, forall|h: Seq<Index<T>>| hist(&self.query, old(self).stack@, root, fwd, h) ==> #[trigger] hist(&self.query, self.stack@, root, fwd, h.push(vxb0)),
//@ decreases phase(self.stack@), self.stack@.len(), todo(self.stack@, fwd)
{
//@ let ghost s0 = self.stack@;
//@ let ghost off = self.offset as int;
//@ proof { if s0.len() > 0 { lemma_top(s0, &self.query, root); } else { reveal(hist); } }
let head = match self . stack . vx_last_mut ( )
{
Some ( i ) => i ,
_ => return None ,
}
;
if head . is_exhausted ( & self . mode )
{
//@ proof { lemma_exhausted(s0, &self.query, root, fwd, off); }
self . stack . pop ( ) ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, fwd, off); lemma_hist_up(&self.query, s0, self.stack@, root, fwd, off); }
continue ;
}
//@ let ghost st = start_of(s0, s0.len() - 1);
//@ let ghost i0 = s0.last().index;
match self . forest . node_info ( & self . secrets , & head . index )
{
NodeInfo :: Branch ( index , branch ) =>
{
//@ proof { assert(i0 == bx(*index)); lemma_avail_branch(self.secrets, root, i0, st); }
let branch = match branch . load_cached ( )
{
Ok ( branch ) => branch ,
Err ( cause ) =>
{
self . stack . clear ( ) ;
return Some ( Err ( cause ) ) ;
}
}
;
if head . filter . is_empty ( )
{
head . filter = vx_repeat ( true , index . summaries . len ( ) ) ;
head . position = match self . mode
{
Mode :: Forward => 0 ,
Mode :: Backward => branch . children . len ( ) as isize - 1 ,
}
;
let start_offset = match self . mode
{
Mode :: Forward => self . offset ,
Mode :: Backward => self . offset - index . count ,
}
;
self . query . intersecting ( start_offset , & index , & mut head . filter ) ;
vx_assert ( branch . children . len ( ) == head . filter . len ( ) ) ;
{
//@ proof {
//@ assert forall|j: int| #![trigger head.filter@[j]] 0 <= j < head.filter@.len() && !head.filter@[j] implies no_match::<T, Q>(&self.query, st + counts(kids_of(i0).take(j)), elems(kids_of(i0)[j])) by { lemma_sieved(brof(i0), &self.query, st, Seq::new(head.filter@.len(), |i: int| true), head.filter@, j); }
//@ assert(kids_of(i0).take(kids_of(i0).len() as int) =~= kids_of(i0));
//@ assert(kids_of(i0).take(0) =~= Seq::empty());
//@ let s1 = s0.update(s0.len() - 1, *head);
//@ lemma_set(s0, s1, &self.query, root);
//@ lemma_kids(i0);
//@ assert(sieved(*head, &self.query, st));
//@ assert(at(s1, &self.query, root, fwd, off));
//@ lemma_hist_open(&self.query, s0, s1, root, fwd);
//@ }
vxb0 = head . index . clone ( ) ;
break ;
}
;
}
//@ proof { lemma_placed_child(root, i0, st, head.position as int); }
let next_idx = head . position as usize ;
if head . filter [ next_idx ]
{
self . stack . push ( TraverseState :: new ( branch . children [ next_idx ] . clone ( ) ) ) ;
//@ proof { assert(self.stack@ =~= s0.push(self.stack@.last())); lemma_push(s0, self.stack@.last(), self.stack@, &self.query, root, fwd, off); lemma_hist_down(&self.query, s0, self.stack@, self.stack@.last(), root, fwd); }
continue ;
}
else
{
let index = & branch . children [ next_idx ] ;
match self . mode
{
Mode :: Forward =>
{
self . offset += index . count ( ) ;
}
Mode :: Backward =>
{
self . offset -= index . count ( ) ;
}
}
head . next_pos ( & self . mode ) ;
//@ proof { lemma_at_past(&self.query, s0, self.stack@, root, fwd, off, self.offset as int); lemma_hist_past(&self.query, s0, self.stack@, root, fwd, off); }
}
}
NodeInfo :: Leaf ( index , _ ) =>
{
match self . mode
{
Mode :: Forward =>
{
self . offset += index . keys . count ( ) ;
}
Mode :: Backward =>
{
self . offset -= index . keys . count ( ) ;
}
}
let this_index = self . stack . pop ( ) . vx_expect ( "not empty" ) . index ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
{
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, fwd, self.offset as int); lemma_hist_single(&self.query, s0, self.stack@, root, fwd); }
vxb0 = this_index ;
break ;
}
;
}
_ =>
{
let TraverseState
{
index ,
..
}
= self . stack . pop ( ) . vx_expect ( "not empty" ) ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
;
match self . mode
{
Mode :: Forward =>
{
self . offset += index . count ( ) ;
}
Mode :: Backward =>
{
self . offset -= index . count ( ) ;
}
}
;
{
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, fwd, self.offset as int); lemma_hist_single(&self.query, s0, self.stack@, root, fwd); }
vxb0 = index ;
break ;
}
;
}
}
;
}
let res = vxb0 ;
Some ( Ok ( res ) )
}

### fn banyan/src/tree.rs Forest::index_iter0
props: C03
retty: IndexIter<T, R, Q>
params: self secrets query index
spec:
    requires wf(index)
    ensures ix_starts(r, secrets, query, index, true)
body:
{
IndexIter :: new ( self . clone ( ) , secrets , query , index )
}

### fn banyan/src/tree.rs Forest::index_iter_rev0
props: C03
retty: IndexIter<T, R, Q>
params: self secrets query index
spec:
    requires wf(index)
    ensures ix_starts(r, secrets, query, index, false)
body:
{
IndexIter :: new_rev ( self . clone ( ) , secrets , query , index )
}

### fn banyan/src/tree.rs Forest::iter_index
props: C03
retty: EitherIter<IndexIter<T, R, VxI0>, It<Result<Index<T>>>>
params: self tree query
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures match tree.0 { Some((index, secrets, _)) => r is Left && ix_starts(r->Left_0, secrets, query, index, true), None => r is Right && r->Right_0@.len() == 0 }
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . index_iter0 ( secrets . clone ( ) , query , index . clone ( ) ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}

### fn banyan/src/tree.rs Forest::iter_index_reverse
props: C03
retty: EitherIter<IndexIter<T, R, VxI0>, It<Result<Index<T>>>>
params: self tree query
spec:
    requires tree.0 is Some ==> wf(tree.0.unwrap().0)
    ensures match tree.0 { Some((index, secrets, _)) => r is Left && ix_starts(r->Left_0, secrets, query, index, false), None => r is Right && r->Right_0@.len() == 0 }
body:
{
match & tree . 0
{
Some ( ( index , secrets , _ ) ) => self . index_iter_rev0 ( secrets . clone ( ) , query , index . clone ( ) ) . left_iter ( ) ,
None => vx_iter_empty ( ) . right_iter ( ) ,
}
}
