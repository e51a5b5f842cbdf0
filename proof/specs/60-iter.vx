### type banyan/src/forest/read.rs Mode
### type banyan/src/forest/read.rs TraverseState
### type banyan/src/forest/read.rs TreeIter

### fn banyan/src/forest/read.rs TraverseState::new
props: C03
params: index
spec:
    ensures r.index == index, r.position == 0, r.filter@.len() == 0
body:
{
Self
{
index ,
position : 0 ,
filter : Vec :: new ( ) ,
}
}

### fn banyan/src/forest/read.rs TraverseState::is_exhausted
props: C03
params: self mode
spec:
    requires self.filter@.len() <= isize::MAX
    ensures r == (if *mode is Forward { self.filter@.len() > 0 && self.position >= self.filter@.len() } else { self.position < 0 })
body:
{
match mode
{
Mode :: Forward => ! self . filter . is_empty ( ) && self . position >= self . filter . len ( ) as isize ,
Mode :: Backward => self . position < 0 ,
}
}

### fn banyan/src/forest/read.rs TraverseState::next_pos
props: C03
params: self mode
spec:
    requires -1 < old(self).position < isize::MAX
    ensures moved_pos(*old(self), *final(self), *mode is Forward)
body:
{
match mode
{
Mode :: Forward => self . position += 1 ,
Mode :: Backward => self . position -= 1 ,
}
}

### fn banyan/src/forest/read.rs TreeIter::new
props: C03
params: forest secrets query visitor index
spec:
    requires wf(index)
    ensures r.mode is Forward, r.forest == forest, r.secrets == secrets, r.query == query, r.visitor == visitor, at(r.stack@, &query, index, true, r.offset as int), r.offset == 0
body:
{
let mode = Mode :: Forward ;
let stack = vx_vec1 ( TraverseState :: new ( index ) ) ;
//@ proof { reveal(frames); lemma_len(index); assert(elems(index).subrange(0, index.count() as int) =~= elems(index)); reveal(inherits); }
Self
{
forest ,
secrets ,
offset : 0 ,
stack ,
mode ,
query ,
visitor ,
}
}

### fn banyan/src/forest/read.rs TreeIter::new_rev
props: C03
params: forest secrets query visitor index
spec:
    requires wf(index)
    ensures r.mode is Backward, r.forest == forest, r.secrets == secrets, r.query == query, r.visitor == visitor, at(r.stack@, &query, index, false, r.offset as int), r.offset == index.count()
body:
{
let offset = index . count ( ) ;
let mode = Mode :: Backward ;
let stack = vx_vec1 ( TraverseState :: new ( index ) ) ;
//@ proof { reveal(frames); lemma_len(index); assert(elems(index).subrange(0, index.count() as int) =~= elems(index)); reveal(inherits); }
Self
{
forest ,
secrets ,
offset ,
stack ,
mode ,
query ,
visitor ,
}
}

### fn banyan/src/forest/read.rs TreeIter::skip
props: C03
params: self range
spec:
    requires old(self).visitor.vok(), frames(old(self).stack@, &old(self).query, old(self).stack@[0].index),
    old(self).mode is Forward ==> old(self).offset == start_of(old(self).stack@, old(self).stack@.len() - 1),
    old(self).mode is Backward ==> old(self).offset == start_of(old(self).stack@, old(self).stack@.len() - 1) + old(self).stack@.last().index.count(),
    ensures final(self).query == old(self).query, final(self).visitor == old(self).visitor, final(self).mode == old(self).mode, final(self).secrets == old(self).secrets, final(self).forest == old(self).forest,
    popped(old(self).stack@, final(self).stack@, old(self).mode is Forward),
    pos_ok(final(self).stack@, &final(self).query, old(self).stack@[0].index, final(self).mode is Forward, final(self).offset as int),
    final(self).offset == old(self).offset + (if old(self).mode is Forward { old(self).stack@.last().index.count() as int } else { -old(self).stack@.last().index.count() as int }),
    final(self).visitor.skips(range.start as int, range.end as int, r)
body:
{
//@ let ghost s0 = self.stack@; let ghost root = self.stack@[0].index;
//@ proof { lemma_top(s0, &self.query, root); reveal(frames); }
let TraverseState
{
index ,
..
}
= self . stack . pop ( ) . vx_expect ( "not empty" ) ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
;
match self . mode
{
Mode :: Forward => self . offset += index . count ( ) ,
Mode :: Backward => self . offset -= index . count ( ) ,
}
;
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, self.mode is Forward, self.offset as int); }
let info = self . forest . node_info ( & self . secrets , & index ) ;
self . visitor . vx_skip ( range , & info )
}

### fn banyan/src/forest/read.rs TreeIter::next_fallible
props: C03
params: self
attr: #[verifier::loop_isolation(true)]
spec:
    requires old(self).visitor.vok(), old(self).stack@.len() > 0 ==> at(old(self).stack@, &old(self).query, old(self).stack@[0].index, old(self).mode is Forward, old(self).offset as int)
    ensures final(self).query == old(self).query, final(self).visitor == old(self).visitor, final(self).mode == old(self).mode, final(self).secrets == old(self).secrets, final(self).forest == old(self).forest,
    old(self).stack@.len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).stack@.len() == 0 && final(self).offset == old(self).offset,
    old(self).stack@.len() > 0 && r is Ok ==> pos_ok(final(self).stack@, &final(self).query, old(self).stack@[0].index, final(self).mode is Forward, final(self).offset as int),
    old(self).stack@.len() > 0 && r is Ok && r->Ok_0 is None ==> final(self).stack@.len() == 0 && final(self).offset == old(self).offset,
    old(self).stack@.len() > 0 && r is Ok && r->Ok_0 is Some ==> ({ let (a, b) = if old(self).mode is Forward { (old(self).offset, final(self).offset) } else { (final(self).offset, old(self).offset) };
        chunk_of(&old(self).visitor, &old(self).query, old(self).stack@[0].index, a as int, b as int, r->Ok_0.unwrap()) }),
    old(self).stack@.len() > 0 && r is Err ==> !sound::<T, R, V>(&old(self).visitor, old(self).secrets, old(self).stack@[0].index),
body:
{
let vxb0 ;
//@ let ghost root = self.stack@[0].index;
//@ let ghost fwd = self.mode is Forward;
//@ let ghost off = self.offset as int;
loop
//@ invariant_except_break self.offset == off, old(self).stack@.len() == 0 ==> self.stack@.len() == 0,
//@ invariant self.query == old(self).query, self.visitor == old(self).visitor, self.mode == old(self).mode, self.secrets == old(self).secrets, self.forest == old(self).forest, fwd == (self.mode is Forward),
//@ self.visitor.vok(), root == old(self).stack@[0].index, off == old(self).offset,
//@ old(self).stack@.len() > 0 ==> pos_ok(self.stack@, &self.query, root, fwd, self.offset as int),
//@ ensures old(self).stack@.len() > 0, chunk_of(&self.visitor, &self.query, root, if fwd { off } else { self.offset as int }, if fwd { self.offset as int } else { off }, vxb0),
//@ decreases phase(self.stack@), rank(self.stack@)
{
//@ let ghost s0 = self.stack@;
//@ proof { if s0.len() > 0 { lemma_top(s0, &self.query, root); } }
let head = match self . stack . vx_last_mut ( )
{
Some ( i ) => i ,
_ => return Ok ( None ) ,
}
;
if head . is_exhausted ( & self . mode )
{
//@ proof { lemma_exhausted(s0, &self.query, root, fwd, off); }
self . stack . pop ( ) ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, fwd, off); }
continue ;
}
//@ let ghost st = start_of(s0, s0.len() - 1);
//@ let ghost i0 = s0.last().index;
let range = match self . mode
{
Mode :: Forward => self . offset .. self . offset . vx_saturating_add ( head . index . count ( ) ) ,
Mode :: Backward => self . offset . vx_saturating_sub ( head . index . count ( ) ) .. self . offset ,
}
;
let info = self . forest . node_info ( & self . secrets , & head . index ) ;
match info
{
NodeInfo :: Branch ( index , branch ) =>
{
if head . filter . is_empty ( )
{
head . filter = vx_repeat ( true , index . summaries . len ( ) ) ;
head . position = match self . mode
{
Mode :: Forward => 0 ,
Mode :: Backward => index . summaries . len ( ) as isize - 1 ,
}
;
self . query . intersecting ( range . start , & index , & mut head . filter ) ;
if ! head . filter . vx_any ( )
{
{
//@ proof {
//@ lemma_set(s0, self.stack@, &self.query, root);
//@ assert(i0 == bx(*index));
//@ lemma_ruled_out(brof(i0), &self.query, st, Seq::new(self.stack@.last().filter@.len(), |i: int| true), self.stack@.last().filter@);
//@ }
vxb0 = self . vx_skip ( range ) ;
break ;
}
;
}
}
//@ proof {
//@ assert(i0 == bx(*index));
//@ if s0.last().filter@.len() == 0 {
//@ assert forall|j: int| #![trigger head.filter@[j]] 0 <= j < head.filter@.len() && !head.filter@[j] implies no_match::<T, Q>(&self.query, st + counts(kids_of(i0).take(j)), elems(kids_of(i0)[j])) by { lemma_sieved(brof(i0), &self.query, st, Seq::new(head.filter@.len(), |i: int| true), head.filter@, j); }
//@ assert(kids_of(i0).take(kids_of(i0).len() as int) =~= kids_of(i0));
//@ assert(kids_of(i0).take(0) =~= Seq::empty());
//@ }
//@ }
//@ let ghost s1 = s0.update(s0.len() - 1, *head);
//@ proof {
//@ lemma_set(s0, s1, &self.query, root);
//@ assert(s0.last().filter@.len() > 0 ==> *head == s0.last());
//@ assert(wf(i0) && kids_of(i0).len() == head.filter@.len());
//@ assert(sieved(*head, &self.query, st));
//@ assert(top_at(*head, &self.query, st, fwd, off));
//@ assert(at(s1, &self.query, root, fwd, off));
//@ lemma_placed_child(root, i0, st, head.position as int);
//@ lemma_sound_branch::<T, R, V>(&self.visitor, self.secrets, root, i0, st);
//@ }
let branch = branch . load_cached ( ) ? ;
let next_idx = head . position as usize ;
if head . filter [ next_idx ]
{
self . stack . push ( TraverseState :: new ( branch . children [ next_idx ] . clone ( ) ) ) ;
//@ proof { lemma_push(s1, self.stack@.last(), self.stack@, &self.query, root, fwd, off); }
continue ;
}
else
{
let index = & branch . children [ next_idx ] ;
//@ let ghost p = head.position as int;
//@ proof { assert(*index == kids_of(i0)[p]); }
head . next_pos ( & self . mode ) ;
let range = match self . mode
{
Mode :: Forward => self . offset .. self . offset . vx_saturating_add ( index . count ( ) ) ,
Mode :: Backward =>
{
self . offset . vx_saturating_sub ( index . count ( ) ) .. self . offset
}
}
;
let info = self . forest . node_info ( & self . secrets , index ) ;
match self . mode
{
Mode :: Forward => self . offset += index . count ( ) ,
Mode :: Backward => self . offset -= index . count ( ) ,
}
;
{
//@ proof { lemma_set(s0, self.stack@, &self.query, root); }
vxb0 = self . visitor . vx_skip ( range , & info ) ;
break ;
}
;
}
}
NodeInfo :: Leaf ( index , leaf ) =>
{
let mut matching : Vec < _ > = vx_repeat ( true , index . keys . len ( ) ) ;
self . query . containing ( range . start , & index , & mut matching ) ;
//@ proof { assert(i0 == lx(*index)); lemma_sound_leaf::<T, R, V>(&self.visitor, self.secrets, root, i0, st); }
let result = self . visitor . leaf ( range , index . clone ( ) , leaf , & matching ) ? ;
match self . mode
{
Mode :: Backward => self . offset -= index . keys . count ( ) ,
Mode :: Forward => self . offset += index . keys . count ( ) ,
}
//@ proof {
//@ let x = *index;
//@ assert(elems(i0) =~= elems(root).subrange(st, st + i0.count()));
//@ assert(of_leaf(x, &self.query, root, st, st + i0.count(), matching@));
//@ }
self . stack . pop ( ) ;
if let Some ( last ) = self . stack . vx_last_mut ( )
{
last . next_pos ( & self . mode ) ;
}
{
//@ proof { lemma_pop(s0, self.stack@, &self.query, root, fwd, self.offset as int); }
vxb0 = result ;
break ;
}
;
}
_ =>
{
//@ proof { assert(forall|j: int| 0 <= j < elems(i0).len() ==> (#[trigger] elems(i0)[j]) is None); assert(s0 == self.stack@); }
vxb0 = self . vx_skip ( range ) ;
break ;
}
,
}
;
}
Ok ( Some ( vxb0 ) )
}

### impl banyan/src/forest/read.rs TreeIter as Iterator
head: impl<T, R, Q, V> TreeIter<T, R, Q, V> where T: TreeTypes, R: ReadOnlyStore<T::Link>, Q: Query<T>, V: TreeVisitor<T, R>

### fn banyan/src/forest/read.rs TreeIter as Iterator::next
props: C03
retty: Option<Result<V::Item>>
params: self
spec:
    requires old(self).visitor.vok(), old(self).stack@.len() > 0 ==> at(old(self).stack@, &old(self).query, old(self).stack@[0].index, old(self).mode is Forward, old(self).offset as int)
    ensures final(self).query == old(self).query, final(self).visitor == old(self).visitor, final(self).mode == old(self).mode, final(self).secrets == old(self).secrets, final(self).forest == old(self).forest,
    old(self).stack@.len() == 0 ==> r is None && final(self).stack@.len() == 0 && final(self).offset == old(self).offset,
    old(self).stack@.len() > 0 && (r is None || r.unwrap() is Ok) ==> pos_ok(final(self).stack@, &final(self).query, old(self).stack@[0].index, final(self).mode is Forward, final(self).offset as int),
    old(self).stack@.len() > 0 && r is None ==> final(self).stack@.len() == 0 && final(self).offset == old(self).offset,
    old(self).stack@.len() > 0 && r is Some && r.unwrap() is Ok ==> ({ let (a, b) = if old(self).mode is Forward { (old(self).offset, final(self).offset) } else { (final(self).offset, old(self).offset) };
    chunk_of(&old(self).visitor, &old(self).query, old(self).stack@[0].index, a as int, b as int, r.unwrap()->Ok_0) }),
    r is Some && r.unwrap() is Err ==> final(self).stack@.len() == 0 && !sound::<T, R, V>(&old(self).visitor, old(self).secrets, old(self).stack@[0].index),
body:
{
match self . next_fallible ( )
{
Ok ( value ) => value . vx_map ( vx_ok ) ,
Err ( cause ) =>
{
self . stack . clear ( ) ;
Some ( Err ( cause ) )
}
}
}
