### type banyan-utils/src/tag_index.rs Tag

### type banyan-utils/src/tag_index.rs IndexSet

### type banyan-utils/src/tag_index.rs TagSet

### type banyan-utils/src/tag_index.rs Expression
derives: Clone

### type banyan-utils/src/tag_index.rs Dnf

### impl banyan-utils/src/tag_index.rs Expression as BitOr
head: impl Expression
### impl banyan-utils/src/tag_index.rs Expression as BitAnd
head: impl Expression
### impl banyan-utils/src/tag_index.rs Dnf as BitOr
head: impl Dnf
### impl banyan-utils/src/tag_index.rs Dnf as BitAnd
head: impl Dnf

### fn banyan-utils/src/tag_index.rs insert_unless_redundant
props: C11
params: aa b
rewrite: let mut to_remove = Vec :: new ( ) ; => let mut to_remove : Vec<TagSet> = Vec :: new ( ) ;
spec:
    ensures
        forall|t: Set<SmolStr>| #[trigger] csem(final(aa).set(), t) == (csem(old(aa).set(), t) || b.set().subset_of(t)),
        antichain(old(aa).set()) ==> antichain(final(aa).set()),
body:
{
let mut to_remove = Vec :: new ( ) ;
vx_block ;
let mut vxit0 = vx_for ( aa . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == refs(aa.sq()), aa.set() == old(aa).set(),
//@ forall|i: int| 0 <= i < vxk0 ==> !(#[trigger] vxs0[i]).set().subset_of(b.set()),
//@ forall|j: int| 0 <= j < to_remove@.len() ==> b.set().subset_of((#[trigger] to_remove@[j]).set()),
//@ forall|i: int| 0 <= i < vxk0 && b.set().subset_of((#[trigger] vxs0[i]).set()) ==> to_remove@.contains(*vxs0[i]),
{
proof
{
vxk0 = vxk0 + 1 ;
}
//@ proof { assert(aa.set().contains(*vxs0[vxk0 - 1])); }
let a = vxit0 . take_next ( ) ;
if a . vx_is_subset ( & b )
{
//@ proof { lemma_redundant(aa.set(), *a, b); }
return ;
}
else if a . is_superset ( & b )
{
//@ let ghost vxtr = to_remove@;
to_remove . push ( a . clone ( ) ) ;
//@ proof { lemma_pushed(vxtr, *a); }
}
}
vx_block ;
let mut vxit1 = vx_for ( to_remove ) ;
let ghost vxs1 = vxit1 @ ;
let ghost mut vxk1 = 0int ;
while vxit1 . has_next ( ) vx_invariants ( vxit1 , vxs1 , vxk1 )
//@ forall|x: TagSet| #[trigger] aa.set().contains(x) <==> old(aa).set().contains(x) && !vxs1.take(vxk1).contains(x),
{
proof
{
vxk1 = vxk1 + 1 ;
}
let r = vxit1 . take_next ( ) ;
//@ proof { assert(vxs1.take(vxk1) =~= vxs1.take(vxk1 - 1).push(r)); lemma_pushed(vxs1.take(vxk1 - 1), r); }
aa . vx_remove ( & r ) ;
}
//@ proof {
//@ assert forall|x: TagSet| #[trigger] old(aa).set().contains(x) implies !x.set().subset_of(b.set()) && (supers(old(aa).set(), b).contains(x) ==> vxs1.contains(x)) by { let i = choose|i: int| 0 <= i < old(aa).sq().len() && old(aa).sq()[i] == x; assert(*vxs0[i] == x); }
//@ assert(aa.set() =~= old(aa).set().difference(supers(old(aa).set(), b)));
//@ lemma_added(old(aa).set(), b, aa.set().insert(b));
//@ }
aa . vx_insert ( b ) ;
}

### fn banyan-utils/src/tag_index.rs Expression::literal
props: C11
params: text
spec:
    ensures r == Expression::Literal(text),
body:
{
Self :: Literal ( text )
}

### fn banyan-utils/src/tag_index.rs Expression::or
props: C11
closure 0: -> (vxr: Vec<Expression>) ensures forall|t: Set<SmolStr>| #[trigger] any_sem(vxr@, t) == esem($0, t)
params: e
spec:
    ensures
        r is Or,
        forall|t: Set<SmolStr>| #[trigger] esem(r, t) == any_sem(e@, t),
body:
{
Self :: Or ( e . vx_into_iter ( ) . vx_flat_map ( | c | -> ( vxr : Vec < Expression > ) ensures forall | t : Set < SmolStr >| # [ trigger ] any_sem ( vxr @, t ) == esem ( c , t )
{
match c
{
Self :: Or ( es ) => es ,
x => vx_vec1 ( x ) ,
}
}
) . vx_collect ( ) , )
}

### fn banyan-utils/src/tag_index.rs Expression::and
props: C11
closure 0: -> (vxr: Vec<Expression>) ensures forall|t: Set<SmolStr>| #[trigger] all_sem(vxr@, t) == esem($0, t)
params: e
spec:
    ensures
        r is And,
        forall|t: Set<SmolStr>| #[trigger] esem(r, t) == all_sem(e@, t),
body:
{
Self :: And ( e . vx_into_iter ( ) . vx_flat_map ( | c | -> ( vxr : Vec < Expression > ) ensures forall | t : Set < SmolStr >| # [ trigger ] all_sem ( vxr @, t ) == esem ( c , t )
{
match c
{
Self :: And ( es ) => es ,
x => vx_vec1 ( x ) ,
}
}
) . vx_collect ( ) , )
}

### fn banyan-utils/src/tag_index.rs Expression as BitOr::bitor
props: C11
params: self that
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] esem(r, t) == (esem(self, t) || esem(that, t)),
body:
{
Expression :: or ( vx_vec2 ( self , that ) )
}

### fn banyan-utils/src/tag_index.rs Expression as BitAnd::bitand
props: C11
params: self that
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] esem(r, t) == (esem(self, t) && esem(that, t)),
body:
{
Expression :: and ( vx_vec2 ( self , that ) )
}

### fn banyan-utils/src/tag_index.rs Dnf::literal
props: C11
params: text
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == t.contains(text), antichain(r.0.set()),
body:
{
Self ( btreeset ! [ vecset !
{
text
}
] )
}

### fn banyan-utils/src/tag_index.rs Dnf as BitOr::bitor
props: C11
params: self that
spec:
    ensures
        forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == (dsem(self, t) || dsem(that, t)),
        antichain(self.0.set()) ==> antichain(r.0.set()),
body:
{
let mut rs = self . 0 ;
vx_block ;
let mut vxit0 = vx_for ( that . 0 ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == that.0.sq(),
//@ forall|t: Set<SmolStr>| #[trigger] csem(rs.set(), t) == (dsem(self, t) || csem(vxs0.take(vxk0).to_set(), t)),
//@ antichain(self.0.set()) ==> antichain(rs.set()),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let b = vxit0 . take_next ( ) ;
//@ proof { lemma_csem_push(vxs0.take(vxk0 - 1), b); assert(vxs0.take(vxk0) =~= vxs0.take(vxk0 - 1).push(b)); }
insert_unless_redundant ( & mut rs , b ) ;
}
Dnf ( rs )
}

### fn banyan-utils/src/tag_index.rs Dnf as BitAnd::bitand
props: C11
params: self that
spec:
    ensures
        forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == (dsem(self, t) && dsem(that, t)),
        antichain(r.0.set()),
body:
{
let mut rs = BTreeSet :: new ( ) ;
vx_block ;
let mut vxit0 = vx_for ( self . 0 . vx_iter ( ) ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == refs(self.0.sq()),
//@ forall|t: Set<SmolStr>| #[trigger] csem(rs.set(), t) == (csem(self.0.sq().take(vxk0).to_set(), t) && dsem(that, t)),
//@ antichain(rs.set()),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let a = vxit0 . take_next ( ) ;
//@ proof { lemma_csem_push(self.0.sq().take(vxk0 - 1), *a); assert(self.0.sq().take(vxk0) =~= self.0.sq().take(vxk0 - 1).push(*a)); }
vx_block ;
let mut vxit1 = vx_for ( that . 0 . vx_iter ( ) ) ;
let ghost vxs1 = vxit1 @ ;
let ghost mut vxk1 = 0int ;
while vxit1 . has_next ( ) vx_invariants ( vxit1 , vxs1 , vxk1 )
//@ vxs1 == refs(that.0.sq()), *a == self.0.sq()[vxk0 - 1],
//@ forall|t: Set<SmolStr>| #[trigger] csem(rs.set(), t) == ((csem(self.0.sq().take(vxk0 - 1).to_set(), t) && dsem(that, t)) || (a.set().subset_of(t) && csem(that.0.sq().take(vxk1).to_set(), t))),
//@ antichain(rs.set()),
{
proof
{
vxk1 = vxk1 + 1 ;
}
let b = vxit1 . take_next ( ) ;
//@ proof { lemma_csem_push(that.0.sq().take(vxk1 - 1), *b); assert(that.0.sq().take(vxk1) =~= that.0.sq().take(vxk1 - 1).push(*b)); }
let mut r = TagSet :: default ( ) ;
r . vx_extend ( a . vx_iter ( ) . vx_cloned ( ) ) ;
r . vx_extend ( b . vx_iter ( ) . vx_cloned ( ) ) ;
//@ proof { assert(r.set() =~= a.set().union(b.set())); }
insert_unless_redundant ( & mut rs , r ) ;
}
}
Dnf ( rs )
}

### impl banyan-utils/src/tag_index.rs Expression as From<Dnf>
head: impl Expression
### impl banyan-utils/src/tag_index.rs Dnf as From<Expression>
head: impl Dnf

### fn banyan-utils/src/tag_index.rs Expression::simplify
props: C11
closure 0: -> (vxr: Vec<Expression>) requires decreases_to!(*self => *$0) ensures forall|t: Set<SmolStr>| #[trigger] all_sem(vxr@, t) == esem(*$0, t)
closure 1: -> (vxr: Vec<Expression>) requires decreases_to!(*self => *$0) ensures forall|t: Set<SmolStr>| #[trigger] any_sem(vxr@, t) == esem(*$0, t)
params: self
spec:
    ensures forall|t: Set<SmolStr>| #![trigger esem(r, t)] #![trigger esem(*self, t)] esem(r, t) == esem(*self, t),
    decreases self,
body:
{
match self
{
Expression :: Literal ( _ ) => self . clone ( ) ,
Expression :: And ( v ) =>
{
let v = v . vx_iter ( ) . vx_flat_map ( | e | -> ( vxr : Vec < Expression > ) requires decreases_to ! ( * self => * e ) ensures forall | t : Set < SmolStr >| # [ trigger ] all_sem ( vxr @, t ) == esem ( * e , t )
{
{
let e = e . simplify ( ) ;
if let Expression :: And ( inner ) = e
{
inner
}
else
{
vx_vec1 ( e )
}
}
}
) . vx_collect :: < Vec < _ > > ( ) ;
//@ proof { assert forall|t: Set<SmolStr>| #[trigger] all_sem(v@, t) == esem(*self, t) by { }; assert(v@.len() == 1 ==> forall|t: Set<SmolStr>| all_sem(v@, t) == #[trigger] esem(v@[0], t)); }
if v . len ( ) == 1
{
v . vx_into_iter ( ) . next ( ) . vx_unwrap ( )
}
else
{
Expression :: And ( v )
}
}
Expression :: Or ( v ) =>
{
let v = v . vx_iter ( ) . vx_flat_map ( | e | -> ( vxr : Vec < Expression > ) requires decreases_to ! ( * self => * e ) ensures forall | t : Set < SmolStr >| # [ trigger ] any_sem ( vxr @, t ) == esem ( * e , t )
{
{
let e = e . simplify ( ) ;
if let Expression :: Or ( inner ) = e
{
inner
}
else
{
vx_vec1 ( e )
}
}
}
) . vx_collect :: < Vec < _ > > ( ) ;
//@ proof { assert forall|t: Set<SmolStr>| #[trigger] any_sem(v@, t) == esem(*self, t) by { }; assert(v@.len() == 1 ==> forall|t: Set<SmolStr>| any_sem(v@, t) == #[trigger] esem(v@[0], t)); }
if v . len ( ) == 1
{
v . vx_into_iter ( ) . next ( ) . vx_unwrap ( )
}
else
{
Expression :: Or ( v )
}
}
}
}

### fn banyan-utils/src/tag_index.rs Expression::dnf
props: C11
closure 0: -> (vxr: Dnf) requires decreases_to!(self => $0) ensures antichain(vxr.0.set()), forall|t: Set<SmolStr>| #[trigger] dsem(vxr, t) == esem($0, t)
closure 2: -> (vxr: Dnf) requires decreases_to!(self => $0) ensures antichain(vxr.0.set()), forall|t: Set<SmolStr>| #[trigger] dsem(vxr, t) == esem($0, t)
closure 1: -> (vxr: Dnf) ensures vxr.0.sq().len() == 0
closure 3: -> (vxr: Dnf) ensures exists|c: TagSet| vxr.0.set() == #[trigger] set![c] && c.sq().len() == 0
params: self
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == esem(self, t), antichain(r.0.set()),
    decreases self,
body:
{
match self
{
Expression :: Literal ( x ) => Dnf :: literal ( x ) ,
Expression :: Or ( es ) =>
{
Reduce :: reduce ( es . vx_into_iter ( ) . vx_map ( | x | -> ( vxr : Dnf ) requires decreases_to ! ( self => x ) ensures antichain ( vxr . 0 . set ( ) ) , forall | t : Set < SmolStr >| # [ trigger ] dsem ( vxr , t ) == esem ( x , t )
{
x . dnf ( )
}
) , Dnf :: bitor ) . vx_unwrap_or_else ( | | -> ( vxr : Dnf ) ensures vxr . 0 . sq ( ) . len ( ) == 0
{
Dnf ( BTreeSet :: new ( ) )
}
)
}
Expression :: And ( es ) =>
{
Reduce :: reduce ( es . vx_into_iter ( ) . vx_map ( | x | -> ( vxr : Dnf ) requires decreases_to ! ( self => x ) ensures antichain ( vxr . 0 . set ( ) ) , forall | t : Set < SmolStr >| # [ trigger ] dsem ( vxr , t ) == esem ( x , t )
{
x . dnf ( )
}
) , Dnf :: bitand ) . vx_unwrap_or_else ( | | -> ( vxr : Dnf ) ensures exists | c : TagSet | vxr . 0 . set ( ) == # [ trigger ] set ! [ c ] && c . sq ( ) . len ( ) == 0
{
Dnf ( btreeset ! [ TagSet :: default ( ) ] )
}
)
}
}
}

### fn banyan-utils/src/tag_index.rs Dnf::and_expr
props: C11
closure 0: -> (vxr: Expression) ensures vxr is And, vxr->And_0@.len() == 0
params: v
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] esem(r, t) == v.set().subset_of(t),
body:
{
Reduce :: reduce ( v . vx_into_iter ( ) . vx_map ( Expression :: literal ) , Expression :: bitand ) . vx_unwrap_or_else ( | | -> ( vxr : Expression ) ensures vxr is And , vxr -> And_0 @. len ( ) == 0
{
Expression :: And ( Vec :: new ( ) )
}
)
}

### fn banyan-utils/src/tag_index.rs Dnf::expression
props: C11
closure 0: -> (vxr: Expression) ensures vxr is Or, vxr->Or_0@.len() == 0
params: self
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] esem(r, t) == dsem(self, t),
body:
{
Reduce :: reduce ( self . 0 . vx_into_iter ( ) . vx_map ( Dnf :: and_expr ) , Expression :: bitor ) . vx_unwrap_or_else ( | | -> ( vxr : Expression ) ensures vxr is Or , vxr -> Or_0 @. len ( ) == 0
{
Expression :: Or ( Vec :: new ( ) )
}
)
}

### fn banyan-utils/src/tag_index.rs Expression as From<Dnf>::from
props: C11
params: value
spec:
    ensures forall|t: Set<SmolStr>| #[trigger] esem(r, t) == dsem(value, t),
body:
{
value . expression ( )
}

### fn banyan-utils/src/tag_index.rs Dnf as From<Expression>::from
props: C11
params: value
spec:
    ensures antichain(r.0.set()), forall|t: Set<SmolStr>| #[trigger] dsem(r, t) == esem(value, t),
body:
{
value . dnf ( )
}
