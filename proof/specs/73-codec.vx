### fn banyan-utils/src/tag_index.rs TagIndex as Encode::encode
props: C11
closure 0: -> (vxr: String) ensures vxr@ == x.txt()
closure 1: -> (vxr: Vec<u32>) ensures vxr@ =~= e.sq()
params: self c w
spec:
body:
{
let tags : Vec < String > = self . tags . vx_iter ( ) . vx_map ( | x | -> ( vxr : String ) ensures vxr @ == x . txt ( )
{
x . vx_to_string ( )
}
) . vx_collect ( ) ;
let elements : Vec < Vec < u32 > > = self . elements . vx_iter ( ) . vx_map ( | e | -> ( vxr : Vec < u32 > ) ensures vxr @ =~= e . sq ( )
{
e . vx_iter ( ) . vx_cloned ( ) . vx_collect ( )
}
) . vx_collect ( ) ;
//@ proof { assert(tags.v() =~= texts(self.tags.sq())); assert(elements.v() =~= lists(self.elements@)); }
//@ let ghost o0 = w.out();
w . vx_write_all ( & [ 0x82 ] ) ? ;
tags . encode ( c , w ) ? ;
elements . encode ( c , w ) ? ;
//@ proof { assert(w.out() =~= o0 + TagIndex::bytes(self.v())); }
Ok ( ( ) )
}

### fn banyan-utils/src/tag_index.rs TagIndex as Decode::decode
props: C11 C15
closure 0: -> (vxr: VecSet<[u32; 4]>) ensures vxr.set() == i@.to_set()
ret: a
params: c r
spec:
body:
{
//@ let ghost l0 = r.left();
//@ proof { assert forall|v: (Seq<Seq<char>>, Seq<Seq<u32>>), rest: Bytes| #![trigger TagIndex::bytes(v) + rest] l0 == TagIndex::bytes(v) + rest implies l0.len() > 0 && l0[0] == 0x82 && l0.skip(1) == Vec::<String>::bytes(v.0) + (Vec::<Vec<u32>>::bytes(v.1) + rest) by {
//@ let b = TagIndex::bytes(v) + rest; assert(b.len() > 0 && b[0] == 0x82u8); assert(b.skip(1) =~= Vec::<String>::bytes(v.0) + (Vec::<Vec<u32>>::bytes(v.1) + rest)); } }
if ! ( read_u8 ( r ) ? == 0x82 )
{
return Err ( vx_err ( ) ) ;
}
//@ let ghost l1 = r.left();
let tags : Vec < String > = Decode :: decode ( c , r ) ? ;
//@ let ghost l2 = r.left();
//@ let ghost texts0 = tags.v();
//@ let ghost tags0 = tags@;
//@ proof { assert forall|v: (Seq<Seq<char>>, Seq<Seq<u32>>), rest: Bytes| #![trigger TagIndex::bytes(v) + rest] l0 == TagIndex::bytes(v) + rest implies texts0 == v.0 && l2 == Vec::<Vec<u32>>::bytes(v.1) + rest by { assert(l1 == Vec::<String>::bytes(v.0) + (Vec::<Vec<u32>>::bytes(v.1) + rest)); } }
let elements : Vec < Vec < u32 > > = Decode :: decode ( c , r ) ? ;
//@ let ghost l3 = r.left();
//@ let ghost lists0 = elements.v();
//@ let ghost elements0 = elements@;
//@ proof { assert forall|v: (Seq<Seq<char>>, Seq<Seq<u32>>), rest: Bytes| #![trigger TagIndex::bytes(v) + rest] l0 == TagIndex::bytes(v) + rest implies texts0 == v.0 && lists0 == v.1 && l3 == rest by { assert(l2 == Vec::<Vec<u32>>::bytes(v.1) + rest); } }
let tags : VecSet < [ SmolStr ;
4 ] > = tags . vx_into_iter ( ) . vx_map ( SmolStr :: new ) . vx_collect ( ) ;
let elements : Vec < VecSet < [ u32 ;
4 ] > > = elements . vx_into_iter ( ) . vx_map ( | i | -> ( vxr : VecSet < [ u32 ;
4 ] > ) ensures vxr . set ( ) == i @. to_set ( )
{
i . vx_into_iter ( ) . vx_collect ( )
}
) . vx_collect ( ) ;
vx_block ;
//@ proof {
//@ assert(exists|ts: Seq<SmolStr>| #[trigger] ts.to_set() == tags.set() && ts.len() == tags0.len() && forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() ==> ts[i].txt() == tags0[i]@);
//@ let ts = choose|ts: Seq<SmolStr>| #[trigger] ts.to_set() == tags.set() && ts.len() == tags0.len() && forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() ==> ts[i].txt() == tags0[i]@;
//@ assert(texts(ts) =~= texts0);
//@ assert forall|v: (Seq<Seq<char>>, Seq<Seq<u32>>), rest: Bytes| #![trigger TagIndex::bytes(v) + rest] TagIndex::codable(v) && l0 == TagIndex::bytes(v) + rest implies v.0 == texts(tags.sq()) && v.1 == lists(elements@) && l3 == rest && all_within(elements@, tags.sq().len() as int) by {
//@ let x = choose|x: TagIndex| x.valid() && #[trigger] x.v() == v;
//@ assert forall|k: int| 0 <= k < lists0.len() implies (#[trigger] elements@[k]).set() == lists0[k].to_set() by { assert(lists0[k] == elements0[k]@); }
//@ lemma_read_back(x, tags, ts, elements@, lists0);
//@ assert forall|k: int| 0 <= k < elements.len() implies set_within(#[trigger] elements@[k], tags.sq().len() as int) by { assert(x.wf_set(x.elements@[k])); }
//@ }
//@ }
let mut vxit0 = vx_for ( & elements ) ;
let ghost vxs0 = vxit0 @ ;
let ghost mut vxk0 = 0int ;
while vxit0 . has_next ( ) vx_invariants ( vxit0 , vxs0 , vxk0 )
//@ vxs0 == refs(elements@), forall|k: int| 0 <= k < vxk0 ==> set_within(#[trigger] elements@[k], tags.sq().len() as int),
{
proof
{
vxk0 = vxk0 + 1 ;
}
let s = vxit0 . take_next ( ) ;
vx_block ;
let mut vxit1 = vx_for ( s ) ;
let ghost vxs1 = vxit1 @ ;
let ghost mut vxk1 = 0int ;
while vxit1 . has_next ( ) vx_invariants ( vxit1 , vxs1 , vxk1 )
//@ vxs1 == refs(s.sq()), forall|k: int| 0 <= k < vxk1 ==> (#[trigger] s.sq()[k]) < tags.sq().len(),
{
proof
{
vxk1 = vxk1 + 1 ;
}
let x = vxit1 . take_next ( ) ;
//@ proof { assert(*x == s.sq()[vxk1 - 1]); assert(s.sq().contains(*x)); assert(s == elements@[vxk0 - 1]); if all_within(elements@, tags.sq().len() as int) { assert(set_within(elements@[vxk0 - 1], tags.sq().len() as int)); assert(s.set().contains(*x)); } }
if ! ( ( * x as usize ) < tags . len ( ) )
{
return Err ( vx_err ( ) ) ;
}
}
}
Ok ( Self
{
tags ,
elements
}
)
}

