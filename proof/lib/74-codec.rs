pub mod codec_lemmas {
use super::*;
verus! {
broadcast use {axiom_vecset};
// ---------------------------------------------------------------- the dag-cbor codec: what it writes for a value, and reading it back
/// a writer: the bytes written so far
pub trait Write { spec fn out(&self) -> Bytes; fn vx_write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).out() == old(self).out() + b@; }
/// a reader: the bytes still to come
pub trait Read { spec fn left(&self) -> Bytes; }
pub trait Seek {}
#[verifier::external_body]
pub fn read_u8<R: Read>(r: &mut R) -> (b: Result<u8>) ensures old(r).left().len() > 0 ==> b is Ok && b->Ok_0 == old(r).left()[0] && final(r).left() == old(r).left().skip(1) { unimplemented!() }
/// values as the codec sees them, the bytes written for a value, and whether it is one that the type can hold
pub trait Codec: Sized { type V; spec fn v(&self) -> Self::V; spec fn bytes(v: Self::V) -> Bytes; spec fn codable(v: Self::V) -> bool; spec fn valid(&self) -> bool; }
pub trait Encode<C>: Codec {
    fn encode<W: Write>(&self, c: C, w: &mut W) -> (r: Result<()>) ensures r is Ok ==> final(w).out() == old(w).out() + Self::bytes(self.v());
}
/// what was written is read back, and nothing after it is touched; what is read is valid whatever was written
pub trait Decode<C>: Codec {
    fn decode<R: Read + Seek>(c: C, r: &mut R) -> (a: Result<Self>)
        ensures a is Ok ==> a->Ok_0.valid(), forall|v: Self::V, rest: Bytes| #![trigger Self::bytes(v) + rest] Self::codable(v) && old(r).left() == Self::bytes(v) + rest ==> a is Ok && a->Ok_0.v() == v && final(r).left() == rest;
}
/// of the types below only the law is known: one definition for both directions
pub uninterp spec fn cbor_texts(v: Seq<Seq<char>>) -> Bytes;
pub uninterp spec fn cbor_lists(v: Seq<Seq<u32>>) -> Bytes;
impl Codec for Vec<String> {
    type V = Seq<Seq<char>>;
    open spec fn v(&self) -> Seq<Seq<char>> { self@.map_values(|s: String| s@) }
    open spec fn bytes(v: Seq<Seq<char>>) -> Bytes { cbor_texts(v) }
    open spec fn codable(v: Seq<Seq<char>>) -> bool { true }
    open spec fn valid(&self) -> bool { true }
}
impl Codec for Vec<Vec<u32>> {
    type V = Seq<Seq<u32>>;
    open spec fn v(&self) -> Seq<Seq<u32>> { self@.map_values(|s: Vec<u32>| s@) }
    open spec fn bytes(v: Seq<Seq<u32>>) -> Bytes { cbor_lists(v) }
    open spec fn codable(v: Seq<Seq<u32>>) -> bool { true }
    open spec fn valid(&self) -> bool { true }
}
impl Encode<DagCborCodec> for Vec<String> { #[verifier::external_body] fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> (r: Result<()>) { unimplemented!() } }
impl Decode<DagCborCodec> for Vec<String> { #[verifier::external_body] fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> (a: Result<Self>) { unimplemented!() } }
impl Encode<DagCborCodec> for Vec<Vec<u32>> { #[verifier::external_body] fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> (r: Result<()>) { unimplemented!() } }
impl Decode<DagCborCodec> for Vec<Vec<u32>> { #[verifier::external_body] fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> (a: Result<Self>) { unimplemented!() } }

// ---------------------------------------------------------------- tags are texts
impl SmolStr {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r.txt() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.txt() { unimplemented!() }
}
pub axiom fn axiom_txt(a: SmolStr, b: SmolStr) requires a.txt() == b.txt() ensures a == b;
pub open spec fn texts(s: Seq<SmolStr>) -> Seq<Seq<char>> { s.map_values(|t: SmolStr| t.txt()) }
pub open spec fn lists(s: Seq<IndexSet>) -> Seq<Seq<u32>> { s.map_values(|t: IndexSet| t.sq()) }

pub open spec fn set_within(s: IndexSet, n: int) -> bool { forall|i: u32| #[trigger] s.set().contains(i) ==> i < n }
pub open spec fn all_within(e: Seq<IndexSet>, n: int) -> bool { forall|k: int| 0 <= k < e.len() ==> set_within(#[trigger] e[k], n) }
impl Codec for TagIndex {
    type V = (Seq<Seq<char>>, Seq<Seq<u32>>);
    open spec fn v(&self) -> (Seq<Seq<char>>, Seq<Seq<u32>>) { (texts(self.tags.sq()), lists(self.elements@)) }
    open spec fn bytes(v: (Seq<Seq<char>>, Seq<Seq<u32>>)) -> Bytes { seq![0x82u8] + (cbor_texts(v.0) + cbor_lists(v.1)) }
    open spec fn codable(v: (Seq<Seq<char>>, Seq<Seq<u32>>)) -> bool { exists|x: TagIndex| x.valid() && #[trigger] x.v() == v }
    open spec fn valid(&self) -> bool { forall|k: int| 0 <= k < self.elements.len() ==> self.wf_set(#[trigger] self.elements@[k]) }
}
/// C11: an index is determined by what is encoded of it
pub proof fn lemma_index_eq(x: TagIndex, y: TagIndex)
    requires x.v() == y.v()
    ensures x.tags == y.tags, x.elements@ == y.elements@, forall|k: int| 0 <= k < x.elements.len() ==> x.elem(k) == y.elem(k)
{
    lemma_texts(x.tags.sq(), y.tags.sq());
    axiom_vecset_eq(x.tags, y.tags);
    assert(x.elements@ =~= y.elements@) by {
        assert(lists(x.elements@).len() == lists(y.elements@).len());
        assert forall|k: int| 0 <= k < x.elements.len() implies x.elements@[k] == y.elements@[k] by {
            assert(lists(x.elements@)[k] == lists(y.elements@)[k]);
            axiom_vecset_eq(x.elements@[k], y.elements@[k]);
        }
    }
}
pub proof fn lemma_texts(a: Seq<SmolStr>, b: Seq<SmolStr>) requires texts(a) == texts(b) ensures a == b {
    assert(texts(a).len() == a.len() && texts(b).len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(texts(a)[i] == texts(b)[i]); assert(texts(a)[i] == a[i].txt()); assert(texts(b)[i] == b[i].txt()); axiom_txt(a[i], b[i]); }
    assert(a =~= b);
}
/// sets read back are the ones that were written
pub proof fn lemma_read_back(x: TagIndex, tags: TagSet, ts: Seq<SmolStr>, elements: Seq<IndexSet>, ls: Seq<Seq<u32>>)
    requires texts(ts) == x.v().0, tags.set() == ts.to_set(), ls == x.v().1, elements.len() == ls.len(), forall|k: int| 0 <= k < ls.len() ==> (#[trigger] elements[k]).set() == ls[k].to_set()
    ensures tags == x.tags, elements == x.elements@
{
    lemma_texts(ts, x.tags.sq());
    axiom_vecset_eq(tags, x.tags);
    assert forall|k: int| 0 <= k < elements.len() implies elements[k] == x.elements@[k] by { assert(ls[k] == x.elements@[k].sq()); axiom_vecset_eq(elements[k], x.elements@[k]); }
    assert(elements =~= x.elements@);
}
}
}
pub use codec_lemmas::*;
pub use codec_lemmas::{Encode, Decode, Write, Read, Seek};
