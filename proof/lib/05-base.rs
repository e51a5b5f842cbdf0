// the outside world: keystream, envelope, compression, store contents
pub mod base {
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct Key { _p: u8 }
impl Clone for Key { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Key {}
#[verifier::external_body] pub struct XNonce { _p: u8 }
#[verifier::external_body] pub struct Cid { _p: u8 }
impl Clone for Cid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Bytes = Seq<u8>;

pub broadcast proof fn lemma_take_all<A>(s: Seq<A>, n: int) ensures n == s.len() ==> #[trigger] s.take(n) == s { if n == s.len() { assert(s.take(n) =~= s); } }
pub broadcast proof fn lemma_skip_none<A>(s: Seq<A>, n: int) ensures n == 0 ==> #[trigger] s.skip(n) == s { if n == 0 { assert(s.skip(n) =~= s); } }
/// what is left of an iterator
pub open spec fn suffix<A>(a: Seq<A>, b: Seq<A>) -> bool { b.len() <= a.len() && b == a.skip(a.len() - b.len()) }
pub broadcast proof fn lemma_suffix<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>) requires #[trigger] suffix(a, b), #[trigger] suffix(b, c) ensures suffix(a, c) { assert(c =~= a.skip(a.len() - c.len())); }
/// the keystream of (key, nonce), one byte per position
pub uninterp spec fn keystream(key: Key, nonce: XNonce, pos: int) -> u8;
pub open spec fn xor(key: Key, nonce: XNonce, pos: int, data: Bytes) -> Bytes { Seq::new(data.len(), |i: int| data[i] ^ keystream(key, nonce, pos + i)) }
pub broadcast proof fn lemma_xor(key: Key, nonce: XNonce, pos: int, data: Bytes) ensures #[trigger] xor(key, nonce, pos, xor(key, nonce, pos, data)) == data {
    assert forall|i: int| 0 <= i < data.len() implies xor(key, nonce, pos, xor(key, nonce, pos, data))[i] == data[i] by {
        let a = data[i]; let b = keystream(key, nonce, pos + i);
        assert((a ^ b) ^ b == a) by (bit_vector);
    }
    assert(xor(key, nonce, pos, xor(key, nonce, pos, data)) =~= data);
}
/// the envelope of a block: position in the keystream, links, encrypted payload (None: no byte string)
pub struct Env { pub offset: u64, pub links: Seq<Cid>, pub data: Option<Bytes> }
pub uninterp spec fn envelope(b: Bytes) -> Option<Env>;

/// the contents of a compressed frame
pub uninterp spec fn unzip(b: Bytes) -> Option<Bytes>;
/// nothing is compressed to nothing
pub broadcast axiom fn axiom_unzip_empty(b: Bytes) ensures b.len() == 0 ==> #[trigger] unzip(b) == Some(Seq::<u8>::empty());
pub open spec fn max_raw() -> int { 16 * 1024 * 1024int }

/// envelope, positions that do not wrap around
pub open spec fn opened(b: Bytes) -> Option<Env> {
    match envelope(b) { Some(e) => if e.data is Some && e.offset + e.data.unwrap().len() <= u64::MAX { Some(e) } else { None }, None => None }
}
pub open spec fn env_start(b: Bytes) -> int { opened(b).unwrap().offset as int }
pub open spec fn env_end(b: Bytes) -> int { opened(b).unwrap().offset + opened(b).unwrap().data.unwrap().len() }
pub open spec fn env_zip(key: Key, nonce: XNonce, b: Bytes) -> Bytes { xor(key, nonce, env_start(b), opened(b).unwrap().data.unwrap()) }
/// the uncompressed contents of a block under a key
pub open spec fn contents(key: Key, nonce: XNonce, b: Bytes) -> Option<Bytes> {
    if opened(b) is Some { unzip(env_zip(key, nonce, b)) } else { None }
}
/// a block that is damaged so that nobody can decode it
pub open spec fn bad(b: Bytes) -> bool { forall|k: Key, n: XNonce| (#[trigger] contents(k, n, b)) is None }

/// what was put under a link; whether the store still has it; whether it was ever put
pub uninterp spec fn block<L>(l: L) -> Bytes;
pub uninterp spec fn avail<L>(l: L) -> bool;
pub uninterp spec fn known<L>(l: L) -> bool;
/// the store took it, or returned it intact, at least once
pub uninterp spec fn served<L>(l: L) -> bool;
/// the uncompressed contents of the block behind a link, whatever the key
pub uninterp spec fn raw<L>(l: L) -> Bytes;
/// no block decodes to different contents under different keys
pub broadcast axiom fn axiom_raw<L>(l: L, key: Key, nonce: XNonce) ensures (#[trigger] contents(key, nonce, block(l))) is Some ==> contents(key, nonce, block(l)) == Some(raw(l));

/// what was handed to the store so far, and the first keystream position that is still free
pub struct St { pub log: Seq<Bytes>, pub off: int }
/// every block written between a and b has its own keystream range, within [a.off, b.off]
pub open spec fn steps(a: St, b: St) -> bool {
    &&& a.off <= b.off
    &&& a.log.len() <= b.log.len()
    &&& forall|j: int| #![trigger a.log[j]] 0 <= j < a.log.len() ==> a.log[j] == b.log[j]
    &&& forall|j: int| #![trigger b.log[j]] a.log.len() <= j < b.log.len() ==> opened(b.log[j]) is Some && a.off <= env_start(b.log[j]) && env_end(b.log[j]) <= b.off
    &&& forall|i: int, j: int| #![trigger b.log[i], b.log[j]] a.log.len() <= i < j < b.log.len() ==> env_end(b.log[i]) <= env_start(b.log[j])
}
pub broadcast proof fn lemma_steps(a: St, b: St, c: St) requires #[trigger] steps(a, b), #[trigger] steps(b, c) ensures steps(a, c) {
    assert forall|j: int| #![trigger c.log[j]] a.log.len() <= j < c.log.len() implies opened(c.log[j]) is Some && a.off <= env_start(c.log[j]) && env_end(c.log[j]) <= c.off by { if j < b.log.len() { assert(b.log[j] == c.log[j]); } }
    assert forall|i: int, j: int| #![trigger c.log[i], c.log[j]] a.log.len() <= i < j < c.log.len() implies env_end(c.log[i]) <= env_start(c.log[j]) by {
        if i < b.log.len() { assert(b.log[i] == c.log[i]); }
        if j < b.log.len() { assert(b.log[j] == c.log[j]); }
    }
    assert forall|j: int| #![trigger a.log[j]] 0 <= j < a.log.len() implies a.log[j] == c.log[j] by { assert(b.log[j] == c.log[j]); }
}
} // verus!
}
pub use base::*;
