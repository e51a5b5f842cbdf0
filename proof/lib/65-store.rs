verus! {
// ---------------------------------------------------------------- the stores of banyan/src/store
pub trait Hash {}
impl<A> Hash for A {}
pub trait Weighable { fn measure(value: &Self) -> usize; }
#[verifier::external_body] #[verifier::accept_recursive_types(B)] #[verifier::reject_recursive_types(L)] pub struct FnvHashMap<L, B> { _p: PhantomData<(L, B)> }
impl<L, B> View for FnvHashMap<L, B> { type V = Map<L, B>; uninterp spec fn view(&self) -> Map<L, B>; }
impl<L, B> FnvHashMap<L, B> {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<L, B>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_get(&self, l: &L) -> (r: Option<&B>) ensures r is Some == self@.contains_key(*l), r is Some ==> *r.unwrap() == self@[*l] { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert(&mut self, l: L, b: B) -> (r: Option<B>)
        ensures final(self)@ == old(self)@.insert(l, b), r is Some == old(self)@.contains_key(l), r is Some ==> r.unwrap() == old(self)@[l] { unimplemented!() }
}
pub type Block = Box<[u8]>;
impl From<Vec<u8>> for Box<[u8]> {
    open spec fn from_ens(a: Vec<u8>, r: Self) -> bool { r@ == a@ }
    #[verifier::external_body] fn from(a: Vec<u8>) -> (r: Self) { unimplemented!() }
}
impl<'a> From<&'a [u8]> for Box<[u8]> {
    open spec fn from_ens(a: &'a [u8], r: Self) -> bool { r@ == a@ }
    #[verifier::external_body] fn from(a: &'a [u8]) -> (r: Self) { unimplemented!() }
}
impl From<NonZeroUsize> for usize { open spec fn from_ens(a: NonZeroUsize, r: Self) -> bool { r == a.v } fn from(a: NonZeroUsize) -> (r: Self) { a.v } }
#[verifier::external_body] pub fn vx_box_clone(b: &Block) -> (r: Block) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_block_cloned(b: Option<&Block>) -> (r: Option<Block>) ensures r is Some == b is Some, r is Some ==> r.unwrap()@ == b.unwrap()@ { unimplemented!() }
#[verifier::external_body] pub fn vx_try_unwrap<A>(a: Arc<A>) -> (r: Result<A>) ensures r is Ok ==> r->Ok_0 == *a { unimplemented!() }

/// the digest of a store: content addressing, the link determines the block
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct VxDigest<L> { _p: PhantomData<L> }
pub open spec fn addresses<L, F: Fn(&[u8]) -> L>(f: F) -> bool { forall|d: &[u8]| #[trigger] call_requires(f, (d,)) && forall|r: L| #[trigger] call_ensures(f, (d,), r) ==> block(r) == d@ }
impl<L> VxDigest<L> {
    #[verifier::external_body] pub fn new<F: Fn(&[u8]) -> L>(f: F) -> (r: Self) requires addresses(f) { unimplemented!() }
    #[verifier::external_body] pub fn vx_call(&self, d: &[u8]) -> (r: L) ensures block(r) == d@ { unimplemented!() }
}

/// the number of bytes in a map
pub open spec fn total<L>(m: Map<L, Block>) -> int decreases m.dom().len() {
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k]@.len() + total(m.remove(k)) }
}
pub proof fn lemma_total<L>(m: Map<L, Block>, k: L)
    requires m.contains_key(k)
    ensures total(m) == m[k]@.len() + total(m.remove(k)), total(m) >= 0
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0);
    assert(m.dom().contains(c));
    let a = m.remove(c);
    lemma_total_pos(a);
    if c != k {
        lemma_total(a, k);
        let b = m.remove(k);
        assert(b.contains_key(c));
        lemma_total(b, c);
        assert(a.remove(k) =~= b.remove(c));
    }
}
pub proof fn lemma_total_pos<L>(m: Map<L, Block>) ensures total(m) >= 0 decreases m.dom().len() { if m.dom().len() > 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); lemma_total_pos(m.remove(k)); } }
pub proof fn lemma_total_insert<L>(m: Map<L, Block>, k: L, b: Block)
    ensures !m.contains_key(k) ==> total(m.insert(k, b)) == total(m) + b@.len(),
        m.contains_key(k) && m[k]@.len() == b@.len() ==> total(m.insert(k, b)) == total(m)
{
    let n = m.insert(k, b);
    lemma_total(n, k);
    if m.contains_key(k) { lemma_total(m, k); assert(n.remove(k) =~= m.remove(k)); } else { assert(n.remove(k) =~= m); }
}
/// all that is in memory fits into it
pub axiom fn axiom_vec(v: Vec<u8>) ensures v@.len() <= isize::MAX;
pub axiom fn axiom_memory<L>(m: FnvHashMap<L, Block>) ensures total(m@) <= isize::MAX;

/// every link has the block it stands for, and the size is the size of the blocks
impl<L> Protected for Blocks<L> { open spec fn inv(&self) -> bool { content_ok(self.map@) && self.current_size == total(self.map@) } }
pub open spec fn content_ok<L>(m: Map<L, Block>) -> bool { forall|l: L| m.contains_key(l) ==> (#[trigger] m[l])@ == block(l) }
/// a put: refused without a trace when there is no room, otherwise exactly one block is added
pub open spec fn put_step<L>(max: int, data: Bytes, a: Map<L, Block>, b: Map<L, Block>, r: Result<L>) -> bool {
    if total(a) + data.len() > max { r is Err && b == a } else {
        &&& r is Ok && block(r->Ok_0) == data
        &&& b.dom() == a.dom().insert(r->Ok_0) && b[r->Ok_0]@ == data
        &&& forall|l: L| #![trigger a[l]] #![trigger b[l]] l != r->Ok_0 && a.contains_key(l) ==> b[l] == a[l]
    }
}
/// a get: what is there, as it is
pub open spec fn get_step<L>(l: L, a: Map<L, Block>, r: Option<Bytes>) -> bool { if a.contains_key(l) { r == Some(a[l]@) && r == Some(block(l)) } else { r is None } }

impl<L> CacheEntry<L> for MemBlock { open spec fn entry(&self, l: L) -> bool { self.0@.len() <= isize::MAX && self.0@ == block(l) && served(l) } }
pub trait VxTryInto<B>: Sized { spec fn ti(self) -> Option<B>; fn vx_try_into(self) -> (r: Result<B>) ensures r is Ok == self.ti() is Some, r is Ok ==> Some(r->Ok_0) == self.ti(); }
impl VxTryInto<NonZeroUsize> for usize { open spec fn ti(self) -> Option<NonZeroUsize> { if self == 0 { None } else { Some(NonZeroUsize { v: self }) } } fn vx_try_into(self) -> (r: Result<NonZeroUsize>) { match NonZeroUsize::new(self) { Some(x) => Ok(x), None => Err(vx_err()) } } }
pub trait VxResOk<A>: Sized { spec fn rok(self) -> Option<A>; fn vx_ok(self) -> (r: Option<A>) ensures r == self.rok(); }
impl<A> VxResOk<A> for Result<A> { open spec fn rok(self) -> Option<A> { match self { Ok(a) => Some(a), Err(_) => None } } fn vx_ok(self) -> (r: Option<A>) { match self { Ok(a) => Some(a), Err(_) => None } } }

// ---------------------------------------------------------------- histories of the in-memory store
/// one call: a put with its outcome, or a get with its result
pub enum Call<L> { Put(Bytes, Result<L>), Get(L, Option<Bytes>) }
pub open spec fn call_step<L>(max: int, c: Call<L>, a: Map<L, Block>, b: Map<L, Block>) -> bool {
    match c { Call::Put(d, r) => put_step(max, d, a, b, r), Call::Get(l, r) => b == a && get_step(l, a, r) }
}
/// a history of calls on a store that was empty at first
pub open spec fn history<L>(max: int, calls: Seq<Call<L>>, st: Seq<Map<L, Block>>) -> bool {
    &&& st.len() == calls.len() + 1 && st[0] == Map::<L, Block>::empty()
    &&& forall|i: int| 0 <= i < calls.len() ==> call_step(max, #[trigger] calls[i], st[i], st[i + 1])
}
pub open spec fn put_at<L>(calls: Seq<Call<L>>, i: int, l: L) -> bool { 0 <= i < calls.len() && calls[i] is Put && calls[i]->Put_1 is Ok && calls[i]->Put_1->Ok_0 == l }
/// C10: after any history a link is there if and only if a put returned it, with the bytes of that put
pub proof fn lemma_history<L>(max: int, calls: Seq<Call<L>>, st: Seq<Map<L, Block>>, n: int, l: L)
    requires history(max, calls, st), 0 <= n <= calls.len()
    ensures st[n].contains_key(l) <==> exists|i: int| i < n && #[trigger] put_at(calls, i, l),
        forall|i: int| i < n && #[trigger] put_at(calls, i, l) ==> st[n].contains_key(l) && st[n][l]@ == calls[i]->Put_0,
        0 <= total(st[n]) && (n > 0 ==> total(st[n]) <= (if max > 0 { max } else { 0 })),
        content_ok(st[n])
    decreases n
{
    if n == 0 { return; }
    lemma_history(max, calls, st, n - 1, l);
    let c = calls[n - 1];
    assert(call_step(max, c, st[n - 1], st[n]));
    match c {
        Call::Put(d, Ok(k)) => {
            let a = st[n - 1];
            let b = st[n];
            assert(b =~= a.insert(k, b[k]));
            lemma_total_insert(a, k, b[k]);
            lemma_total_pos(b);
            if l == k { assert(put_at(calls, n - 1, l)); if a.contains_key(l) { assert(a[l]@ == block(l)); } assert forall|i: int| i < n && #[trigger] put_at(calls, i, l) implies b[l]@ == calls[i]->Put_0 by {
                if i < n - 1 { assert(a[l]@ == calls[i]->Put_0); assert(a[l]@ == block(l)); } } }
            else { assert(!put_at(calls, n - 1, l)); }
            assert forall|x: L| b.contains_key(x) implies (#[trigger] b[x])@ == block(x) by { if x != k { assert(a[x]@ == block(x)); } }
            if b.contains_key(l) && l != k { let i = choose|i: int| i < n - 1 && #[trigger] put_at(calls, i, l); assert(put_at(calls, i, l)); }
        }
        _ => { assert(!put_at(calls, n - 1, l)); }
    }
}
/// C10: a get returns the bytes of every earlier put that returned this link, and nothing if there was none
pub proof fn lemma_reads_what_was_put<L>(max: int, calls: Seq<Call<L>>, st: Seq<Map<L, Block>>, n: int)
    requires history(max, calls, st), 0 <= n < calls.len(), calls[n] is Get
    ensures calls[n]->Get_1 is Some <==> exists|i: int| i < n && #[trigger] put_at(calls, i, calls[n]->Get_0),
        forall|i: int| i < n && #[trigger] put_at(calls, i, calls[n]->Get_0) ==> calls[n]->Get_1 == Some(calls[i]->Put_0)
{ lemma_history(max, calls, st, n, calls[n]->Get_0); assert(call_step(max, calls[n], st[n], st[n + 1])); }
}
verus! {
pub open spec fn view_of(r: Option<Block>) -> Option<Bytes> { match r { Some(b) => Some(b@), None => None } }
pub open spec fn ok_of<A>(r: Result<A>) -> Option<A> { match r { Ok(b) => Some(b), Err(_) => None } }
/// the same cache, or none
pub open spec fn cached_by<L>(a: Option<Cache<L>>, b: Option<Cache<L>>) -> bool { a == b }
}
verus! {
impl<L> Clone for Cache<L> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VxAsSlice<A> { spec fn sl(&self) -> Seq<A>; fn vx_as_slice(&self) -> (r: &[A]) ensures r@ == self.sl(); }
impl<A> VxAsSlice<A> for Vec<A> { open spec fn sl(&self) -> Seq<A> { self@ } fn vx_as_slice(&self) -> (r: &[A]) { self } }
pub trait VxMapErr<A>: Sized { spec fn me(self) -> Result<A>; fn vx_map_err<F: Fn(VxError) -> VxError>(self, f: F) -> (r: Result<A>) requires forall|e: VxError| call_requires(f, (e,)) ensures r is Ok == self.me() is Ok, r is Ok ==> r == self.me(); }
impl<A> VxMapErr<A> for Result<A> { open spec fn me(self) -> Result<A> { self } fn vx_map_err<F: Fn(VxError) -> VxError>(self, f: F) -> (r: Result<A>) { match self { Ok(a) => Ok(a), Err(e) => Err(f(e)) } } }
}
