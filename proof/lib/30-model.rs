verus! {
// ================================================================ outside of the repository: codec, cipher, compression, store
#[verifier::external_body] pub struct Instant { _p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
pub enum Ipld { Bytes(Vec<u8>), Other(u8) }
#[verifier::external_body] pub struct XChaCha20 { _p: u8 }
impl XChaCha20 {
    pub uninterp spec fn k(&self) -> Key;
    pub uninterp spec fn n(&self) -> XNonce;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn new(key: &Key, nonce: &XNonce) -> (r: Self) ensures r.k() == *key, r.n() == *nonce, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, pos: u64) ensures final(self).k() == old(self).k(), final(self).n() == old(self).n(), final(self).pos() == pos { unimplemented!() }
    #[verifier::external_body] pub fn apply_keystream(&mut self, data: &mut Vec<u8>)
        ensures final(self).k() == old(self).k(), final(self).n() == old(self).n(), final(self).pos() == old(self).pos() + old(data)@.len(),
            final(data)@ == xor(old(self).k(), old(self).n(), old(self).pos(), old(data)@)
    { unimplemented!() }
}

/// dag-cbor of a whole block: `undag` is what a block decodes to
pub trait Dag: Sized { type M; spec fn m(&self) -> Self::M; spec fn undag(b: Bytes) -> Option<Self::M>; }
#[derive(Clone, Copy)] pub struct DagCborCodec;
impl DagCborCodec {
    #[verifier::external_body] pub fn decode<A: Dag>(&self, b: &[u8]) -> (r: Result<A>)
        ensures (r is Ok) == (A::undag(b@) is Some), r is Ok ==> A::undag(b@) == Some(r->Ok_0.m())
    { unimplemented!() }
    #[verifier::external_body] pub fn encode<A: Encode<DagCborCodec>>(&self, a: &A) -> (r: Result<Vec<u8>>) ensures r is Ok ==> a.enc_ok(r->Ok_0@) && r->Ok_0@.len() <= isize::MAX { unimplemented!() }
}
pub uninterp spec fn tree_nonce<T: TreeTypes>() -> XNonce;
pub open spec fn readable<T: TreeTypes>(key: Key, l: T::Link) -> bool { avail(l) && contents(key, tree_nonce::<T>(), block(l)) is Some && raw(l).len() <= max_raw() }

pub trait ReadOnlyStore<L> {
    fn vx_get(&self, link: &L) -> (r: Result<Box<[u8]>>)
        ensures r is Ok ==> r->Ok_0@.len() <= isize::MAX, r is Ok ==> r->Ok_0@ == block(*link) && served(*link) || bad(r->Ok_0@), avail(*link) ==> r is Ok && r->Ok_0@ == block(*link);
}
pub trait BlockWriter<L> {
    /// everything that was handed to the store so far
    spec fn log(&self) -> Seq<Bytes>;
    fn put(&mut self, data: Vec<u8>) -> (r: Result<L>)
        ensures r is Ok ==> block(r->Ok_0) == data@ && known(r->Ok_0) && served(r->Ok_0) && final(self).log() == old(self).log().push(data@),
            r is Err ==> final(self).log() == old(self).log() || final(self).log() == old(self).log().push(data@);
}

// ================================================================ sequences of cbor items
/// length of the first cbor item of a non-empty byte string
pub uninterp spec fn cbor_first(b: Bytes) -> Option<int>;
pub axiom fn axiom_cbor_first(b: Bytes) ensures cbor_first(b) is Some ==> 0 < cbor_first(b).unwrap() <= b.len();
pub open spec fn cbor_items(b: Bytes) -> Option<Seq<Bytes>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) } else {
        match cbor_first(b) {
            Some(n) => if 0 < n <= b.len() { match cbor_items(b.skip(n)) { Some(r) => Some(seq![b.take(n)] + r), None => None } } else { None },
            None => None,
        }
    }
}
/// the first dag-cbor value of type A, and its length
pub uninterp spec fn dag_first<A>(b: Bytes) -> Option<(A, int)>;
pub open spec fn dag_seq<A>(b: Bytes) -> Option<Seq<A>> decreases b.len() {
    if b.len() == 0 { Some(Seq::empty()) } else {
        match dag_first::<A>(b) {
            Some((a, n)) => if 0 < n <= b.len() { match dag_seq::<A>(b.skip(n)) { Some(r) => Some(seq![a] + r), None => None } } else { None },
            None => None,
        }
    }
}
/// values of the user
pub trait ReadCbor: Sized { spec fn rd(b: Bytes) -> Option<Self>; fn read_cbor(c: &Cbor) -> (r: Result<Self>) ensures (r is Ok) == (Self::rd(c.bytes()) is Some), r is Ok ==> Self::rd(c.bytes()) == Some(r->Ok_0); }

// ================================================================ trees
pub open spec fn kids<T: TreeTypes>(l: T::Link) -> Option<Seq<Index<T>>> { dag_seq::<Index<T>>(raw(l)) }
pub open spec fn vals<L>(l: L) -> Option<Seq<Bytes>> { cbor_items(raw(l)) }
pub type Elem<K> = Option<(K, Bytes)>;
/// the events of a tree; None where they were purged
pub open spec fn elems<T: TreeTypes>(i: Index<T>) -> Seq<Elem<T::Key>> decreases i.level(), 1int, 0int {
    match i {
        Index::Leaf(x) => match x.link {
            Some(l) => Seq::new(x.keys.seq().len(), |j: int| Some((x.keys.seq()[j], vals(l).unwrap()[j]))),
            None => Seq::new(x.keys.seq().len(), |j: int| None),
        },
        Index::Branch(x) => match x.link {
            Some(l) => kid_elems(kids::<T>(l).unwrap(), x.level),
            None => Seq::new(x.count as nat, |j: int| None),
        },
    }
}
pub open spec fn kid_elems<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32) -> Seq<Elem<T::Key>> decreases lvl, 0int, s.len() {
    if s.len() == 0 { Seq::empty() } else { kid_elems(s.drop_last(), lvl) + (if s.last().level() < lvl { elems(s.last()) } else { Seq::empty() }) }
}
pub open spec fn all_elems<T: TreeTypes>(s: Seq<Index<T>>) -> Seq<Elem<T::Key>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_elems(s.drop_last()) + elems(s.last()) } }
pub open spec fn counts<T: TreeTypes>(s: Seq<Index<T>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { counts(s.drop_last()) + s.last().count() } }
pub open spec fn max_level() -> int { 0x7fff_fff0 }
pub open spec fn summs<T: TreeTypes>(s: Seq<Index<T>>) -> Seq<T::Summary> { Seq::new(s.len(), |j: int| s[j].summarize()) }
/// what a branch index says about its children
pub open spec fn branch_of<T: TreeTypes>(x: BranchIndex<T>, s: Seq<Index<T>>) -> bool {
    &&& s.len() > 0
    &&& x.count == counts(s)
    &&& x.summaries.seq() == summs(s)
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < x.level
    &&& exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).level() == x.level - 1
}
/// a tree as banyan writes it
pub open spec fn wf<T: TreeTypes>(i: Index<T>) -> bool decreases i.level() {
    match i {
        Index::Leaf(x) => x.keys.seq().len() > 0 && x.keys.seq().len() <= usize::MAX && match x.link { Some(l) => known(l) && vals(l) is Some && vals(l).unwrap().len() == x.keys.seq().len(), None => true },
        Index::Branch(x) => x.count > 0 && 0 < x.level <= max_level() && match x.link {
            Some(l) => known(l) && kids::<T>(l) is Some && branch_of(*x, kids::<T>(l).unwrap())
                && forall|j: int| 0 <= j < kids::<T>(l).unwrap().len() ==> (#[trigger] kids::<T>(l).unwrap()[j]).level() < x.level && wf(kids::<T>(l).unwrap()[j]),
            None => true,
        },
    }
}
pub open spec fn all_wf<T: TreeTypes>(s: Seq<Index<T>>) -> bool { forall|j: int| 0 <= j < s.len() ==> wf(#[trigger] s[j]) }

pub proof fn lemma_kid_elems<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32)
    requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < lvl
    ensures kid_elems(s, lvl) == all_elems(s) decreases s.len()
{ if s.len() > 0 { assert forall|j: int| 0 <= j < s.drop_last().len() implies (#[trigger] s.drop_last()[j]).level() < lvl by { assert(s.drop_last()[j] == s[j]); } lemma_kid_elems(s.drop_last(), lvl); } }
pub proof fn lemma_kids<T: TreeTypes>(i: Index<T>)
    requires wf(i), i is Branch, i.link() is Some
    ensures elems(i) == all_elems(kids::<T>(i.link().unwrap()).unwrap()), all_wf(kids::<T>(i.link().unwrap()).unwrap())
{ lemma_kid_elems(kids::<T>(i.link().unwrap()).unwrap(), i->Branch_0.level); }
pub proof fn lemma_all_elems_push<T: TreeTypes>(s: Seq<Index<T>>, i: Index<T>)
    ensures all_elems(s.push(i)) == all_elems(s) + elems(i), counts(s.push(i)) == counts(s) + i.count()
{ assert(s.push(i).drop_last() =~= s); }
pub proof fn lemma_all_elems_take<T: TreeTypes>(s: Seq<Index<T>>, k: int)
    requires 0 <= k < s.len()
    ensures all_elems(s.take(k + 1)) == all_elems(s.take(k)) + elems(s[k]), counts(s.take(k + 1)) == counts(s.take(k)) + s[k].count()
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_all_elems_push(s.take(k), s[k]);
}
pub proof fn lemma_all_elems_split<T: TreeTypes>(s: Seq<Index<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures all_elems(s) == all_elems(s.take(k)) + all_elems(s.skip(k)), counts(s) == counts(s.take(k)) + counts(s.skip(k))
    decreases s.len() - k
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        assert(s.skip(k) =~= Seq::empty());
        assert(all_elems(Seq::<Index<T>>::empty()) =~= Seq::empty());
        assert(all_elems(s) =~= all_elems(s.take(k)) + all_elems(s.skip(k)));
    } else {
        let p = s.drop_last();
        assert(s =~= p.push(s.last()));
        lemma_all_elems_push(p, s.last());
        lemma_all_elems_split(p, k);
        assert(p.take(k) =~= s.take(k));
        assert(s.skip(k) =~= p.skip(k).push(s.last()));
        lemma_all_elems_push(p.skip(k), s.last());
        assert(all_elems(s) =~= all_elems(s.take(k)) + all_elems(s.skip(k)));
    }
}
pub proof fn lemma_counts_mono<T: TreeTypes>(s: Seq<Index<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= counts(s.take(k)) <= counts(s), 0 <= counts(s)
    decreases s.len()
{
    if s.len() > 0 {
        if k == s.len() { assert(s.take(k) =~= s); lemma_counts_mono(s.drop_last(), 0); }
        else { assert(s.take(k) =~= s.drop_last().take(k)); lemma_counts_mono(s.drop_last(), k); }
    }
}
/// the number of events is the count of the index
pub proof fn lemma_len<T: TreeTypes>(i: Index<T>)
    requires wf(i)
    ensures elems(i).len() == i.count()
    decreases i.level(), 1int
{
    if i is Branch && i.link() is Some {
        lemma_kids(i);
        lemma_len_all(kids::<T>(i.link().unwrap()).unwrap(), i.level());
    }
}
pub proof fn lemma_len_all<T: TreeTypes>(s: Seq<Index<T>>, lvl: u32)
    requires all_wf(s), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < lvl
    ensures all_elems(s).len() == counts(s)
    decreases lvl, 0int, s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert(s =~= p.push(s.last()));
        assert forall|j: int| 0 <= j < p.len() implies wf(#[trigger] p[j]) && p[j].level() < lvl by { assert(p[j] == s[j]); }
        lemma_all_elems_push(p, s.last());
        lemma_len_all(p, lvl);
        lemma_len(s.last());
    }
}
} // verus!
verus! {
// ================================================================ reading a block
// derived
impl Clone for Secrets { fn clone(&self) -> (r: Self) ensures r == *self { Secrets { index_key: self.index_key.clone(), value_key: self.value_key.clone() } } }
impl Clone for ZstdDagCborSeq { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: TreeTypes> Clone for Branch<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: TreeTypes> Clone for BranchCache<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Dag for IpldNode {
    type M = Env;
    open spec fn m(&self) -> Env { Env { offset: self.0, links: self.1@, data: match self.2 { Ipld::Bytes(b) => Some(b@), Ipld::Other(_) => None } } }
    open spec fn undag(b: Bytes) -> Option<Env> { envelope(b) }
}
#[verifier::external_body] pub struct Cbor { _p: u8 }
impl Cbor {
    pub uninterp spec fn bytes(&self) -> Bytes;
    #[verifier::external_body] pub fn checked_prefix<'a>(b: &'a [u8]) -> (r: Result<(&'a Cbor, &'a [u8])>)
        ensures (r is Ok) == (cbor_first(b@) is Some),
            r is Ok ==> 0 < cbor_first(b@).unwrap() <= b@.len() && r->Ok_0.0.bytes() == b@.take(cbor_first(b@).unwrap()) && r->Ok_0.1@ == b@.skip(cbor_first(b@).unwrap())
    { unimplemented!() }
}
#[verifier::external_body] pub struct Cursor { _p: u8 }
impl Cursor {
    pub uninterp spec fn data(&self) -> Bytes;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn new(b: &&[u8]) -> (r: Cursor) ensures r.data() == b@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_position(&self) -> (r: u64) ensures r == self.pos() { unimplemented!() }
}
pub trait Decode<C>: Sized {
    fn decode(c: C, r: &mut Cursor) -> (a: Result<Self>)
        ensures final(r).data() == old(r).data(), (a is Ok) == (dag_first::<Self>(old(r).data().skip(old(r).pos())) is Some),
            a is Ok ==> ({ let x = dag_first::<Self>(old(r).data().skip(old(r).pos())).unwrap(); x.0 == a->Ok_0 && 0 < x.1 <= old(r).data().len() - old(r).pos() && final(r).pos() == old(r).pos() + x.1 });
}
impl<T: TreeTypes> Decode<DagCborCodec> for Index<T> { #[verifier::external_body] fn decode(c: DagCborCodec, r: &mut Cursor) -> (a: Result<Self>) { unimplemented!() } }
pub fn vx_u64(n: usize) -> (r: Result<u64>) ensures r is Ok, r->Ok_0 == n { Ok(n as u64) }
/// the i-th item, reading no further; None if what comes before does not parse
pub open spec fn cbor_nth(b: Bytes, i: int) -> Option<Option<Bytes>> decreases b.len() {
    if b.len() == 0 { Some(None) } else {
        match cbor_first(b) {
            Some(n) => if 0 < n <= b.len() { if i <= 0 { Some(Some(b.take(n))) } else { cbor_nth(b.skip(n), i - 1) } } else { None },
            None => None,
        }
    }
}
pub proof fn lemma_cbor_nth(b: Bytes, i: int)
    requires cbor_items(b) is Some, 0 <= i
    ensures cbor_nth(b, i) == Some(if i < cbor_items(b).unwrap().len() { Some(cbor_items(b).unwrap()[i]) } else { None })
    decreases b.len()
{
    if b.len() > 0 {
        let n = cbor_first(b).unwrap();
        let r = cbor_items(b.skip(n)).unwrap();
        assert(cbor_items(b) == Some(seq![b.take(n)] + r));
        if i > 0 { lemma_cbor_nth(b.skip(n), i - 1); }
    }
}
pub open spec fn reads<V: ReadCbor>(s: Seq<Bytes>) -> bool { forall|j: int| 0 <= j < s.len() ==> V::rd(#[trigger] s[j]) is Some }
pub open spec fn read_as<V: ReadCbor>(s: Seq<Bytes>, v: Seq<V>) -> bool { s.len() == v.len() && forall|j: int| #![trigger s[j]] #![trigger v[j]] 0 <= j < s.len() ==> V::rd(s[j]) == Some(v[j]) }
pub proof fn lemma_flats<A>(take: Seq<bool>, s: Seq<A>, t: Seq<Option<A>>, n: int)
    requires 0 <= n <= t.len(), n <= take.len(), n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] t[i] == (if take[i] { Some(s[i]) } else { None })
    ensures flats(t, n) == picks(take, s, n) decreases n
{ if n > 0 { lemma_flats(take, s, t, n - 1); assert(t[n - 1] == (if take[n - 1] { Some(s[n - 1]) } else { None })); } }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn lemma_picks_none<A>(take: Seq<bool>, s: Seq<A>, m: int, n: int)
    requires 0 <= m <= n <= take.len(), forall|i: int| m <= i < n ==> !take[i]
    ensures picks(take, s, n) == picks(take, s, m) decreases n
{ if n > m { lemma_picks_none(take, s, m, n - 1); } }
pub proof fn lemma_picks_prefix<A>(t1: Seq<bool>, t2: Seq<bool>, s1: Seq<A>, s2: Seq<A>, n: int)
    requires 0 <= n <= t1.len(), n <= t2.len(), n <= s1.len(), n <= s2.len(), forall|i: int| #![trigger t1[i]] #![trigger s1[i]] 0 <= i < n ==> t1[i] == t2[i] && s1[i] == s2[i]
    ensures picks(t1, s1, n) == picks(t2, s2, n) decreases n
{ if n > 0 { assert(t1[n - 1] == t2[n - 1]); lemma_picks_prefix(t1, t2, s1, s2, n - 1); } }
/// what a decoded branch says
pub open spec fn is_branch<T: TreeTypes>(l: T::Link, b: Branch<T>) -> bool {
    kids::<T>(l) == Some(b.children@) && b.children@.len() > 0 && opened(block(l)) is Some && b.byte_range.start == env_start(block(l)) && b.byte_range.end == env_end(block(l))
}
pub open spec fn is_leaf<L>(l: L, x: Leaf) -> bool {
    (unzip(x.items.data@) is Some ==> unzip(x.items.data@) == Some(raw(l)) && opened(block(l)) is Some && x.byte_range.start == env_start(block(l)) && x.byte_range.end == env_end(block(l)))
}
// ---------------------------------------------------------------- caches: entries are what the store has
#[verifier::external_body] #[verifier::accept_recursive_types(L)] #[verifier::accept_recursive_types(B)] pub struct WeightCache<L, B> { _p: PhantomData<(L, B)> }
pub trait CacheEntry<L> { spec fn entry(&self, l: L) -> bool; }
impl<T: TreeTypes> CacheEntry<T::Link> for Branch<T> { open spec fn entry(&self, l: T::Link) -> bool { is_branch(l, *self) } }
impl<L, B: CacheEntry<L>> WeightCache<L, B> {
    #[verifier::external_body] pub fn new(capacity: NonZeroUsize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_get(&self, l: &L) -> (r: Option<&B>) ensures r is Some ==> r.unwrap().entry(*l) { unimplemented!() }
    #[verifier::external_body] pub fn put(&self, l: L, b: B) -> (r: Result<()>) requires b.entry(l) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct Mutex<A> { _p: PhantomData<A> }
impl<A> Mutex<A> { #[verifier::external_body] pub fn vx_lock(&self) -> &A { unimplemented!() } }
/// what holds behind a lock whenever nobody holds it
pub trait Protected { spec fn inv(&self) -> bool; }
impl<L, B> Protected for WeightCache<L, B> { open spec fn inv(&self) -> bool { true } }
/// what is behind a lock went from one state to another while it was held
pub uninterp spec fn transition<A>(m: Mutex<A>, a: A, b: A) -> bool;
pub struct MutexGuard<'a, A> { pub g: A, pub pre: Ghost<A>, pub m: Ghost<Mutex<A>>, pub p: PhantomData<&'a A> }
impl<A: Protected> Mutex<A> {
    #[verifier::external_body] pub fn new(a: A) -> (r: Self) requires a.inv() { unimplemented!() }
    #[verifier::external_body] pub fn vx_guard(&self) -> (r: MutexGuard<'_, A>) ensures r.g.inv(), r.pre@ == r.g, r.m@ == *self { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: A) ensures r.inv(), transition(self, r, r) { unimplemented!() }
}
impl<'a, A: Protected> MutexGuard<'a, A> { #[verifier::external_body] pub fn vx_drop(self) requires self.g.inv() ensures transition(self.m@, self.pre@, self.g) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct NonZeroUsize { pub v: usize }
impl NonZeroUsize { #[verifier::external_body] pub fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures r is None <==> v == 0, r is Some ==> r.unwrap().v == v { unimplemented!() } }
pub trait AsRef<A> { spec fn ar(&self) -> &A; fn vx_as_ref(&self) -> (r: &A) ensures *r == *self.ar(); }
pub open spec fn nth_is<V: ReadCbor>(b: Option<Bytes>, v: Option<V>) -> bool { match b { Some(x) => v is Some && V::rd(x) == v, None => v is None } }
pub open spec fn nth_ok<V: ReadCbor>(b: Option<Option<Bytes>>) -> bool { b is Some && (b.unwrap() is Some ==> V::rd(b.unwrap().unwrap()) is Some) }
/// a frame that can be decompressed within the limit
pub open spec fn decodes(z: Bytes) -> bool { unzip(z) is Some && unzip(z).unwrap().len() <= max_raw() }
pub open spec fn readable_branch<T: TreeTypes>(key: Key, l: T::Link) -> bool { readable::<T>(key, l) && kids::<T>(l) is Some && kids::<T>(l).unwrap().len() > 0 }
}
