verus! {
// ================================================================ writing a block
pub open spec fn cat(s: Seq<Bytes>) -> Bytes decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
pub proof fn lemma_cat_push(s: Seq<Bytes>, b: Bytes) ensures cat(s.push(b)) == cat(s) + b { assert(s.push(b).drop_last() =~= s); }
pub proof fn lemma_cat_first(s: Seq<Bytes>) requires s.len() > 0 ensures cat(s) == s[0] + cat(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.skip(1) =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); assert(cat(s) =~= s[0] + cat(s.skip(1))); }
    else {
        lemma_cat_first(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(cat(s) =~= s[0] + cat(s.skip(1)));
    }
}
/// the first item does not depend on what follows it
pub axiom fn axiom_cbor_prefix(b: Bytes, rest: Bytes) ensures cbor_first(b) is Some ==> cbor_first(b + rest) == cbor_first(b);

pub trait WriteCbor {
    spec fn wr(&self) -> Bytes;
    /// one complete item
    proof fn law_wr(&self, rest: Bytes) ensures self.wr().len() > 0, cbor_first(self.wr() + rest) == Some(self.wr().len() as int);
    fn write_cbor(&self, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + self.wr(), final(out)@.len() <= isize::MAX;
}
pub struct CborBuilder {}
impl CborBuilder { pub fn append_to(v: &mut Vec<u8>) -> (r: &mut Vec<u8>) ensures *r == *old(v), *final(r) == *final(v) { v } }
/// zstd's block decompressor
#[verifier::external_body] pub struct Decompressor { _p: u8 }
impl Decompressor {
    #[verifier::external_body] pub fn new() -> Decompressor { unimplemented!() }
    #[verifier::external_body] pub fn upper_bound(b: &[u8]) -> (r: Option<usize>) ensures r is Some && unzip(b@) is Some ==> unzip(b@).unwrap().len() <= r.unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn decompress_to_buffer(&mut self, b: &[u8], out: &mut [u8]) -> (r: Result<usize>)
        ensures final(out)@.len() == old(out)@.len(), r is Ok ==> unzip(b@) is Some && r->Ok_0 == unzip(b@).unwrap().len() && r->Ok_0 <= final(out)@.len() && final(out)@.take(r->Ok_0 as int) == unzip(b@).unwrap(),
            unzip(b@) is Some && unzip(b@).unwrap().len() <= old(out)@.len() ==> r is Ok
    { unimplemented!() }
}
pub trait VxAllMut { fn vx_all_mut(&mut self) -> (r: &mut [u8]); }
impl VxAllMut for Vec<u8> { #[verifier::external_body] fn vx_all_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self)@, final(r)@.len() == r@.len() ==> final(self)@ == final(r)@ { unimplemented!() } }
/// decompress_and_transform without the transformation
#[verifier::external_body] pub fn vx_half_decompress_and_transform<'a>(compressed: &'a [u8]) -> (r: Result<(usize, &'a [u8])>)
    ensures r is Ok ==> unzip(compressed@) == Some(r->Ok_0.1@) && r->Ok_0.0 == r->Ok_0.1@.len() && r->Ok_0.1@.len() <= max_raw(),
        unzip(compressed@) is Some && unzip(compressed@).unwrap().len() <= max_raw() ==> r is Ok
{ unimplemented!() }
pub trait BanyanValue: ReadCbor + WriteCbor { proof fn law_rw(&self) ensures Self::rd(self.wr()) == Some(*self); }
pub trait Encode<C>: Sized { spec fn enc_ok(&self, b: Bytes) -> bool; }
impl Encode<DagCborCodec> for IpldNode { open spec fn enc_ok(&self, b: Bytes) -> bool { envelope(b) == Some(self.m()) } }
impl<T: TreeTypes> Encode<DagCborCodec> for Index<T> {
    open spec fn enc_ok(&self, b: Bytes) -> bool { b.len() > 0 && forall|rest: Bytes| #[trigger] dag_first::<Index<T>>(b + rest) == Some((*self, b.len() as int)) }
}
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct BTreeSet<A> { _p: PhantomData<A> }
impl<A> View for BTreeSet<A> { type V = Set<A>; uninterp spec fn view(&self) -> Set<A>; }
impl<A> BTreeSet<A> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<A>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_into_iter(self) -> (r: It<A>) ensures r@.to_set() == self@, r@.no_duplicates() { unimplemented!() }
}
pub trait Extend<A> { spec fn es(&self) -> Set<A>; fn vx_extend(&mut self, a: [A; 1]) ensures final(self).es() == old(self).es().insert(a@[0]); }
impl<A> Extend<A> for BTreeSet<A> { open spec fn es(&self) -> Set<A> { self@ } #[verifier::external_body] fn vx_extend(&mut self, a: [A; 1]) { unimplemented!() } }
/// the links in a sequence of items
/// the simple items (no array, no map) in an item, at any depth: tag, if it is the only one, and the bytes of a byte string
pub struct Simple { pub tag: Option<u64>, pub bytes: Option<Bytes> }
pub uninterp spec fn simples(b: Bytes) -> Seq<Simple>;
/// a simple item that is a link: tag 42, a zero, the bytes of the link
pub open spec fn is_link(x: Simple) -> bool { x.tag == Some(42u64) && x.bytes is Some }
pub uninterp spec fn cid_of(b: Bytes) -> Option<Cid>;
pub open spec fn good_link(x: Simple) -> bool { is_link(x) ==> x.bytes.unwrap().len() > 0 && x.bytes.unwrap()[0] == 0 && cid_of(x.bytes.unwrap().skip(1)) is Some }
pub open spec fn simple_links(s: Seq<Simple>) -> Set<Cid> decreases s.len() {
    if s.len() == 0 { Set::empty() } else {
        let r = simple_links(s.drop_last());
        if is_link(s.last()) { r.insert(cid_of(s.last().bytes.unwrap().skip(1)).unwrap()) } else { r }
    }
}
pub open spec fn item_links(b: Bytes) -> Set<Cid> { simple_links(simples(b)) }
pub open spec fn links_ok(b: Bytes) -> bool { forall|j: int| 0 <= j < simples(b).len() ==> good_link(#[trigger] simples(b)[j]) }
#[verifier::external_body] pub struct TaggedItem<'a> { _p: &'a u8 }
#[verifier::external_body] pub struct Tags<'a> { _p: &'a u8 }
#[verifier::external_body] pub struct CborBytes<'a> { _p: &'a u8 }
pub enum ItemKind<'a> { Bytes(CborBytes<'a>), Other }
impl<'a> TaggedItem<'a> {
    pub uninterp spec fn m(&self) -> Simple;
    #[verifier::external_body] pub fn tags(&self) -> (r: Tags<'a>) ensures r.one() == self.m().tag { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: ItemKind<'a>) ensures (r is Bytes) == (self.m().bytes is Some), r is Bytes ==> r->Bytes_0.m() == self.m().bytes.unwrap() { unimplemented!() }
}
impl<'a> Tags<'a> { pub uninterp spec fn one(&self) -> Option<u64>; #[verifier::external_body] pub fn single(&self) -> (r: Option<u64>) ensures r == self.one() { unimplemented!() } }
impl<'a> CborBytes<'a> { pub uninterp spec fn m(&self) -> Bytes; #[verifier::external_body] pub fn as_cow(&self) -> (r: Vec<u8>) ensures r@ == self.m() { unimplemented!() } }
impl Cid { #[verifier::external_body] pub fn read_bytes(b: &[u8]) -> (r: Result<Cid>) ensures (r is Ok) == (cid_of(b@) is Some), r is Ok ==> r->Ok_0 == cid_of(b@).unwrap() { unimplemented!() } }
pub type Error = VxError;
pub enum ErrorKind { Other }
impl VxError {
    #[allow(non_snake_case)] #[verifier::external_body] pub fn Io(e: VxError) -> VxError { unimplemented!() }
    #[verifier::external_body] pub fn new(k: ErrorKind, s: String) -> VxError { unimplemented!() }
}
/// visits the simple items of an item in turn, until one is refused
pub trait Visitor<'a, E>: Sized {
    spec fn acc(&self) -> Set<Cid>;
    fn visit_simple(&mut self, item: TaggedItem<'a>) -> (r: Result<(), E>)
        ensures (r is Ok) == good_link(item.m()), r is Ok ==> final(self).acc() == old(self).acc().union(simple_links(seq![item.m()])), Self::same_visitor(*old(self), *final(self));
    /// still the same visitor
    #[verifier::prophetic] spec fn same_visitor(a: Self, b: Self) -> bool;
}
impl Cbor {
    #[verifier::external_body] pub fn visit<'a, E, V: Visitor<'a, E>>(&'a self, v: &mut V) -> (r: Result<(), E>)
        ensures (r is Ok) == links_ok(self.bytes()), r is Ok ==> final(v).acc() == old(v).acc().union(item_links(self.bytes())), V::same_visitor(*old(v), *final(v))
    { unimplemented!() }
}
pub open spec fn all_links(s: Seq<Bytes>) -> Set<Cid> decreases s.len() { if s.len() == 0 { Set::empty() } else { all_links(s.drop_last()).union(item_links(s.last())) } }
pub open spec fn links_of(b: Bytes) -> Set<Cid> { match cbor_items(b) { Some(s) => all_links(s), None => Set::empty() } }
pub proof fn lemma_all_links(a: Seq<Bytes>, b: Seq<Bytes>) ensures all_links(a + b) == all_links(a).union(all_links(b)) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(all_links(a).union(Set::empty()) =~= all_links(a)); }
    else {
        lemma_all_links(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(all_links(a + b) =~= all_links(a).union(all_links(b)));
    }
}
pub proof fn lemma_cbor_concat(b: Bytes, w: Bytes)
    requires cbor_items(b) is Some, cbor_items(w) is Some
    ensures cbor_items(b + w) == Some(cbor_items(b).unwrap() + cbor_items(w).unwrap()), links_of(b + w) == links_of(b).union(links_of(w))
    decreases b.len()
{
    if b.len() == 0 {
        assert(b + w =~= w);
        assert(cbor_items(b).unwrap() + cbor_items(w).unwrap() =~= cbor_items(w).unwrap());
    } else {
        let n = cbor_first(b).unwrap();
        axiom_cbor_prefix(b, w);
        lemma_cbor_concat(b.skip(n), w);
        assert((b + w).skip(n) =~= b.skip(n) + w);
        assert((b + w).take(n) =~= b.take(n));
        let r = cbor_items(b.skip(n)).unwrap();
        assert(seq![b.take(n)] + (r + cbor_items(w).unwrap()) =~= (seq![b.take(n)] + r) + cbor_items(w).unwrap());
    }
    lemma_all_links(cbor_items(b).unwrap(), cbor_items(w).unwrap());
}
/// what is written is one item
pub proof fn lemma_one_item<V: WriteCbor>(v: &V)
    ensures cbor_items(v.wr()) == Some(seq![v.wr()]), v.wr().len() > 0, cbor_first(v.wr()) == Some(v.wr().len() as int)
{
    let w = v.wr();
    v.law_wr(Seq::empty());
    assert(w + Seq::<u8>::empty() =~= w);
    assert(w.skip(w.len() as int) =~= Seq::empty());
    assert(w.take(w.len() as int) =~= w);
    assert(cbor_items(Seq::<u8>::empty()) == Some(Seq::<Bytes>::empty()));
    assert(seq![w] + Seq::<Bytes>::empty() =~= seq![w]);
}
#[verifier::external_body] pub struct Encoder { _p: u8 }
impl Encoder {
    pub uninterp spec fn written(&self) -> Bytes;
    pub uninterp spec fn sink(&self) -> Bytes;
    #[verifier::external_body] pub fn new(v: Vec<u8>, level: i32) -> (r: Result<Encoder>) ensures r is Ok ==> r->Ok_0.written() == Seq::<u8>::empty() && r->Ok_0.sink() == v@ { unimplemented!() }
    /// that less than 2^63 bytes are written in total is assumed
    #[verifier::external_body] pub fn vx_write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).written() == old(self).written() + b@ && final(self).written().len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.sink() { unimplemented!() }
    #[verifier::external_body] pub fn vx_finish(self) -> (r: Result<Vec<u8>>) ensures r is Ok ==> unzip(r->Ok_0@) == Some(self.written()) && r->Ok_0@.len() >= self.sink().len() { unimplemented!() }
}
pub open spec fn cap() -> int { 16 * 1024 * 1024int }

pub proof fn lemma_dag_cat<T: TreeTypes>(items: Seq<Index<T>>, encs: Seq<Bytes>)
    requires items.len() == encs.len(), forall|j: int| 0 <= j < encs.len() ==> items[j].enc_ok(#[trigger] encs[j])
    ensures dag_seq::<Index<T>>(cat(encs)) == Some(items)
    decreases encs.len()
{
    if encs.len() == 0 { assert(items =~= Seq::empty()); } else {
        lemma_cat_first(encs);
        let rest = cat(encs.skip(1));
        let b = cat(encs);
        assert(items[0].enc_ok(encs[0]));
        assert(b == encs[0] + rest);
        assert(dag_first::<Index<T>>(encs[0] + rest) == Some((items[0], encs[0].len() as int)));
        assert(b.skip(encs[0].len() as int) =~= rest);
        assert forall|j: int| 0 <= j < encs.skip(1).len() implies items.skip(1)[j].enc_ok(#[trigger] encs.skip(1)[j]) by { assert(items[j + 1].enc_ok(encs[j + 1])); }
        lemma_dag_cat(items.skip(1), encs.skip(1));
        assert(seq![items[0]] + items.skip(1) =~= items);
    }
}
pub proof fn lemma_cbor_push(b: Bytes, w: Bytes)
    requires cbor_items(b) is Some, w.len() > 0, cbor_first(w + Seq::empty()) == Some(w.len() as int)
    ensures cbor_items(b + w) == Some(cbor_items(b).unwrap().push(w))
    decreases b.len()
{
    assert(w + Seq::empty() =~= w);
    if b.len() == 0 {
        assert(b + w =~= w);
        assert(w.skip(w.len() as int) =~= Seq::empty());
        assert(w.take(w.len() as int) =~= w);
        assert(cbor_items(Seq::<u8>::empty()) == Some(Seq::<Bytes>::empty()));
        assert(seq![w] + Seq::<Bytes>::empty() =~= Seq::<Bytes>::empty().push(w));
        assert(cbor_items(b).unwrap() =~= Seq::<Bytes>::empty());
    } else {
        let n = cbor_first(b).unwrap();
        axiom_cbor_prefix(b, w);
        lemma_cbor_push(b.skip(n), w);
        assert((b + w).skip(n) =~= b.skip(n) + w);
        assert((b + w).take(n) =~= b.take(n));
        let r = cbor_items(b.skip(n)).unwrap();
        assert(seq![b.take(n)] + r.push(w) =~= (seq![b.take(n)] + r).push(w));
    }
}

// ================================================================ taking from an iterator
pub open spec fn taken<A>(a: Seq<A>, b: Seq<A>) -> Seq<A> { a.take(a.len() - b.len()) }
pub open spec fn firsts<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |j: int| s[j].0) }
pub open spec fn wrs<K, V: WriteCbor>(s: Seq<(K, V)>) -> Seq<Bytes> { Seq::new(s.len(), |j: int| s[j].1.wr()) }
pub proof fn lemma_take_one<K, V: WriteCbor>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires suffix(a, b), b.len() > 0
    ensures suffix(a, b.skip(1)), taken(a, b.skip(1)) == taken(a, b).push(b[0]), cat(wrs(taken(a, b.skip(1)))) == cat(wrs(taken(a, b))) + b[0].1.wr(), firsts(taken(a, b.skip(1))) == firsts(taken(a, b)).push(b[0].0)
{
    let n = a.len() - b.len();
    assert(b =~= a.skip(n));
    assert(b.skip(1) =~= a.skip(n + 1));
    assert(taken(a, b.skip(1)) =~= taken(a, b).push(b[0]));
    assert(wrs(taken(a, b.skip(1))) =~= wrs(taken(a, b)).push(b[0].1.wr()));
    assert(firsts(taken(a, b.skip(1))) =~= firsts(taken(a, b)).push(b[0].0));
    lemma_cat_push(wrs(taken(a, b)), b[0].1.wr());
}
pub open spec fn added<K, V: WriteCbor>(s: Seq<(K, V)>) -> Seq<Elem<K>> { Seq::new(s.len(), |j: int| Some((s[j].0, s[j].1.wr()))) }
pub proof fn lemma_taken<K, V: WriteCbor>(a: Seq<(K, V)>, b: Seq<(K, V)>, c: Seq<(K, V)>)
    requires suffix(a, b), suffix(b, c)
    ensures suffix(a, c), added(taken(a, c)) == added(taken(a, b)) + added(taken(b, c)), added(taken(a, a)) == Seq::<Elem<K>>::empty()
{
    assert(c =~= a.skip(a.len() - c.len()));
    assert(added(taken(a, c)) =~= added(taken(a, b)) + added(taken(b, c)));
    assert(added(taken(a, a)) =~= Seq::<Elem<K>>::empty());
}

// ================================================================ a step of a transaction
/// what was written under the streams positions, and nothing else changed
pub open spec fn moved<T: TreeTypes, R, W: BlockWriter<T::Link>>(t0: Transaction<T, R, W>, s0: StreamBuilderState, t1: Transaction<T, R, W>, s1: StreamBuilderState) -> bool {
    &&& t1.read == t0.read
    &&& s1.config == s0.config
    &&& s1.secrets == s0.secrets
    &&& steps(St { log: t0.writer.log(), off: s0.offset.value as int }, St { log: t1.writer.log(), off: s1.offset.value as int })
}
/// the block of this node is the last one that was written
pub open spec fn newest<T: TreeTypes>(i: Index<T>, s: StreamBuilderState) -> bool { i.link() is Some ==> env_end(block(i.link().unwrap())) == s.offset.value }
/// nothing was written
pub open spec fn unmoved<T: TreeTypes>(i: Index<T>, s: StreamBuilderState, i0: Index<T>, s0: StreamBuilderState) -> bool { i == i0 && s.offset.value == s0.offset.value }
pub open spec fn cfg_ok(c: Config) -> bool { c.max_leaf_count > 0 && c.max_key_branches > 0 && c.max_summary_branches > 1 && c.max_uncompressed_leaf_size <= max_raw() }

// ================================================================ what else is true of every node of a tree
pub enum Aspect { Keys(Secrets), Limits(Config), Intact, Linked, Served, Avail(Secrets), Before(int) }
pub open spec fn lim(c: Config, level: u32) -> usize { if level == 1 { c.max_key_branches } else { c.max_summary_branches } }
pub open spec fn under_key<T: TreeTypes>(key: Key, l: T::Link) -> bool { contents(key, tree_nonce::<T>(), block(l)) is Some && raw(l).len() <= max_raw() }
pub open spec fn node_ok<T: TreeTypes>(a: Aspect, i: Index<T>) -> bool {
    match a {
        // can be decoded with these secrets
        Aspect::Keys(s) => i.link() is Some ==> under_key::<T>(if i is Leaf { s.value_key } else { s.index_key }, i.link().unwrap()),
        // respects the limits, and is sealed exactly if it is full
        Aspect::Limits(c) => match i {
            Index::Leaf(x) => x.keys.seq().len() <= c.max_leaf_count,
            Index::Branch(x) => x.link is Some ==> kids::<T>(x.link.unwrap()).unwrap().len() <= lim(c, x.level) && x.sealed == seal(c, kids::<T>(x.link.unwrap()).unwrap(), x.level),
        },
        // only complete nodes are purged, and the children of complete nodes are complete
        Aspect::Intact => {
            &&& !i.sealed() ==> i.link() is Some
            &&& i is Branch && i.link() is Some && i.sealed() ==> forall|j: int| 0 <= j < kids::<T>(i.link().unwrap()).unwrap().len() ==> (#[trigger] kids::<T>(i.link().unwrap()).unwrap()[j]).sealed()
        },
        // nothing is purged
        Aspect::Linked => i.link() is Some,
        // the store had it
        Aspect::Served => i.link() is Some ==> served(i.link().unwrap()),
        // uses no keystream position from n on
        Aspect::Before(n) => i.link() is Some ==> env_end(block(i.link().unwrap())) <= n,
        // it can be read
        Aspect::Avail(s) => i.link() is Some ==> readable::<T>(if i is Leaf { s.value_key } else { s.index_key }, i.link().unwrap()),
    }
}
pub open spec fn good<T: TreeTypes>(a: Aspect, i: Index<T>) -> bool decreases i.level() {
    node_ok(a, i) && (i is Branch && i.link() is Some ==> forall|j: int| 0 <= j < kids::<T>(i.link().unwrap()).unwrap().len() ==> (#[trigger] kids::<T>(i.link().unwrap()).unwrap()[j]).level() < i.level() && good(a, kids::<T>(i.link().unwrap()).unwrap()[j]))
}
pub open spec fn goods<T: TreeTypes>(a: Aspect, s: Seq<Index<T>>) -> bool { forall|j: int| 0 <= j < s.len() ==> good(a, #[trigger] s[j]) }
/// the aspects that an operation which ends in this state keeps
pub open spec fn keeps(a: Aspect, st: StreamBuilderState) -> bool { match a { Aspect::Keys(s) => s == st.secrets, Aspect::Limits(c) => c == st.config, Aspect::Intact | Aspect::Linked | Aspect::Served => true, Aspect::Avail(_) => false, Aspect::Before(n) => st.offset.value <= n } }

/// only the right edge is incomplete
pub open spec fn packed<T: TreeTypes>(i: Index<T>) -> bool decreases i.level() {
    i.sealed() || (i.link() is Some && (i is Branch ==> ({
        let s = kids::<T>(i.link().unwrap()).unwrap();
        &&& s.len() > 0
        &&& left_full(s, i.level())
        &&& s.last().level() < i.level() && packed(s.last())
    })))
}
/// all but the last are complete and one level below
pub open spec fn left_full<T: TreeTypes>(s: Seq<Index<T>>, level: u32) -> bool { forall|j: int| 0 <= j < s.len() - 1 ==> (#[trigger] s[j]).sealed() && s[j].level() == level - 1 }
pub open spec fn all_full<T: TreeTypes>(s: Seq<Index<T>>, level: u32) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).sealed() && s[j].level() == level - 1 }
pub open spec fn bx<T: TreeTypes>(x: BranchIndex<T>) -> Index<T> { Index::Branch(Arc::new(x)) }
pub open spec fn lx<T: TreeTypes>(x: LeafIndex<T>) -> Index<T> { Index::Leaf(Arc::new(x)) }
pub open spec fn opt_keys<T: TreeTypes>(k: Option<T::KeySeq>) -> Seq<T::Key> { match k { Some(k) => k.seq(), None => Seq::empty() } }
/// the events of a leaf
pub open spec fn leaf_elems<K>(keys: Seq<K>, vals: Seq<Bytes>) -> Seq<Elem<K>> { Seq::new(keys.len(), |j: int| Some((keys[j], vals[j]))) }
}
verus! {
pub proof fn lemma_sum_counts<T: TreeTypes>(s: Seq<Index<T>>, c: Seq<int>)
    requires c.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] c[j] == s[j].count()
    ensures counts(s) == sum_ints(c) decreases s.len()
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies #[trigger] c.drop_last()[j] == s.drop_last()[j].count() by { assert(c[j] == s[j].count()); }
        lemma_sum_counts(s.drop_last(), c.drop_last());
        assert(c[s.len() - 1] == s[s.len() - 1].count());
    }
}
pub proof fn lemma_counts_pos<T: TreeTypes>(s: Seq<Index<T>>)
    requires all_wf(s), s.len() > 0
    ensures counts(s) > 0
{
    lemma_counts_mono(s, s.len() - 1);
    assert(wf(s.last()));
    assert(s.take(s.len() - 1) =~= s.drop_last());
}
/// a new branch over children that are well formed
pub proof fn lemma_new_branch<T: TreeTypes>(x: BranchIndex<T>, s: Seq<Index<T>>)
    requires s.len() > 0, all_wf(s), x.link is Some, kids::<T>(x.link.unwrap()) == Some(s), known(x.link.unwrap()), branch_of(x, s), 0 < x.level <= max_level()
    ensures wf(bx(x)), elems(bx(x)) == all_elems(s)
{
    lemma_counts_pos(s);
    lemma_kid_elems(s, x.level);
}
pub proof fn lemma_good<T: TreeTypes>(x: BranchIndex<T>, s: Seq<Index<T>>, st: StreamBuilderState)
    requires x.link is Some, kids::<T>(x.link.unwrap()) == Some(s), under_key::<T>(st.secrets.index_key, x.link.unwrap()), served(x.link.unwrap()), newest(bx(x), st), x.sealed == seal(st.config, s, x.level), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < x.level
    ensures forall|a: Aspect| keeps(a, st) && goods(a, s) && (a is Limits ==> s.len() <= lim(st.config, x.level)) ==> #[trigger] good(a, bx(x))
{
    assert forall|a: Aspect| keeps(a, st) && goods(a, s) && (a is Limits ==> s.len() <= lim(st.config, x.level)) implies #[trigger] good(a, bx(x)) by { assert(node_ok(a, bx(x))); }
}
}
verus! {
pub proof fn lemma_cbor_cat<K, V: WriteCbor>(b: Bytes, t: Seq<(K, V)>)
    requires cbor_items(b) is Some
    ensures cbor_items(b + cat(wrs(t))) == Some(cbor_items(b).unwrap() + wrs(t))
    decreases t.len()
{
    if t.len() == 0 {
        assert(b + cat(wrs(t)) =~= b);
        assert(cbor_items(b).unwrap() + wrs(t) =~= cbor_items(b).unwrap());
    } else {
        let p = t.drop_last();
        lemma_cbor_cat(b, p);
        let w = t.last().1.wr();
        assert(wrs(t).drop_last() =~= wrs(p));
        t.last().1.law_wr(Seq::empty());
        lemma_cbor_push(b + cat(wrs(p)), w);
        assert(b + cat(wrs(t)) =~= (b + cat(wrs(p))) + w);
        assert((cbor_items(b).unwrap() + wrs(p)).push(w) =~= cbor_items(b).unwrap() + wrs(t));
    }
}
pub open spec fn zlen(z: Bytes) -> int { unzip(z).unwrap().len() as int }
/// what filling a block does: takes from the front, keeps what is there, says if it is full
pub open spec fn filled<K, V: WriteCbor>(old_z: Bytes, old_keys: Seq<K>, from0: Seq<(K, V)>, z: Bytes, keys: Seq<K>, from1: Seq<(K, V)>, target: int, max_bytes: int, max_keys: int, full: bool) -> bool {
    let t = taken(from0, from1);
    &&& unzip(old_z) is Some && zlen(old_z) <= max_raw()
    &&& unzip(z) == Some(unzip(old_z).unwrap() + cat(wrs(t)))
    &&& keys == old_keys + firsts(t)
    &&& t.len() > 0 ==> zlen(z) <= max_bytes && keys.len() <= max_keys
    &&& t.len() == 0 && from0.len() > 0 ==> keys.len() >= max_keys || from0[0].1.wr().len() <= max_bytes && zlen(z) + from0[0].1.wr().len() > max_bytes
    &&& full == (z.len() >= target || keys.len() >= max_keys || zlen(z) >= max_bytes || from1.len() > 0 && zlen(z) + from1[0].1.wr().len() > max_bytes)
    &&& from1.len() > 0 ==> full
}
pub open spec fn wrs1<V: WriteCbor>(s: Seq<&V>) -> Seq<Bytes> { Seq::new(s.len(), |j: int| s[j].wr()) }
pub proof fn lemma_no_items() ensures cat(Seq::empty()) == Seq::<u8>::empty(), cbor_items(Seq::<u8>::empty()) == Some(Seq::<Bytes>::empty()), all_links(Seq::empty()) == Set::<Cid>::empty(), links_of(Seq::empty()) == Set::<Cid>::empty() {}
/// the same for values of which an encoding is known only as a relation
pub open spec fn filled_ipld<K, V: Encode<DagCborCodec>>(old_z: Bytes, old_keys: Seq<K>, from0: Seq<(K, V)>, z: Bytes, keys: Seq<K>, from1: Seq<(K, V)>, target: int, max_bytes: int, max_keys: int, full: bool, encs: Seq<Bytes>) -> bool {
    let t = taken(from0, from1);
    &&& encs.len() == t.len() && encoded_as(t, encs)
    &&& unzip(old_z) is Some && zlen(old_z) <= max_raw()
    &&& unzip(z) == Some(unzip(old_z).unwrap() + cat(encs))
    &&& keys == old_keys + firsts(t)
    &&& t.len() > 0 ==> zlen(z) <= max_bytes && keys.len() <= max_keys
    &&& t.len() == 0 && from0.len() > 0 ==> keys.len() >= max_keys || too_big(from0[0].1, max_bytes - zlen(z))
    &&& z.len() >= target || keys.len() >= max_keys || zlen(z) >= max_bytes ==> full
    &&& full ==> z.len() >= target || keys.len() >= max_keys || zlen(z) >= max_bytes || from1.len() > 0 && too_big(from1[0].1, max_bytes - zlen(z))
    &&& from1.len() > 0 ==> full
}
pub open spec fn encoded_as<K, V: Encode<DagCborCodec>>(t: Seq<(K, V)>, encs: Seq<Bytes>) -> bool { forall|j: int| 0 <= j < encs.len() ==> t[j].1.enc_ok(#[trigger] encs[j]) }
pub open spec fn too_big<V: Encode<DagCborCodec>>(v: V, room: int) -> bool { exists|e: Bytes| #[trigger] v.enc_ok(e) && e.len() > room }
pub proof fn lemma_take_item<K, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    requires suffix(a, b), b.len() > 0
    ensures suffix(a, b.skip(1)), taken(a, b.skip(1)) == taken(a, b).push(b[0]), firsts(taken(a, b.skip(1))) == firsts(taken(a, b)).push(b[0].0)
{
    let n = a.len() - b.len();
    assert(b =~= a.skip(n));
    assert(b.skip(1) =~= a.skip(n + 1));
    assert(taken(a, b.skip(1)) =~= taken(a, b).push(b[0]));
    assert(firsts(taken(a, b.skip(1))) =~= firsts(taken(a, b)).push(b[0].0));
}
/// a leaf that was filled
pub proof fn lemma_leaf<T: TreeTypes, V: WriteCbor>(x: LeafIndex<T>, b0: Bytes, keys0: Seq<T::Key>, t: Seq<(T::Key, V)>)
    requires x.link is Some, known(x.link.unwrap()), cbor_items(b0) is Some, cbor_items(b0).unwrap().len() == keys0.len(), raw(x.link.unwrap()) == b0 + cat(wrs(t)),
        x.keys.seq() == keys0 + firsts(t), 0 < x.keys.seq().len() <= usize::MAX
    ensures wf(lx(x)), elems(lx(x)) == leaf_elems(keys0, cbor_items(b0).unwrap()) + added(t)
{
    lemma_cbor_cat(b0, t);
    assert(elems(lx(x)) =~= leaf_elems(keys0, cbor_items(b0).unwrap()) + added(t));
}
}
verus! {
pub open spec fn has_level<T: TreeTypes>(s: Seq<Index<T>>, level: int) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).level() == level }
/// a branch over children of which only the last is incomplete
pub proof fn lemma_packed<T: TreeTypes>(x: BranchIndex<T>, s: Seq<Index<T>>, level: u32)
    requires x.link is Some, kids::<T>(x.link.unwrap()) == Some(s), branch_of(x, s), left_full(s, level), packed(s.last()), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < level
    ensures packed(bx(x)), has_level(s, level - 1) ==> x.level == level, x.level <= level, s.len() > 1 ==> x.level == level
{
    assert(s.len() > 1 ==> s[0].level() == level - 1);
}
}
verus! {
pub proof fn lemma_one<T: TreeTypes>(i: Index<T>)
    ensures all_elems(seq![i]) == elems(i), seq![i].last() == i
{
    lemma_all_elems_push(Seq::empty(), i);
    assert(seq![i] =~= Seq::empty().push(i));
    assert(all_elems(Seq::<Index<T>>::empty()) + elems(i) =~= elems(i));
}
/// the last child was replaced by one with more events
pub proof fn lemma_replace_last<T: TreeTypes>(ix: Index<T>, s: Seq<Index<T>>, e: Seq<Elem<T::Key>>)
    requires wf(ix), ix is Branch, ix.link() is Some, ({
        let s0 = kids::<T>(ix.link().unwrap()).unwrap();
        &&& s.len() == s0.len()
        &&& forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] s[j] == s0[j]
        &&& elems(s.last()) == elems(s0.last()) + e
        &&& s.last().level() < ix.level() && wf(s.last())
        &&& s0.last().level() <= s.last().level() })
    ensures all_elems(s) == elems(ix) + e, all_wf(s), has_level(s, ix.level() - 1), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).level() < ix.level(),
        forall|a: Aspect| good(a, ix) && good(a, s.last()) ==> #[trigger] goods(a, s)
{
    let s0 = kids::<T>(ix.link().unwrap()).unwrap();
    lemma_kids(ix);
    let p = s0.drop_last();
    assert(p =~= s.drop_last());
    lemma_all_elems_push(p, s0.last());
    lemma_all_elems_push(p, s.last());
    assert(p.push(s0.last()) =~= s0);
    assert(p.push(s.last()) =~= s);
    assert(all_elems(s) =~= elems(ix) + e);
    let k = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).level() == ix.level() - 1;
    assert(s[k].level() == ix.level() - 1);
    assert forall|a: Aspect| good(a, ix) && good(a, s.last()) implies #[trigger] goods(a, s) by {
        assert forall|j: int| 0 <= j < s.len() implies good(a, #[trigger] s[j]) by { assert(good(a, s0[j])); }
    }
}
}
