//! Shared pieces of the replay / bounded stand-in harness: deterministic RNG, tree types, a
//! recording and fault-injecting store, an independent tree walker and a history generator.
use anyhow::{anyhow, ensure, Result};
use banyan::{
    index::*,
    query::{AllQuery, AndQuery, EmptyQuery, OffsetRangeQuery, OrQuery, Query},
    store::{BlockWriter, BranchCache, ReadOnlyStore, ZstdDagCborSeq},
    Config, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes,
};
use libipld::{
    cbor::DagCborCodec,
    codec::{Codec, Decode, Encode},
    Cid, DagCbor, Ipld,
};
use sha2::{Digest, Sha256};
use std::{
    collections::{BTreeSet, HashMap},
    convert::{TryFrom, TryInto},
    fmt,
    io::{Read, Seek, Write},
    iter::FromIterator,
    ops::{Bound, Range},
    sync::{Arc, Mutex},
};

/// splitmix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())].clone()
    }
}

#[derive(Debug, Clone)]
pub struct TT;
#[derive(Debug, Clone, Copy, PartialEq, Eq, DagCbor)]
pub struct Key(pub u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, DagCbor)]
pub struct KeyRange(pub u64, pub u64);
#[derive(Debug, Clone, DagCbor)]
pub struct KeySeq(pub Vec<Key>);
pub type Val = Vec<u8>;

impl CompactSeq for KeySeq {
    type Item = Key;
    fn get(&self, index: usize) -> Option<Key> {
        self.0.get(index).cloned()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl Summarizable<KeyRange> for KeySeq {
    fn summarize(&self) -> KeyRange {
        KeyRange(
            self.0.iter().map(|x| x.0).min().unwrap(),
            self.0.iter().map(|x| x.0).max().unwrap(),
        )
    }
}
impl Summarizable<KeyRange> for VecSeq<KeyRange> {
    fn summarize(&self) -> KeyRange {
        KeyRange(
            self.as_ref().iter().map(|x| x.0).min().unwrap(),
            self.as_ref().iter().map(|x| x.1).max().unwrap(),
        )
    }
}
impl FromIterator<Key> for KeySeq {
    fn from_iter<T: IntoIterator<Item = Key>>(iter: T) -> Self {
        KeySeq(iter.into_iter().collect())
    }
}
impl TreeTypes for TT {
    type Key = Key;
    type KeySeq = KeySeq;
    type Summary = KeyRange;
    type SummarySeq = VecSeq<KeyRange>;
    type Link = Sha;
    const NONCE: &'static [u8; 24] = b"123456789012345678901234";
}

#[derive(Copy, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sha(pub [u8; 32]);
impl Decode<DagCborCodec> for Sha {
    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> Result<Self> {
        Self::try_from(Cid::decode(c, r)?)
    }
}
impl Encode<DagCborCodec> for Sha {
    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> Result<()> {
        Cid::encode(&Cid::from(*self), c, w)
    }
}
impl Sha {
    pub fn digest(data: &[u8]) -> Self {
        let mut hasher = Sha256::new();
        hasher.update(data);
        Sha(hasher.finalize().try_into().unwrap())
    }
}
impl fmt::Display for Sha {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", hex::encode(&self.0[..6]))
    }
}
impl fmt::Debug for Sha {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl From<Sha> for Cid {
    fn from(value: Sha) -> Self {
        Cid::new_v1(0x71, multihash::Multihash::wrap(0x12, &value.0).unwrap())
    }
}
impl TryFrom<Cid> for Sha {
    type Error = anyhow::Error;
    fn try_from(value: Cid) -> Result<Self> {
        ensure!(value.codec() == 0x71 && value.hash().code() == 0x12, "not a sha2-256 dag-cbor cid");
        Ok(Self(value.hash().digest().try_into()?))
    }
}

/// the on-disk block envelope, decoded independently of the crate
#[derive(DagCbor)]
pub struct Envelope(pub u64, pub Vec<Cid>, pub Ipld);
pub fn envelope(data: &[u8]) -> Result<(u64, Vec<Cid>, Vec<u8>)> {
    let e: Envelope = DagCborCodec.decode(data)?;
    match e.2 {
        Ipld::Bytes(b) => Ok((e.0, e.1, b)),
        _ => Err(anyhow!("no bytes in block")),
    }
}

/// a block with any compressed payload, made independently of the crate
pub fn craft(compressed: &[u8], key: &banyan::chacha20::Key, nonce: &banyan::chacha20::XNonce, offset: u64) -> Result<Vec<u8>> {
    use banyan::chacha20::{
        cipher::{NewCipher, StreamCipher, StreamCipherSeek},
        XChaCha20,
    };
    let mut data = compressed.to_vec();
    let mut c = XChaCha20::new(key, nonce);
    c.seek(offset);
    c.apply_keystream(&mut data);
    DagCborCodec.encode(&Envelope(offset, vec![], Ipld::Bytes(data)))
}

#[derive(Default)]
pub struct RecInner {
    pub map: HashMap<Sha, Box<[u8]>>,
    pub log: Vec<(Sha, Vec<u8>)>,
    /// puts left before puts start to fail
    pub put_budget: Option<usize>,
    pub gets: u64,
}
/// recording, fault-injecting content-addressed store
#[derive(Clone, Default)]
pub struct RecStore(pub Arc<Mutex<RecInner>>);
impl RecStore {
    pub fn lock(&self) -> std::sync::MutexGuard<'_, RecInner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl ReadOnlyStore<Sha> for RecStore {
    fn get(&self, link: &Sha) -> Result<Box<[u8]>> {
        let mut x = self.lock();
        x.gets += 1;
        x.map.get(link).cloned().ok_or_else(|| anyhow!("block {} not there", link))
    }
}
impl BlockWriter<Sha> for RecStore {
    fn put(&mut self, data: Vec<u8>) -> Result<Sha> {
        let link = Sha::digest(&data);
        let mut x = self.lock();
        if let Some(n) = x.put_budget.as_mut() {
            ensure!(*n > 0, "injected write failure");
            *n -= 1;
        }
        x.log.push((link, data.clone()));
        x.map.insert(link, data.into());
        Ok(link)
    }
}

#[derive(Debug, Clone)]
pub struct KeyQuery(pub BTreeSet<u64>);
impl Query<TT> for KeyQuery {
    fn containing(&self, _: u64, index: &LeafIndex<TT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(index.keys.0.iter()) {
            *r = *r && self.0.contains(&k.0);
        }
    }
    fn intersecting(&self, _: u64, index: &BranchIndex<TT>, res: &mut [bool]) {
        for (r, s) in res.iter_mut().zip(index.summaries.as_ref().iter()) {
            *r = *r && self.0.range(s.0..=s.1).next().is_some();
        }
    }
}

pub type BoundRange = (Bound<u64>, Bound<u64>);
/// the mathematical meaning of a query
#[derive(Debug, Clone)]
pub enum Q {
    All,
    Empty,
    Keys(BTreeSet<u64>),
    Off(BoundRange),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
}
pub fn in_bounds(r: &BoundRange, x: u64) -> bool {
    (match r.0 {
        Bound::Unbounded => true,
        Bound::Included(a) => a <= x,
        Bound::Excluded(a) => a < x,
    }) && (match r.1 {
        Bound::Unbounded => true,
        Bound::Included(a) => x <= a,
        Bound::Excluded(a) => x < a,
    })
}
impl Q {
    pub fn matches(&self, o: u64, k: u64) -> bool {
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Keys(s) => s.contains(&k),
            Q::Off(r) => in_bounds(r, o),
            Q::And(a, b) => a.matches(o, k) && b.matches(o, k),
            Q::Or(a, b) => a.matches(o, k) || b.matches(o, k),
        }
    }
    /// the query built from the crate's own combinators
    pub fn build(&self) -> Arc<dyn Query<TT>> {
        match self {
            Q::All => Arc::new(AllQuery),
            Q::Empty => Arc::new(EmptyQuery),
            Q::Keys(s) => Arc::new(KeyQuery(s.clone())),
            Q::Off(r) => Arc::new(OffsetRangeQuery::from(*r)),
            Q::And(a, b) => Arc::new(AndQuery(a.build(), b.build())),
            Q::Or(a, b) => Arc::new(OrQuery(a.build(), b.build())),
        }
    }
    pub fn gen(rng: &mut Rng, depth: u32, count: u64, keymax: u64) -> Q {
        match rng.below(if depth == 0 { 5 } else { 9 }) {
            0 => Q::All,
            1 => {
                if rng.chance(1, 3) {
                    Q::Empty
                } else {
                    Q::All
                }
            }
            2 => {
                let n = rng.below(4);
                Q::Keys((0..n).map(|_| rng.below(keymax + 1)).collect())
            }
            3 | 4 => {
                let b = |rng: &mut Rng| {
                    let x = rng.below(count + 3);
                    match rng.below(5) {
                        0 => Bound::Unbounded,
                        1 | 2 => Bound::Included(x),
                        _ => Bound::Excluded(x),
                    }
                };
                Q::Off((b(rng), b(rng)))
            }
            5 | 6 => Q::And(
                Box::new(Q::gen(rng, depth - 1, count, keymax)),
                Box::new(Q::gen(rng, depth - 1, count, keymax)),
            ),
            _ => Q::Or(
                Box::new(Q::gen(rng, depth - 1, count, keymax)),
                Box::new(Q::gen(rng, depth - 1, count, keymax)),
            ),
        }
    }
}

pub type Fo = Forest<TT, RecStore>;
pub type Txn = Transaction<TT, RecStore, RecStore>;
pub type B = StreamBuilder<TT, Val>;
pub type T = Tree<TT, Val>;

/// a node as seen by the independent walker
#[derive(Clone, Debug)]
pub struct Node {
    pub index: Index<TT>,
    pub offset: u64,
    pub depth: u32,
    /// own link or some ancestor's link is missing
    pub purged: bool,
    /// children as found in the block (empty for leaf and for purged nodes)
    pub children: Vec<Index<TT>>,
    /// values as found in the block (leaf only)
    pub values: Option<Vec<Val>>,
    /// decompressed size of a leaf
    pub raw: usize,
    /// size of the stored block, and the size of the encrypted payload
    pub block: usize,
    pub payload: usize,
}
pub fn is_leaf(i: &Index<TT>) -> bool {
    matches!(i, Index::Leaf(_))
}
/// walk the tree without using any traversal or cache code of the crate: blocks are decrypted with
/// ZstdDagCborSeq::decrypt and decoded with items_ipld / items
pub fn walk(
    store: &RecStore,
    secrets: &Secrets,
    index: &Index<TT>,
    offset: u64,
    depth: u32,
    out: &mut Vec<Node>,
) -> Result<()> {
    let nonce = <&banyan::chacha20::XNonce>::try_from(TT::NONCE).unwrap();
    let mut node = Node {
        index: index.clone(),
        offset,
        depth,
        purged: index.link().is_none(),
        children: vec![],
        values: None,
        raw: 0,
        block: 0,
        payload: 0,
    };
    let data = match index.link() {
        None => {
            out.push(node);
            return Ok(());
        }
        Some(link) => store.lock().map.get(link).cloned().ok_or_else(|| anyhow!("walker: block {} missing", link))?,
    };
    node.block = data.len();
    node.payload = envelope(&data)?.2.len();
    match index {
        Index::Leaf(_) => {
            let (seq, _) = ZstdDagCborSeq::decrypt(&data, secrets.value_key(), nonce)?;
            let raw = zstd::decode_all(seq.compressed())?;
            node.raw = raw.len();
            node.values = Some(decode_vals(&raw)?);
            out.push(node);
        }
        Index::Branch(_) => {
            let (seq, _) = ZstdDagCborSeq::decrypt(&data, secrets.index_key(), nonce)?;
            let children = seq.items_ipld::<Index<TT>>()?;
            node.children = children.clone();
            out.push(node);
            let mut o = offset;
            for c in children {
                walk(store, secrets, &c, o, depth + 1, out)?;
                o += c.count();
            }
        }
    }
    Ok(())
}
/// decode a concatenation of cbor byte strings without the crate
pub fn decode_vals(mut raw: &[u8]) -> Result<Vec<Val>> {
    use cbor_data::codec::ReadCbor;
    let mut res = vec![];
    while !raw.is_empty() {
        let (c, rest) = cbor_data::Cbor::checked_prefix(raw)?;
        res.push(Val::read_cbor(c)?);
        raw = rest;
    }
    Ok(res)
}
pub fn children_of(store: &RecStore, secrets: &Secrets, index: &Index<TT>) -> Result<Vec<Index<TT>>> {
    let nonce = <&banyan::chacha20::XNonce>::try_from(TT::NONCE).unwrap();
    match (index, index.link()) {
        (Index::Branch(_), Some(link)) => {
            let data = store.lock().map.get(link).cloned().ok_or_else(|| anyhow!("missing"))?;
            let (seq, _) = ZstdDagCborSeq::decrypt(&data, secrets.index_key(), nonce)?;
            seq.items_ipld::<Index<TT>>()
        }
        _ => Ok(vec![]),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem {
    pub key: u64,
    pub val: Val,
    pub purged: bool,
}
#[derive(Clone, Debug)]
pub enum Op {
    Push(u64, Val),
    Extend(Vec<(u64, Val)>),
    ExtendUnpacked(Vec<(u64, Val)>),
    Pack,
    Retain(Q),
    Reload,
    RollbackExtend(Vec<(u64, Val)>, bool),
    FailingExtend(Vec<(u64, Val)>, usize, bool),
    NewCache(usize),
}
impl Op {
    pub fn short(&self) -> String {
        match self {
            Op::Push(k, v) => format!("push(key={}, {} bytes)", k, v.len()),
            Op::Extend(x) => format!("extend({} items: {:?})", x.len(), x.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>()),
            Op::ExtendUnpacked(x) => format!("extend_unpacked({} items: {:?})", x.len(), x.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>()),
            Op::Pack => "pack".into(),
            Op::Retain(q) => format!("retain({:?})", q),
            Op::Reload => "load_stream_builder(current root)".into(),
            Op::RollbackExtend(x, u) => format!("transaction{{extend{}({} items)}} dropped without commit", if *u { "_unpacked" } else { "" }, x.len()),
            Op::FailingExtend(x, n, u) => format!(
                "extend{}({} items) in a transaction with the store failing after {} writes",
                if *u { "_unpacked" } else { "" },
                x.len(),
                n
            ),
            Op::NewCache(c) => format!("new forest with branch cache of {} bytes", c),
        }
    }
}
#[derive(Clone, Debug)]
pub struct GenOpts {
    pub retain: bool,
    pub unpacked: bool,
    pub reload: bool,
    pub faults: bool,
    pub max_ops: u64,
    pub max_items: u64,
}
impl GenOpts {
    pub fn all(size: u64) -> Self {
        GenOpts { retain: true, unpacked: true, reload: true, faults: false, max_ops: 1 + size, max_items: 2 + size * 4 }
    }
}

pub struct World {
    pub store: RecStore,
    pub txn: Txn,
    pub b: B,
    pub cfg: Config,
    pub secrets: Secrets,
    pub model: Vec<Elem>,
    pub rng: Rng,
    pub keymax: u64,
    pub vmax: u64,
    /// the tree is known to be packed (nothing but extend/push/pack since the last pack)
    pub packed: bool,
    pub retained: bool,
    pub history: Vec<String>,
    pub next_id: u64,
    /// keystream was consumed by a rolled back operation, and no newer root was written yet:
    /// reloading the builder from the current root would go back to an older keystream position
    pub stale: bool,
}
pub fn gen_config(rng: &mut Rng) -> Config {
    Config {
        max_summary_branches: rng.range(2, 6) as usize,
        max_key_branches: rng.range(1, 6) as usize,
        max_leaf_count: if rng.chance(1, 4) { 1000 } else { rng.range(1, 9) as usize },
        target_leaf_size: if rng.chance(1, 3) { rng.range(20, 200) as usize } else { 10000 },
        max_uncompressed_leaf_size: if rng.chance(1, 3) { rng.range(100, 400) as usize } else { 16 * 1024 * 1024 },
        zstd_level: rng.range(1, 4) as i32,
    }
}
pub fn gen_secrets(rng: &mut Rng) -> Secrets {
    let mut k = || {
        let mut x = [0u8; 32];
        for b in x.iter_mut() {
            *b = rng.next() as u8;
        }
        banyan::chacha20::Key::from(x)
    };
    Secrets::new(k(), k())
}
impl World {
    pub fn new(seed: u64) -> World {
        let mut rng = Rng(seed);
        let cfg = gen_config(&mut rng);
        let secrets = gen_secrets(&mut rng);
        let store = RecStore::default();
        let cap = rng.pick(&[0usize, 2000, 1 << 20]);
        let txn = Txn::new(Forest::new(store.clone(), BranchCache::new(cap)), store.clone());
        let b = B::new(cfg.clone(), secrets.clone());
        let keymax = rng.pick(&[1u64, 4, 20, 1000]);
        let vmax = rng.pick(&[4u64, 20, 60]);
        World {
            store,
            txn,
            b,
            history: vec![format!("config={:?} branch_cache={}", cfg, cap)],
            cfg,
            secrets,
            model: vec![],
            rng,
            keymax,
            vmax,
            packed: true,
            retained: false,
            next_id: 0,
            stale: false,
        }
    }
    pub fn val(&mut self) -> Val {
        let n = self.rng.below(self.vmax + 1) as usize;
        let noise = self.rng.chance(1, 2);
        self.next_id += 1;
        let mut v = self.next_id.to_be_bytes()[6..].to_vec();
        for i in 0..n {
            v.push(if noise { self.rng.next() as u8 } else { (i % 3) as u8 });
        }
        v
    }
    pub fn items(&mut self, n: u64) -> Vec<(u64, Val)> {
        (0..n).map(|_| (self.rng.below(self.keymax + 1), self.val())).collect()
    }
    pub fn gen_op(&mut self, o: &GenOpts) -> Op {
        loop {
            let n = if self.rng.chance(1, 8) { 0 } else { 1 + self.rng.below(o.max_items) };
            match self.rng.below(14) {
                0 | 1 => {
                    let x = self.items(1);
                    return Op::Push(x[0].0, x[0].1.clone());
                }
                2..=4 => return Op::Extend(self.items(n)),
                5..=7 if o.unpacked => return Op::ExtendUnpacked(self.items(1 + n / 3)),
                8 | 9 => return Op::Pack,
                10 if o.retain && !self.model.is_empty() => {
                    let d = self.rng.below(3) as u32;
                    return Op::Retain(Q::gen(&mut self.rng, d, self.model.len() as u64, self.keymax));
                }
                11 if o.reload && self.b.link().is_some() && !self.stale => return Op::Reload,
                12 if o.faults => {
                    let u = o.unpacked && self.rng.chance(1, 2);
                    let x = self.items(n);
                    if self.rng.chance(1, 2) {
                        return Op::RollbackExtend(x, u);
                    }
                    let k = self.rng.usize(4);
                    return Op::FailingExtend(x, k, u);
                }
                13 if o.reload => return Op::NewCache(self.rng.pick(&[0usize, 1000, 1 << 20])),
                _ => {}
            }
        }
    }
    pub fn append(&mut self, xs: &[(u64, Val)]) {
        self.model.extend(xs.iter().map(|(key, val)| Elem { key: *key, val: val.clone(), purged: false }));
    }
    pub fn kv(xs: &[(u64, Val)]) -> Vec<(Key, Val)> {
        xs.iter().map(|(k, v)| (Key(*k), v.clone())).collect()
    }
    pub fn apply(&mut self, op: &Op) -> Result<()> {
        self.history.push(op.short());
        let link_before = self.b.link();
        self.apply0(op)?;
        if let Op::RollbackExtend(..) | Op::FailingExtend(..) = op {
            self.stale = self.stale || self.b.link() == link_before;
        }
        if self.b.link() != link_before {
            self.stale = false;
        }
        Ok(())
    }
    fn apply0(&mut self, op: &Op) -> Result<()> {
        match op {
            Op::Push(k, v) => {
                self.txn.push(&mut self.b, Key(*k), v.clone()).map_err(|e| anyhow!("push failed: {}", e))?;
                self.append(&[(*k, v.clone())]);
            }
            Op::Extend(xs) => {
                self.txn.extend(&mut self.b, Self::kv(xs)).map_err(|e| anyhow!("extend failed: {}", e))?;
                self.append(xs);
            }
            Op::ExtendUnpacked(xs) => {
                if !self.model.is_empty() && !xs.is_empty() {
                    self.packed = false;
                }
                self.txn
                    .extend_unpacked(&mut self.b, Self::kv(xs))
                    .map_err(|e| anyhow!("extend_unpacked failed: {}", e))?;
                self.append(xs);
            }
            Op::Pack => {
                self.txn.pack(&mut self.b).map_err(|e| anyhow!("pack failed: {}", e))?;
                self.packed = true;
            }
            Op::Retain(q) => {
                let q = q.build();
                self.txn.retain(&mut self.b, &q).map_err(|e| anyhow!("retain failed: {}", e))?;
                self.retained = true;
                self.sync_purged()?;
            }
            Op::Reload => {
                if let Some(link) = self.b.link() {
                    self.b = self
                        .txn
                        .load_stream_builder(self.secrets.clone(), self.cfg.clone(), link)
                        .map_err(|e| anyhow!("load_stream_builder failed: {}", e))?;
                }
            }
            Op::RollbackExtend(xs, unpacked) => {
                let before = format!("{:?}", self.b.as_index_ref());
                let mut guard = self.b.transaction();
                if *unpacked {
                    self.txn.extend_unpacked(&mut guard, Self::kv(xs))?;
                } else {
                    self.txn.extend(&mut guard, Self::kv(xs))?;
                }
                drop(guard);
                ensure!(before == format!("{:?}", self.b.as_index_ref()), "dropping a transaction did not restore the tree");
            }
            Op::FailingExtend(xs, n, unpacked) => {
                let before = format!("{:?}", self.b.as_index_ref());
                self.store.lock().put_budget = Some(*n);
                let mut guard = self.b.transaction();
                let r = if *unpacked {
                    self.txn.extend_unpacked(&mut guard, Self::kv(xs))
                } else {
                    self.txn.extend(&mut guard, Self::kv(xs))
                };
                self.store.lock().put_budget = None;
                if r.is_ok() {
                    guard.commit();
                    if *unpacked && !self.model.is_empty() && !xs.is_empty() {
                        self.packed = false;
                    }
                    self.append(xs);
                } else {
                    drop(guard);
                    ensure!(before == format!("{:?}", self.b.as_index_ref()), "a failed extend was not rolled back");
                }
            }
            Op::NewCache(c) => {
                self.txn = Txn::new(Forest::new(self.store.clone(), BranchCache::new(*c)), self.store.clone());
            }
        }
        Ok(())
    }
    pub fn nodes(&self) -> Result<Vec<Node>> {
        let mut out = vec![];
        if let Some(i) = self.b.as_index_ref() {
            walk(&self.store, &self.secrets, i, 0, 0, &mut out)?;
        }
        Ok(out)
    }
    /// take the purged flags of the model over from the actual tree
    pub fn sync_purged(&mut self) -> Result<()> {
        let nodes = self.nodes()?;
        for n in nodes {
            if n.purged {
                for o in n.offset..n.offset + n.index.count() {
                    if let Some(e) = self.model.get_mut(o as usize) {
                        e.purged = true;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn forest(&self) -> &Fo {
        self.txn.read()
    }
    pub fn expect_opt(&self) -> Vec<Option<(Key, Val)>> {
        self.model.iter().map(|e| if e.purged { None } else { Some((Key(e.key), e.val.clone())) }).collect()
    }
    pub fn expect_q(&self, q: &Q) -> Vec<(u64, Key, Val)> {
        self.model
            .iter()
            .enumerate()
            .filter(|(i, e)| !e.purged && q.matches(*i as u64, e.key))
            .map(|(i, e)| (i as u64, Key(e.key), e.val.clone()))
            .collect()
    }
    pub fn gen_q(&mut self) -> Q {
        let d = self.rng.below(3) as u32;
        Q::gen(&mut self.rng, d, self.model.len() as u64, self.keymax)
    }
}

pub fn summarize_err<X>(r: &Result<X>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => format!("Err({})", e),
    }
}
pub fn first_diff<A: PartialEq + fmt::Debug>(a: &[A], b: &[A]) -> String {
    if a.len() != b.len() {
        return format!("lengths differ: got {} expected {}", a.len(), b.len());
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return format!("position {}: got {:?} expected {:?}", i, a[i], b[i]);
        }
    }
    "equal".into()
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a[..] != b[..] { anyhow::bail!("{}: {}", format!($($t)*), $crate::base::first_diff(&a[..], &b[..])); }
    }};
}
pub fn ranges_disjoint(mut xs: Vec<(Range<u64>, String)>) -> Result<()> {
    xs.retain(|x| x.0.start < x.0.end);
    xs.sort_by_key(|x| x.0.start);
    for w in xs.windows(2) {
        ensure!(w[0].0.end <= w[1].0.start, "keystream ranges overlap: {:?} {} and {:?} {}", w[0].0, w[0].1, w[1].0, w[1].1);
    }
    Ok(())
}
