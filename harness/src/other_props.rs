//! bounded, seeded runs of the real code: queries, block codec, stores, tag index, tag queries
use crate::base::*;
use crate::same;
use crate::tree_props::Stat;
use anyhow::{anyhow, bail, ensure, Result};
use banyan::{
    index::*,
    query::Query,
    store::{BlockWriter, BranchCache, MemCache, MemStore, ReadOnlyStore, ZstdDagCborSeq},
    Config, Forest, StreamBuilder, Transaction, Tree,
};
use banyan_utils::{
    tag_index::{map_to_index_set, Dnf, Expression, IndexSet, TagIndex, TagSet},
    tags::{DnfQuery, Key as TKey, KeySeq as TKeySeq, Sha256Digest, TT as UTT},
};
use cbor_data::{
    codec::{CodecError, ReadCbor, WriteCbor},
    Cbor, ItemKind, Writer,
};
use libipld::{
    cbor::DagCborCodec,
    codec::Codec,
    Cid, Ipld,
};
use smol_str::SmolStr;
use std::{
    collections::{BTreeSet, HashMap},
    fmt,
    sync::Arc,
};
type R = Result<Stat>;
fn ok(evals: u64, sample: String) -> R {
    Ok(Stat { evals, nontrivial: true, sample })
}

// ---------------------------------------------------------------------------------------- C04
/// query combinators: exact on leaves, conservative on branches, never set a cleared bit
pub fn c04(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut rng = Rng(seed);
    let n = 1 + rng.usize(1 + size.min(12) as usize);
    let big = rng.chance(1, 6);
    let base = if big { u64::MAX / 2 - rng.below(50) } else { rng.below(60) };
    let q = {
        let q = Q::gen(&mut rng, 3, 60 + n as u64, 9);
        if big {
            shift(q, base)
        } else {
            q
        }
    };
    let b = q.build();
    let keys: Vec<u64> = (0..n).map(|_| rng.below(10)).collect();
    let mask: Vec<bool> = (0..n).map(|_| rng.chance(3, 4)).collect();
    h.clear();
    h.push(format!("query {:?} offset {} keys {:?} mask {:?}", q, base, keys, mask));
    let leaf = LeafIndex::<TT> {
        link: None,
        value_bytes: 1,
        sealed: true,
        keys: keys.iter().map(|k| Key(*k)).collect(),
    };
    let mut res = mask.clone();
    b.containing(base, &leaf, &mut res);
    let exp: Vec<bool> = (0..n).map(|i| mask[i] && q.matches(base + i as u64, keys[i])).collect();
    same!(res, exp, "containing");
    // a branch with n children
    let mut children: Vec<Vec<u64>> = vec![];
    for _ in 0..n {
        let m = 1 + rng.usize(4);
        children.push((0..m).map(|_| rng.below(10)).collect());
    }
    h.push(format!("children {:?}", children));
    let count: u64 = children.iter().map(|c| c.len() as u64).sum();
    let branch = BranchIndex::<TT> {
        link: None,
        count,
        level: 1,
        sealed: true,
        key_bytes: 0,
        value_bytes: 0,
        summaries: children.iter().map(|c| KeyRange(*c.iter().min().unwrap(), *c.iter().max().unwrap())).collect(),
    };
    let mut res = mask.clone();
    b.intersecting(base, &branch, &mut res);
    let mut o = base;
    for i in 0..n {
        ensure!(mask[i] || !res[i], "intersecting set bit {} that was cleared", i);
        let m = children[i].iter().enumerate().any(|(j, k)| q.matches(o + j as u64, *k));
        ensure!(!mask[i] || !m || res[i], "intersecting prunes child {} that has a match", i);
        o += children[i].len() as u64;
    }
    // the documented exact meaning for the all and empty queries
    let mut res = mask.clone();
    banyan::query::AllQuery.intersecting(base, &branch, &mut res);
    ensure!(res == mask, "AllQuery changes the mask");
    banyan::query::EmptyQuery.intersecting(base, &branch, &mut res);
    ensure!(res.iter().all(|x| !x), "EmptyQuery keeps a bit");
    ok(4, h.join("; "))
}
fn shift(q: Q, by: u64) -> Q {
    use std::ops::Bound::*;
    let s = |b| match b {
        Unbounded => Unbounded,
        Included(x) => Included(x + by),
        Excluded(x) => Excluded(x + by),
    };
    match q {
        Q::Off((a, b)) => Q::Off((s(a), s(b))),
        Q::And(a, b) => Q::And(Box::new(shift(*a, by)), Box::new(shift(*b, by))),
        Q::Or(a, b) => Q::Or(Box::new(shift(*a, by)), Box::new(shift(*b, by))),
        q => q,
    }
}

// ---------------------------------------------------------------------------------------- C09
/// a value with bytes and links, not itself ipld
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum V {
    Bytes(Vec<u8>),
    Link(Cid),
    List(Vec<V>),
    Text(String),
}
impl WriteCbor for V {
    fn write_cbor<W: Writer>(&self, w: W) -> W::Output {
        match self {
            V::Bytes(b) => w.write_bytes(b, []),
            V::Text(s) => w.write_str(s, []),
            V::Link(c) => {
                let mut bytes = vec![0u8];
                c.write_bytes(&mut bytes).unwrap();
                w.write_bytes(&bytes, [42])
            }
            V::List(vs) => w.write_array([], |mut b| {
                for v in vs {
                    v.write_cbor(&mut b);
                }
            }),
        }
    }
}
impl ReadCbor for V {
    fn fmt(f: &mut impl fmt::Write) -> fmt::Result {
        write!(f, "V")
    }
    fn read_cbor(cbor: &Cbor) -> cbor_data::codec::Result<Self> {
        let d = cbor.tagged_item();
        match (d.tags().single(), d.kind()) {
            (Some(42), ItemKind::Bytes(b)) => Ok(V::Link(Cid::read_bytes(&b.as_cow()[1..]).map_err(CodecError::custom)?)),
            (_, ItemKind::Bytes(b)) => Ok(V::Bytes(b.as_cow().to_vec())),
            (_, ItemKind::Str(s)) => Ok(V::Text(s.as_cow().to_string())),
            (_, ItemKind::Array(a)) => Ok(V::List(a.map(V::read_cbor).collect::<Result<_, _>>()?)),
            _ => Err(CodecError::type_error("V", &d)),
        }
    }
}
impl V {
    fn links(&self, s: &mut BTreeSet<Cid>) {
        match self {
            V::Link(c) => {
                s.insert(*c);
            }
            V::List(l) => l.iter().for_each(|x| x.links(s)),
            _ => {}
        }
    }
    fn ipld(&self) -> Ipld {
        match self {
            V::Bytes(b) => Ipld::Bytes(b.clone()),
            V::Text(s) => Ipld::String(s.clone()),
            V::Link(c) => Ipld::Link(*c),
            V::List(l) => Ipld::List(l.iter().map(V::ipld).collect()),
        }
    }
    fn gen(rng: &mut Rng, depth: u32) -> V {
        match rng.below(if depth > 0 { 8 } else { 6 }) {
            0..=2 => {
                let n = rng.usize(40);
                V::Bytes((0..n).map(|_| rng.next() as u8).collect())
            }
            3 => V::Bytes(vec![7; rng.usize(300)]),
            4 => V::Text("ä".repeat(rng.usize(5))),
            5 => V::Link(Sha::digest(&[rng.below(6) as u8]).into()),
            _ => {
                let n = rng.usize(4);
                V::List((0..n).map(|_| V::gen(rng, depth - 1)).collect())
            }
        }
    }
}
fn bytes(v: &V) -> Vec<u8> {
    let mut x = vec![];
    v.write_cbor(cbor_data::CborBuilder::append_to(&mut x));
    x
}
fn links_of(vs: &[V]) -> Vec<Cid> {
    let mut s = BTreeSet::new();
    vs.iter().for_each(|x| x.links(&mut s));
    s.into_iter().collect()
}
/// the sequence holds exactly vs, by every way of reading it
fn seq_is(s: &ZstdDagCborSeq, vs: &[V], links: bool, rng: &mut Rng) -> Result<u64> {
    let n = vs.len();
    ensure!(s.count()? == n as u64, "count {} expected {}", s.count()?, n);
    same!(s.items::<V>()?, vs, "items");
    let i: Vec<Ipld> = s.items_ipld()?;
    let e: Vec<Ipld> = vs.iter().map(V::ipld).collect();
    same!(i, e, "items_ipld");
    let mut probe = vec![0, n as u64, n as u64 + 1];
    for _ in 0..3 {
        probe.push(rng.below(n as u64 + 1));
    }
    for i in probe {
        let g: Option<V> = s.get(i)?;
        ensure!(g.as_ref() == vs.get(i as usize), "get({}) = {:?} expected {:?}", i, g, vs.get(i as usize));
    }
    for _ in 0..2 {
        let k = rng.usize(n + 3);
        let take: Vec<bool> = (0..k).map(|_| rng.chance(1, 2)).collect();
        let e: Vec<V> = vs.iter().zip(take.iter()).filter(|x| *x.1).map(|x| x.0.clone()).collect();
        same!(s.select::<V>(&take)?, e, "select({:?})", take);
    }
    ensure!(s.select::<V>(&[])?.is_empty(), "select(nothing)");
    // encryption
    let mut key = [0u8; 32];
    let mut nonce = [0u8; 24];
    key.iter_mut().for_each(|x| *x = rng.next() as u8);
    nonce.iter_mut().for_each(|x| *x = rng.next() as u8);
    let (key, nonce) = (banyan::chacha20::Key::from(key), banyan::chacha20::XNonce::from(nonce));
    let len = s.compressed().len() as u64;
    let off = match rng.below(4) {
        0 => rng.below(10),
        1 => 63 + rng.below(3),
        2 => rng.below(1 << 36),
        _ => (1 << 37) - rng.below(200),
    };
    let blob = s.encrypt(&key, &nonce, off)?;
    let (o, ls, payload) = envelope(&blob)?;
    ensure!(o == off, "stored offset {} expected {}", o, off);
    ensure!(payload.len() as u64 == len, "payload length");
    if len > 16 {
        ensure!(payload != s.compressed(), "payload is not encrypted");
    }
    if links {
        same!(ls, links_of(vs), "cleartext links");
    }
    let (d, range) = ZstdDagCborSeq::decrypt(&blob, &key, &nonce)?;
    ensure!(&d == s, "decrypt(encrypt(x)) != x");
    ensure!(range == (off..off + len), "byte range {:?}", range);
    // independent keystream: encrypting at offset o uses bytes o.. of the stream
    {
        use banyan::chacha20::{
            cipher::{NewCipher, StreamCipher},
            XChaCha20,
        };
        if off < 100 {
            let mut buf = vec![0u8; (off + len) as usize];
            buf[off as usize..].copy_from_slice(s.compressed());
            XChaCha20::new(&key, &nonce).apply_keystream(&mut buf);
            ensure!(buf[off as usize..] == payload[..], "payload is not encrypted with the keystream at its offset");
        }
    }
    // damage never panics, and the envelope rejects wraparound
    let mut bad = blob.clone();
    let i = rng.usize(bad.len());
    bad[i] ^= 1 << rng.below(8);
    if let Ok((d, _)) = ZstdDagCborSeq::decrypt(&bad, &key, &nonce) {
        let _ = d.items::<V>();
        let _ = d.count();
        let _ = d.get::<V>(1);
        let _ = d.select::<V>(&[true, false, true]);
        let _ = d.items_ipld::<Ipld>();
    }
    let evil = DagCborCodec.encode(&Envelope(u64::MAX - 1, vec![], Ipld::Bytes(vec![1, 2, 3])))?;
    ensure!(ZstdDagCborSeq::decrypt(&evil, &key, &nonce).is_err(), "decrypt accepts an offset that wraps around");
    let evil = DagCborCodec.encode(&Envelope(1, vec![], Ipld::Integer(3)))?;
    ensure!(ZstdDagCborSeq::decrypt(&evil, &key, &nonce).is_err(), "decrypt accepts a block without bytes");
    Ok(12 + n as u64)
}
pub fn c09(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut rng = Rng(seed);
    let gen = |rng: &mut Rng, n: usize| -> Vec<V> { (0..n).map(|_| V::gen(rng, 2)).collect() };
    let n = rng.usize(2 + size as usize);
    let vs = gen(&mut rng, n);
    let level = rng.range(0, 5) as i32;
    h.clear();
    h.push(format!("from_iter of {} values: {:?}", n, vs));
    let s = ZstdDagCborSeq::from_iter(vs.iter(), level)?;
    let mut evals = seq_is(&s, &vs, true, &mut rng)?;
    let ipld: Vec<Ipld> = vs.iter().map(V::ipld).collect();
    let s2 = ZstdDagCborSeq::from_iter_ipld(ipld.iter(), level)?;
    h.push("from_iter_ipld of the same".into());
    evals += seq_is(&s2, &vs, true, &mut rng)?;
    if let Some(v) = vs.first() {
        let one = ZstdDagCborSeq::single(v, level)?;
        same!(one.items::<V>()?, vs[..1], "single");
        let one = ZstdDagCborSeq::single_ipld(&ipld[0], level)?;
        same!(one.items::<V>()?, vs[..1], "single_ipld");
    }
    // fill, repeatedly, like extend_leaf does
    let m = rng.usize(2 + 2 * size as usize);
    let all = gen(&mut rng, m);
    let comp = if rng.chance(1, 2) { 100_000 } else { rng.range(10, 400) as usize };
    let uncomp = if rng.chance(1, 2) { 1_000_000 } else { rng.range(60, 700) as usize };
    let maxk = if rng.chance(1, 2) { 10_000 } else { rng.range(1, 10) as usize };
    let use_ipld = rng.chance(1, 3);
    h.push(format!("fill{} with {:?} compressed_size={} uncompressed_size={} max_keys={} level={}", if use_ipld { "_ipld" } else { "" }, all, comp, uncomp, maxk, level));
    let mut at = 0usize;
    let mut start = 0usize;
    let mut prev: Option<ZstdDagCborSeq> = None;
    let mut keys: Vec<usize> = vec![];
    while at < all.len() {
        let chunk = at + 1 + rng.usize(all.len() - at);
        let prefix: Vec<u8> = prev.as_ref().map(|x| x.compressed().to_vec()).unwrap_or_default();
        let (r, next) = if use_ipld {
            let mut it = (at..chunk).map(|i| (i, all[i].ipld())).collect::<Vec<_>>().into_iter().peekable();
            (ZstdDagCborSeq::fill_ipld(&prefix, &mut it, &mut keys, level, comp, uncomp, maxk), it.next().map(|x| x.0))
        } else {
            let mut it = (at..chunk).map(|i| (i, all[i].clone())).collect::<Vec<_>>().into_iter().peekable();
            (ZstdDagCborSeq::fill(&prefix, &mut it, &mut keys, level, comp, uncomp, maxk), it.next().map(|x| x.0))
        };
        let end = next.unwrap_or(chunk);
        let sizes: usize = all[start..end].iter().map(|v| bytes(v).len()).sum();
        let next_size = next.map(|i| bytes(&all[i]).len());
        match r {
            Err(e) => {
                ensure!(next_size.map(|x| x > uncomp).unwrap_or(false), "fill failed although the next item fits: {}", e);
                break;
            }
            Ok((s, full)) => {
                ensure!(!next_size.map(|x| x > uncomp && keys.len() < maxk && s.compressed().len() < comp).unwrap_or(false), "fill ignores an item that is too large");
                ensure!(keys == (start..end).collect::<Vec<_>>(), "keys {:?}, expected {:?}", keys, start..end);
                ensure!(keys.len() <= maxk, "fill took more than max_keys");
                ensure!(sizes <= uncomp, "fill took {} uncompressed bytes, limit {}", sizes, uncomp);
                let doesnt_fit = next_size.map(|x| sizes + x > uncomp).unwrap_or(false);
                let must = s.compressed().len() >= comp || keys.len() >= maxk || sizes >= uncomp;
                ensure!(!must || full, "fill does not report full: {} keys, {} compressed, {} uncompressed", keys.len(), s.compressed().len(), sizes);
                ensure!(!full || must || doesnt_fit, "fill reports full without a reason");
                ensure!(next.is_none() || full, "fill stops early without reporting full");
                evals += seq_is(&s, &all[start..end], true, &mut rng)?;
                if full {
                    prev = None;
                    keys = vec![];
                    start = end;
                } else {
                    prev = Some(s);
                }
                if full && end == at && !must && !doesnt_fit {
                    bail!("fill makes no progress");
                }
                at = end;
            }
        }
    }
    ok(evals, format!("{} values, fill of {} (limits {} {} {})", n, m, comp, uncomp, maxk))
}

// ---------------------------------------------------------------------------------------- C10
pub fn c10_stores(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut rng = Rng(seed);
    let mut evals = 0;
    h.clear();
    // mem store against a map, from several threads at the end
    let max = if rng.chance(1, 2) { 1 << 30 } else { rng.usize(300) };
    let store = MemStore::<Sha>::new(max, Sha::digest);
    let mut store2 = store.clone();
    let mut model: HashMap<Sha, Vec<u8>> = HashMap::new();
    let (ms, cap) = (rng.pick(&[0usize, 5, 30, 1000]), rng.pick(&[0usize, 1, 50, 10_000]));
    let cache = MemCache::new(store.clone(), ms, cap);
    let cache2 = cache.clone();
    let mut writer = cache.write(|s| Ok(s.clone()))?;
    let mut rejected: HashMap<Sha, Vec<u8>> = HashMap::new();
    h.push(format!("MemStore(max_size={}) behind MemCache(max_size={}, capacity={})", max, ms, cap));
    for _ in 0..1 + rng.usize(4 + 2 * size as usize) {
        let n = rng.usize(60);
        let data: Vec<u8> = (0..n).map(|_| rng.below(3) as u8).collect();
        let link = Sha::digest(&data);
        let used: usize = model.values().map(|x| x.len()).sum();
        let fits = used + data.len() <= max;
        match rng.below(6) {
            0 | 1 => {
                h.push(format!("put {} bytes through the {}", n, "store"));
                let r = store2.put(data.clone());
                ensure!(r.is_ok() == fits || (r.is_ok() && model.contains_key(&link)), "put of {} bytes with {} of {} used: {}", n, used, max, summarize_err(&r));
                if let Ok(l) = r {
                    ensure!(l == link, "put returns another link");
                    model.insert(link, data);
                } else {
                    rejected.insert(link, data);
                }
            }
            2 | 3 => {
                h.push(format!("put {} bytes through the cache writer", n));
                let r = writer.put(data.clone());
                ensure!(r.is_ok() == fits || (r.is_ok() && model.contains_key(&link)), "put of {} bytes with {} of {} used: {}", n, used, max, summarize_err(&r));
                if let Ok(l) = r {
                    ensure!(l == link, "put returns another link");
                    model.insert(link, data);
                } else {
                    rejected.insert(link, data);
                }
            }
            4 if model.contains_key(&link) => {
                h.push(format!("offer {} bytes", n));
                cache2.offer(&link, &data);
            }
            _ => {}
        }
        let stored: usize = model.values().map(|x| x.len()).sum();
        ensure!(stored <= max, "store holds {} bytes, limit {}", stored, max);
        for (l, d) in &model {
            ensure!(store.get(l).map(|x| x[..] == d[..]).unwrap_or(false), "store lost or changed block {}", l);
            ensure!(cache.get(l).map(|x| x[..] == d[..]).unwrap_or(false), "cached store lost or changed block {}", l);
            ensure!(cache2.get(l).map(|x| x[..] == d[..]).unwrap_or(false), "cloned cache lost or changed block {}", l);
            evals += 3;
        }
        for l in rejected.keys().filter(|l| !model.contains_key(l)) {
            ensure!(store.get(l).is_err(), "rejected block {} is in the store", l);
            ensure!(cache.get(l).is_err(), "rejected block {} is served by the cache", l);
        }
        let unknown = Sha::digest(b"never stored");
        ensure!(store.get(&unknown).is_err() && cache.get(&unknown).is_err(), "unknown link found");
    }
    // offer alone serves small blocks
    let d = vec![9u8; 4];
    let l = Sha::digest(&d);
    if !model.contains_key(&l) {
        cache.offer(&l, &d);
        match cache.get(&l) {
            Ok(x) => ensure!(x[..] == d[..], "cache returns other data than offered"),
            Err(_) => ensure!(!(ms >= 1000 && cap >= 10_000), "offered small block is not served"),
        }
    }
    // concurrent writers
    let big = MemStore::<Sha>::new(1 << 30, Sha::digest);
    let c = MemCache::new(big.clone(), 100, 400);
    let ths: Vec<_> = (0..3u64)
        .map(|t| {
            let mut r = Rng(seed ^ t);
            let mut w = c.write(|s| Ok(s.clone())).unwrap();
            let c = c.clone();
            std::thread::spawn(move || -> Result<Vec<(Sha, Vec<u8>)>> {
                let mut out = vec![];
                for _ in 0..15 {
                    let data: Vec<u8> = (0..r.usize(50)).map(|_| r.below(2) as u8).collect();
                    let l = w.put(data.clone())?;
                    ensure!(c.get(&l)?[..] == data[..], "thread does not read its own write");
                    out.push((l, data));
                }
                Ok(out)
            })
        })
        .collect();
    for t in ths {
        for (l, d) in t.join().map_err(|_| anyhow!("thread panicked"))?? {
            ensure!(big.get(&l)?[..] == d[..] && c.get(&l)?[..] == d[..], "concurrently written block lost");
        }
    }
    drop(c);
    drop((store2, cache, cache2, writer));
    let inner = store.into_inner()?;
    ensure!(inner.len() == model.len(), "into_inner has {} blocks, expected {}", inner.len(), model.len());
    ok(evals + 40, h.join("; "))
}

// ---------------------------------------------------------------------------------------- C11
const NAMES: &[&str] = &["a", "b", "c", "d", "e", "it's", "a rather long tag that is not inlined at all", ""];
fn gen_tags(rng: &mut Rng, nonempty: bool) -> TagSet {
    let n = (nonempty as u64) + rng.below(4);
    let k = rng.pick(&[2usize, 4, NAMES.len()]);
    (0..n).map(|_| SmolStr::new(NAMES[rng.usize(k)])).collect()
}
fn set(t: &TagSet) -> BTreeSet<SmolStr> {
    t.iter().cloned().collect()
}
fn eval(e: &Expression, t: &BTreeSet<SmolStr>) -> bool {
    match e {
        Expression::Literal(x) => t.contains(x),
        Expression::And(v) => v.iter().all(|x| eval(x, t)),
        Expression::Or(v) => v.iter().any(|x| eval(x, t)),
    }
}
fn gen_expr(rng: &mut Rng, depth: u32, k: usize) -> Expression {
    match rng.below(if depth == 0 { 1 } else { 4 }) {
        0 => Expression::literal(NAMES[rng.usize(k)].into()),
        1 => gen_expr(rng, depth - 1, k) & gen_expr(rng, depth - 1, k),
        2 => gen_expr(rng, depth - 1, k) | gen_expr(rng, depth - 1, k),
        _ => {
            let n = if rng.below(8) == 0 { 0 } else { 1 + rng.usize(3) };
            let v: Vec<_> = (0..n).map(|_| gen_expr(rng, depth - 1, k)).collect();
            match rng.below(4) {
                0 => Expression::And(v),
                1 => Expression::Or(v),
                2 => Expression::and(v),
                _ => Expression::or(v),
            }
        }
    }
}
fn dnf_eval(d: &Dnf, t: &BTreeSet<SmolStr>) -> bool {
    d.0.iter().any(|c| c.iter().all(|x| t.contains(x)))
}
fn well_formed(d: &Dnf) -> Result<()> {
    for a in &d.0 {
        for b in &d.0 {
            ensure!(set(a) == set(b) || !set(a).is_subset(&set(b)), "Dnf {:?} has the redundant conjunction {:?} besides {:?}", d, b, a);
        }
    }
    Ok(())
}
pub fn c11(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut rng = Rng(seed);
    h.clear();
    let mut evals = 0;
    let n = rng.usize(2 + size as usize);
    let els: Vec<TagSet> = (0..n).map(|_| gen_tags(&mut rng, false)).collect();
    h.push(format!("elements {:?}", els));
    let idx = TagIndex::from_elements(&els);
    same!(idx.as_elements(), els, "as_elements");
    same!(idx.iter_elements().collect::<Vec<_>>(), els, "iter_elements");
    for i in 0..n + 2 {
        ensure!(idx.get(i).as_ref() == els.get(i), "get({})", i);
    }
    let enc = DagCborCodec.encode(&idx)?;
    let dec: TagIndex = DagCborCodec.decode(&enc)?;
    ensure!(dec == idx, "dag-cbor roundtrip");
    evals += n as u64 + 4;
    // indices beyond the table are rejected
    {
        let tags: Vec<String> = vec!["a".into(), "b".into()];
        for bad in [2u32, 3, 1000, u32::MAX] {
            let mut buf = vec![0x82u8];
            buf.extend(DagCborCodec.encode(&tags)?);
            buf.extend(DagCborCodec.encode(&vec![vec![0u32], vec![1, bad]])?);
            let r: Result<TagIndex> = DagCborCodec.decode(&buf);
            ensure!(r.is_err(), "decode accepts tag index {} into a table of 2", bad);
        }
        let mut bad = enc.clone();
        let i = rng.usize(bad.len());
        bad[i] ^= 1 << rng.below(8);
        let r: Result<TagIndex> = DagCborCodec.decode(&bad);
        if let Ok(x) = r {
            let _ = x.as_elements();
        }
    }
    // expressions
    let k = rng.pick(&[2usize, 3, 4, NAMES.len()]);
    let e = gen_expr(&mut rng, 1 + (size / 8).min(2) as u32, k);
    let e2 = gen_expr(&mut rng, 1, k);
    h.push(format!("expressions {} and {}", e, e2));
    let d = e.clone().dnf();
    let d2 = e2.clone().dnf();
    let s = e.simplify();
    let back = d.clone().expression();
    let both = d.clone() & d2.clone();
    let either = d.clone() | d2.clone();
    for x in [&d, &d2, &both, &either] {
        well_formed(x)?;
    }
    for m in 0..1u32 << k {
        let t: BTreeSet<SmolStr> = (0..k).filter(|i| m >> i & 1 == 1).map(|i| NAMES[i].into()).collect();
        let x = eval(&e, &t);
        let y = eval(&e2, &t);
        ensure!(dnf_eval(&d, &t) == x, "dnf() of {} changes the meaning for {:?}", e, t);
        ensure!(eval(&s, &t) == x, "simplify() of {} changes the meaning for {:?}", e, t);
        ensure!(eval(&back, &t) == x, "dnf().expression() of {} changes the meaning for {:?}", e, t);
        ensure!(dnf_eval(&both, &t) == (x && y), "Dnf & changes the meaning for {:?}", t);
        ensure!(dnf_eval(&either, &t) == (x || y), "Dnf | changes the meaning for {:?}", t);
        ensure!(eval(&(e.clone() & e2.clone()), &t) == (x && y), "Expression & changes the meaning for {:?}", t);
        ensure!(eval(&(e.clone() | e2.clone()), &t) == (x || y), "Expression | changes the meaning for {:?}", t);
        ensure!(eval(&Expression::and(vec![e.clone(), e2.clone()]), &t) == (x && y), "Expression::and changes the meaning for {:?}", t);
        ensure!(eval(&Expression::or(vec![e.clone(), e2.clone()]), &t) == (x || y), "Expression::or changes the meaning for {:?}", t);
        evals += 9;
    }
    // unique representation: the minimal models
    ensure!(back.dnf() == d, "dnf is not stable under expression()");
    // matching
    let got = idx.matching(d.clone());
    let exp: Vec<usize> = (0..n).filter(|i| eval(&e, &set(&els[*i]))).collect();
    same!(got, exp, "matching({})", e);
    // lookup
    let table: TagSet = gen_tags(&mut rng, false);
    let tags = gen_tags(&mut rng, false);
    h.push(format!("map_to_index_set({:?}, {:?})", table, tags));
    let r = map_to_index_set(&table, &tags);
    let sorted: Vec<SmolStr> = set(&table).into_iter().collect();
    let e: Option<IndexSet> = tags.iter().map(|t| sorted.iter().position(|x| x == t).map(|x| x as u32)).collect();
    ensure!(r == e, "map_to_index_set = {:?} expected {:?}", r, e);
    ok(evals, h.join("; "))
}

// ---------------------------------------------------------------------------------------- C12
#[derive(Clone, Debug)]
struct Ev {
    lamport: u64,
    time: u64,
    tags: TagSet,
}
#[derive(Clone, Debug)]
struct Tq {
    min: u64,
    max: u64,
    tags: TagSet,
}
impl Tq {
    fn matches(&self, e: &Ev) -> bool {
        self.min <= e.time && e.time <= self.max && set(&e.tags).is_subset(&set(&self.tags))
    }
}
#[derive(Clone, Default)]
struct UStore(Arc<std::sync::Mutex<HashMap<Sha256Digest, Box<[u8]>>>>);
impl ReadOnlyStore<Sha256Digest> for UStore {
    fn get(&self, l: &Sha256Digest) -> Result<Box<[u8]>> {
        self.0.lock().unwrap().get(l).cloned().ok_or_else(|| anyhow!("not there"))
    }
}
impl BlockWriter<Sha256Digest> for UStore {
    fn put(&mut self, data: Vec<u8>) -> Result<Sha256Digest> {
        let l = Sha256Digest::digest(&data);
        self.0.lock().unwrap().insert(l, data.into());
        Ok(l)
    }
}
pub fn c12(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    c12_with(seed, size, h, false)
}
/// `untagged`: also generate events without tags (known finding when branches prune them)
pub fn c12_with(seed: u64, size: u64, h: &mut Vec<String>, untagged: bool) -> R {
    let mut rng = Rng(seed);
    h.clear();
    let n = 1 + rng.usize(3 + 3 * size as usize);
    let tmax = rng.pick(&[2u64, 10, 1000]);
    let evs: Vec<Ev> = (0..n)
        .map(|_| Ev { lamport: rng.below(100), time: rng.below(tmax), tags: gen_tags(&mut rng, !untagged) })
        .collect();
    let mut evals = 0;
    // compact sequence and summary
    let keys: Vec<TKey> = evs.iter().map(|e| TKey::single(e.lamport, e.time, e.tags.clone())).collect();
    let seq: TKeySeq = keys.iter().cloned().collect();
    ensure!(seq.len() == n && seq.count() == n as u64, "KeySeq len {} count {} expected {}", seq.len(), seq.count(), n);
    for i in 0..n + 2 {
        ensure!(seq.get(i).as_ref() == keys.get(i), "KeySeq::get({}) = {:?}, expected {:?}", i, seq.get(i), keys.get(i));
    }
    ensure!(seq.to_vec() == keys, "KeySeq::to_vec");
    let enc = DagCborCodec.encode(&seq)?;
    let dec: TKeySeq = DagCborCodec.decode(&enc)?;
    ensure!(dec.to_vec() == keys, "KeySeq dag-cbor roundtrip");
    // Key has private fields: compare summaries through serde
    {
        let mut tags = TagSet::default();
        evs.iter().for_each(|e| tags.extend(e.tags.iter().cloned()));
        let lo = evs.iter().map(|e| e.time).min().unwrap();
        let hi = evs.iter().map(|e| e.time).max().unwrap();
        let e = TKey::range(lo, hi, tags);
        let lam = evs.iter().map(|e| e.lamport).min().unwrap();
        let got = format!("{:?}", <TKeySeq as Summarizable<TKey>>::summarize(&seq));
        let exp = format!("{:?}", e).replacen("min_lamport: 0", &format!("min_lamport: {}", lam), 1);
        ensure!(got == exp, "summarize = {} expected {}", got, exp);
    }
    // a tree
    let mut cfg = gen_config(&mut rng);
    cfg.max_leaf_count = rng.range(1, 5) as usize;
    cfg.max_key_branches = rng.range(1, 4) as usize;
    let cfg: Config = cfg;
    let store = UStore::default();
    let txn = Transaction::new(Forest::<UTT, _>::new(store.clone(), BranchCache::new(rng.pick(&[0usize, 1 << 20]))), store);
    let mut txn = txn;
    let mut b = StreamBuilder::<UTT, u64>::new(cfg.clone(), gen_secrets(&mut rng));
    let mut i = 0;
    while i < n {
        let k = 1 + rng.usize(n - i);
        let part: Vec<(TKey, u64)> = (i..i + k).map(|j| (keys[j].clone(), j as u64)).collect();
        if rng.chance(1, 3) {
            txn.extend_unpacked(&mut b, part)?;
            if rng.chance(1, 2) {
                txn.pack(&mut b)?;
            }
        } else {
            txn.pack(&mut b)?;
            txn.extend(&mut b, part)?;
        }
        i += k;
    }
    let tree: Tree<UTT, u64> = b.snapshot();
    for _ in 0..4 {
        let m = rng.usize(4);
        let q: Vec<Tq> = (0..m)
            .map(|_| {
                let (min, max) = match rng.below(4) {
                    0 => (0, u64::MAX),
                    _ => (rng.below(tmax), rng.below(tmax + 2)),
                };
                let mut tags = gen_tags(&mut rng, false);
                if rng.chance(1, 2) {
                    tags.extend(gen_tags(&mut rng, true).iter().cloned());
                }
                if rng.chance(1, 3) {
                    tags.insert("no event has this".into());
                }
                Tq { min, max, tags }
            })
            .collect();
        *h = vec![format!("config={:?} events {:?} query {:?}", cfg, evs, q)];
        let dq = DnfQuery(
            q.iter()
                .map(|x| if x.min == 0 && x.max == u64::MAX && rng.chance(1, 2) { TKey::filter_tags(x.tags.clone()) } else { TKey::range(x.min, x.max, x.tags.clone()) })
                .collect(),
        );
        let exp: Vec<(u64, TKey, u64)> =
            (0..n).filter(|i| q.iter().any(|x| x.matches(&evs[*i]))).map(|i| (i as u64, keys[i].clone(), i as u64)).collect();
        // leaf level
        let leaf = LeafIndex::<UTT> { link: None, value_bytes: 0, sealed: false, keys: seq.clone() };
        let mask: Vec<bool> = (0..n).map(|_| rng.chance(3, 4)).collect();
        let mut res = mask.clone();
        dq.containing(0, &leaf, &mut res);
        let e: Vec<bool> = (0..n).map(|i| mask[i] && q.iter().any(|x| x.matches(&evs[i]))).collect();
        same!(res, e, "containing");
        // branch level, on one child per event: never prune a match, never set a bit
        let branch = BranchIndex::<UTT> { link: None, count: n as u64, level: 1, sealed: false, key_bytes: 0, value_bytes: 0, summaries: seq.clone() };
        let mut res = mask.clone();
        dq.intersecting(0, &branch, &mut res);
        for i in 0..n {
            ensure!(mask[i] || !res[i], "intersecting set bit {}", i);
            ensure!(!e[i] || res[i], "intersecting prunes child {} that has a match", i);
        }
        let dq: Arc<dyn Query<UTT>> = Arc::new(dq);
        let got = txn.read_filtered(&tree, dq)?;
        same!(got, exp, "iter_filtered with a tag query");
        evals += 3;
    }
    ok(evals, format!("{} events", n))
}
/// branch blocks close to the limit of 16 MiB: keys with large tags. What was written can be read.
pub fn c01_keys(seed: u64, _size: u64, h: &mut Vec<String>) -> R {
    h.clear();
    if seed % 89 != 5 {
        return ok(0, String::new());
    }
    let mut rng = Rng(seed);
    let mut cfg = gen_config(&mut rng);
    cfg.max_leaf_count = rng.range(1, 9) as usize;
    cfg.target_leaf_size = 10000;
    cfg.max_uncompressed_leaf_size = 1 << 20;
    let n = rng.range(2, 24);
    let len = (rng.range(4 << 20, 40 << 20) / n) as usize;
    *h = vec![format!("{:?}: {} events, each with its own tag of {} bytes", cfg, n, len)];
    let keys: Vec<TKey> = (0..n)
        .map(|i| {
            let mut tags = TagSet::default();
            tags.insert(format!("{:08}{}", i, "x".repeat(len)).into());
            TKey::single(i, i, tags)
        })
        .collect();
    let store = UStore::default();
    let mut txn = Transaction::new(Forest::<UTT, _>::new(store.clone(), BranchCache::new(0)), store);
    let mut b = StreamBuilder::<UTT, u64>::new(cfg, gen_secrets(&mut rng));
    let mut exp = vec![];
    let mut i = 0;
    while i < n as usize {
        let k = 1 + rng.usize(n as usize - i);
        let part: Vec<(TKey, u64)> = (i..i + k).map(|j| (keys[j].clone(), j as u64)).collect();
        // may be refused, and then changes nothing
        if txn.extend(&mut b, part.clone()).is_ok() {
            exp.extend(part.into_iter().map(Some));
        }
        let got = txn.collect(&b.snapshot())?;
        ensure!(got == exp, "the tree does not have the events that were appended");
        i += k;
    }
    ok(n, h.join(""))
}
/// known finding: events without tags match every query key that covers their time, and are found
/// in a tree of one leaf, but are pruned once they are below a branch. Returns the events missed.
pub fn c12_known() -> Result<Vec<u64>> {
    let mut missed = vec![];
    let store = UStore::default();
    let mut txn = Transaction::new(Forest::<UTT, _>::new(store.clone(), BranchCache::new(0)), store);
    let mut cfg = gen_config(&mut Rng(1));
    cfg.max_leaf_count = 2;
    let mut b = StreamBuilder::<UTT, u64>::new(cfg, gen_secrets(&mut Rng(1)));
    let keys: Vec<TKey> = (0..6).map(|i| TKey::single(i, i, TagSet::default())).collect();
    txn.extend(&mut b, keys.iter().cloned().zip(0u64..).collect::<Vec<_>>())?;
    let mut tags = TagSet::default();
    tags.insert("a".into());
    let q: Arc<dyn Query<UTT>> = Arc::new(DnfQuery(vec![TKey::filter_tags(tags)]));
    let got = txn.read_filtered(&b.snapshot(), q)?;
    for i in 0..6 {
        if !got.iter().any(|x| x.0 == i) {
            missed.push(i);
        }
    }
    Ok(missed)
}
trait ReadFiltered {
    fn read_filtered(&self, tree: &Tree<UTT, u64>, q: Arc<dyn Query<UTT>>) -> Result<Vec<(u64, TKey, u64)>>;
}
impl ReadFiltered for Transaction<UTT, UStore, UStore> {
    fn read_filtered(&self, tree: &Tree<UTT, u64>, q: Arc<dyn Query<UTT>>) -> Result<Vec<(u64, TKey, u64)>> {
        self.iter_filtered(tree, q).collect()
    }
}
