//! bounded, seeded runs of the real code for the tree properties (see DESIGN.md, "replay harness")
use crate::base::*;
use crate::same;
use anyhow::{anyhow, bail, ensure, Result};
use banyan::{
    index::*,
    store::{BranchCache, ZstdDagCborSeq},
    Config, FilteredChunk, Forest, StreamBuilder, Tree,
};
use futures::{executor::block_on, StreamExt};
use libipld::{cbor::DagCborCodec, codec::Codec, Cid, Ipld};
use std::{
    collections::{HashMap, HashSet},
    convert::TryFrom,
};

#[derive(Default, Debug)]
pub struct Stat {
    pub evals: u64,
    pub nontrivial: bool,
    pub sample: String,
}
fn stat(w: &World, evals: u64) -> Stat {
    let depth = w.b.level();
    Stat {
        evals,
        nontrivial: w.model.len() > 1 && depth > 0,
        sample: format!("{} -> count={} level={}", w.history.join("; "), w.model.len(), depth),
    }
}
type R = Result<Stat>;

/// run a history, calling `check` after every operation
fn history(seed: u64, _size: u64, o: GenOpts, hist: &mut Vec<String>, mut check: impl FnMut(&mut World, &Op) -> Result<u64>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(o.max_ops);
    let mut evals = 0;
    for _ in 0..n {
        let op = w.gen_op(&o);
        let r = w.apply(&op).and_then(|_| check(&mut w, &op));
        *hist = w.history.clone();
        evals += r?;
    }
    Ok(stat(&w, evals))
}

fn content(w: &World) -> Result<u64> {
    let tree = w.b.snapshot();
    ensure!(w.b.count() == w.model.len() as u64, "builder count {} but {} elements were appended", w.b.count(), w.model.len());
    ensure!(tree.count() == w.model.len() as u64, "tree count {} but {} elements were appended", tree.count(), w.model.len());
    ensure!(tree.is_empty() == w.model.is_empty(), "is_empty wrong");
    let got = w.forest().collect(&tree)?;
    same!(got, w.expect_opt(), "collect differs from the appended sequence");
    let got = w.forest().iter_from(&tree).collect::<Result<Vec<_>>>()?;
    same!(got, w.expect_q(&Q::All), "iter_from differs from the appended sequence");
    Ok(2)
}

/// content preservation
pub fn c01(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut o = GenOpts::all(size);
    o.retain = seed % 4 == 0;
    history(seed, size, o, h, |w, _| content(w))
}

/// leaves close to the limit of 16 MiB
pub fn c01_large(seed: u64, _size: u64, h: &mut Vec<String>) -> R {
    if seed % 97 != 3 {
        return Ok(Stat { evals: 0, nontrivial: false, sample: String::new() });
    }
    let mut w = World::new(seed);
    w.cfg = Config { max_uncompressed_leaf_size: 16 << 20, max_leaf_count: 1000, target_leaf_size: 1 << 20, zstd_level: 1, ..w.cfg.clone() };
    w.b = B::new(w.cfg.clone(), w.secrets.clone());
    let n = w.rng.range(2, 40);
    let total = w.rng.range(9 << 20, 40 << 20) / n;
    let xs: Vec<(u64, Val)> = (0..n).map(|i| (i, vec![i as u8; (total.min(15 << 20)) as usize])).collect();
    w.history.push(format!("{} items of {} bytes", n, xs[0].1.len()));
    *h = w.history.clone();
    if w.rng.chance(1, 2) {
        w.apply(&Op::Extend(xs))?;
    } else {
        for x in xs {
            w.apply(&Op::Push(x.0, x.1))?;
        }
    }
    let e = content(&w)?;
    Ok(stat(&w, e))
}

/// random access
pub fn c02(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    history(seed, size, GenOpts::all(size), h, |w, _| {
        let tree = w.b.snapshot();
        let f = w.forest();
        let n = w.model.len() as u64;
        ensure!(tree.count() == n, "count {} expected {}", tree.count(), n);
        let exp = w.expect_opt();
        for i in 0..n {
            let g = f.get(&tree, i)?;
            ensure!(g == exp[i as usize], "get({}) = {:?}, expected {:?}", i, g, exp[i as usize]);
        }
        for i in [n, n + 1, n + 1000, u64::MAX] {
            ensure!(f.get(&tree, i)?.is_none(), "get({}) beyond the end is not None", i);
            ensure!(f.collect_from(&tree, i)?.is_empty(), "collect_from({}) beyond the end is not empty", i);
        }
        for i in 0..n {
            let g = f.collect_from(&tree, i)?;
            same!(g, exp[i as usize..], "collect_from({})", i);
        }
        Ok(2 * n + 8)
    })
}

fn extra(info: &NodeInfo<TT, RecStore>) -> (u64, bool, bool) {
    match info {
        NodeInfo::Branch(i, _) => (i.count, false, false),
        NodeInfo::Leaf(i, _) => (i.keys.len() as u64, true, false),
        NodeInfo::PurgedBranch(i) => (i.count, false, true),
        NodeInfo::PurgedLeaf(i) => (i.keys.len() as u64, true, true),
    }
}
type Chunk = FilteredChunk<(u64, Key, Val), (u64, bool, bool)>;

fn check_chunks(fwd: &[Chunk], n: u64, exp: &[(u64, Key, Val)], what: &str) -> Result<()> {
    let mut at = 0;
    let mut all = vec![];
    for c in fwd {
        ensure!(c.range.start == at, "{}: chunk {:?} does not start at {}", what, c.range, at);
        ensure!(c.range.end > c.range.start, "{}: empty chunk {:?}", what, c.range);
        ensure!(c.extra.0 == c.range.end - c.range.start, "{}: chunk {:?} was computed for a node with {} elements", what, c.range, c.extra.0);
        for (o, _, _) in &c.data {
            ensure!(c.range.contains(o), "{}: offset {} outside of its chunk {:?}", what, o, c.range);
        }
        at = c.range.end;
        all.extend(c.data.iter().cloned());
    }
    ensure!(at == n, "{}: chunks end at {} but the tree has {} elements", what, at, n);
    same!(all, exp, "{}: data of the chunks", what);
    Ok(())
}

/// expected nodes of iter_index for a query
fn index_expect(w: &World, q: &std::sync::Arc<dyn banyan::query::Query<TT>>, i: &Index<TT>, offset: u64, rev: bool, out: &mut Vec<String>) -> Result<()> {
    out.push(format!("{:?}", i));
    if let Index::Branch(b) = i {
        let ch = children_of(&w.store, &w.secrets, i)?;
        if i.link().is_none() {
            return Ok(());
        }
        let mut bits = vec![true; ch.len()];
        q.intersecting(offset, b, &mut bits);
        let mut o = offset;
        let mut todo = vec![];
        for (c, m) in ch.into_iter().zip(bits) {
            let n = c.count();
            if m {
                todo.push((c, o));
            }
            o += n;
        }
        if rev {
            todo.reverse();
        }
        for (c, o) in todo {
            index_expect(w, q, &c, o, rev, out)?;
        }
    }
    Ok(())
}

/// filtered iteration
pub fn c03(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    history(seed, size, GenOpts::all(size), h, |w, _| {
        let mut evals = 0;
        for _ in 0..3 {
            let q = w.gen_q();
            w.history.push(format!("query {:?}", q));
            let tree = w.b.snapshot();
            let f = w.forest();
            let n = w.model.len() as u64;
            let exp = w.expect_q(&q);
            let qq = q.build();
            let got = f.iter_filtered(&tree, qq.clone()).collect::<Result<Vec<_>>>()?;
            same!(got, exp, "iter_filtered");
            let got = block_on(f.stream_filtered(&tree, qq.clone()).collect::<Vec<_>>()).into_iter().collect::<Result<Vec<_>>>()?;
            same!(got, exp, "stream_filtered");
            let fwd: Vec<Chunk> = f.iter_filtered_chunked(&tree, qq.clone(), &extra).collect::<Result<Vec<_>>>()?;
            check_chunks(&fwd, n, &exp, "iter_filtered_chunked")?;
            let s: Vec<Chunk> = block_on(f.stream_filtered_chunked(&tree, qq.clone(), &extra).collect::<Vec<_>>()).into_iter().collect::<Result<Vec<_>>>()?;
            ensure!(s == fwd, "stream_filtered_chunked differs from iter_filtered_chunked");
            let rev: Vec<Chunk> = f.iter_filtered_chunked_reverse(&tree, qq.clone(), &extra).collect::<Result<Vec<_>>>()?;
            let s: Vec<Chunk> = block_on(f.stream_filtered_chunked_reverse(&tree, qq.clone(), &extra).collect::<Vec<_>>()).into_iter().collect::<Result<Vec<_>>>()?;
            ensure!(s == rev, "stream_filtered_chunked_reverse differs from iter_filtered_chunked_reverse");
            let flat = f.iter_filtered_reverse(&tree, qq.clone()).collect::<Result<Vec<_>>>()?;
            let e: Vec<_> = rev.iter().flat_map(|c| c.data.clone()).collect();
            same!(flat, e, "iter_filtered_reverse vs its chunks");
            let back: Vec<Chunk> = rev.iter().rev().cloned().collect();
            check_chunks(&back, n, &exp, "iter_filtered_chunked_reverse")?;
            ensure!(back == fwd, "reverse iteration visits other chunks than forward iteration");
            if let Some(i) = tree.index() {
                for reverse in [false, true] {
                    let mut e = vec![];
                    index_expect(w, &qq, i, 0, reverse, &mut e)?;
                    let got: Vec<String> = if reverse {
                        f.iter_index_reverse(&tree, qq.clone()).map(|x| x.map(|x| format!("{:?}", x))).collect::<Result<_>>()?
                    } else {
                        f.iter_index(&tree, qq.clone()).map(|x| x.map(|x| format!("{:?}", x))).collect::<Result<_>>()?
                    };
                    same!(got, e, "iter_index (reverse={})", reverse);
                }
            }
            w.history.pop();
            evals += 9;
        }
        Ok(evals)
    })
}

fn branch_sealed(cfg: &Config, ch: &[Index<TT>], level: u32) -> bool {
    let max = if level == 1 { cfg.max_key_branches } else { cfg.max_summary_branches };
    ch.len() >= max && ch.iter().all(|c| c.sealed() && c.level() + 1 == level)
}
pub fn structure(w: &World, nodes: &[Node], packed: bool, retained: bool) -> Result<()> {
    let cfg = &w.cfg;
    for n in nodes {
        if n.purged {
            ensure!(n.index.sealed(), "an unsealed node is purged: {:?}", n.index);
            continue;
        }
        match &n.index {
            Index::Leaf(l) => {
                let v = n.values.as_ref().unwrap();
                ensure!(v.len() == l.keys.len(), "leaf at {} has {} keys and {} values", n.offset, l.keys.len(), v.len());
                ensure!(!v.is_empty(), "empty leaf at {}", n.offset);
                ensure!(v.len() <= cfg.max_leaf_count, "leaf at {} has {} values, configured maximum {}", n.offset, v.len(), cfg.max_leaf_count);
                ensure!(n.raw <= cfg.max_uncompressed_leaf_size, "leaf at {} has {} uncompressed bytes, configured maximum {}", n.offset, n.raw, cfg.max_uncompressed_leaf_size);
                ensure!(l.value_bytes == n.payload as u64, "leaf at {}: value_bytes {} but the payload has {}", n.offset, l.value_bytes, n.payload);
                let must = v.len() >= cfg.max_leaf_count || n.payload >= cfg.target_leaf_size || n.raw >= cfg.max_uncompressed_leaf_size;
                ensure!(!must || l.sealed, "leaf at {} is full but not sealed", n.offset);
                // a leaf is only sealed if it is full or if some next element did not fit
                if l.sealed && !must && n.raw + (w.vmax as usize + 8) < cfg.max_uncompressed_leaf_size {
                    bail!("leaf at {} is sealed but not full ({} values, {} bytes, {} compressed)", n.offset, v.len(), n.raw, n.payload);
                }
            }
            Index::Branch(b) => {
                let ch = &n.children;
                ensure!(!ch.is_empty(), "branch at {} without children", n.offset);
                let top = ch.iter().map(|c| c.level()).max().unwrap();
                ensure!(b.level == top + 1, "branch at {}: level {} but highest child {}", n.offset, b.level, top);
                ensure!(b.count == ch.iter().map(|c| c.count()).sum::<u64>(), "branch at {}: count {} is not the sum over its children", n.offset, b.count);
                let s: Vec<KeyRange> = b.summaries().collect();
                let e: Vec<KeyRange> = ch.iter().map(|c| c.summarize()).collect();
                same!(s, e, "branch at {}: summaries vs children", n.offset);
                let max = if b.level == 1 { cfg.max_key_branches } else { cfg.max_summary_branches };
                ensure!(ch.len() <= max, "branch at {} level {} has {} children, configured maximum {}", n.offset, b.level, ch.len(), max);
                ensure!(b.sealed == branch_sealed(cfg, ch, b.level), "branch at {} level {}: sealed={} contradicts the sealing rule", n.offset, b.level, b.sealed);
                if !retained {
                    ensure!(b.value_bytes == ch.iter().map(|c| c.value_bytes()).sum::<u64>(), "branch at {}: value_bytes not the sum", n.offset);
                    ensure!(b.key_bytes == ch.iter().map(|c| c.key_bytes()).sum::<u64>() + n.block as u64, "branch at {}: key_bytes {} wrong", n.offset, b.key_bytes);
                }
            }
        }
    }
    if let Some(root) = nodes.first() {
        ensure!(!is_leaf(&root.index), "the root of a tree must be a branch");
    }
    if packed {
        // only the last node on each level may be unsealed, and everything but the right edge is
        // exactly one level below its parent
        let n = nodes.first().map(|x| x.index.count()).unwrap_or(0);
        for x in nodes {
            let last = x.offset + x.index.count() == n;
            ensure!(x.index.sealed() || last, "packed tree: unsealed node of level {} at {} is not on the right edge", x.index.level(), x.offset);
            if !x.index.sealed() && !x.children.is_empty() {
                for c in &x.children[..x.children.len() - 1] {
                    ensure!(c.sealed() && c.level() + 1 == x.index.level(), "packed tree: unpacked child below {}", x.offset);
                }
            }
        }
    }
    Ok(())
}

/// independent definition of packed
fn packed_def(w: &World, i: &Index<TT>) -> Result<bool> {
    if i.sealed() || is_leaf(i) || i.link().is_none() {
        return Ok(true);
    }
    let ch = children_of(&w.store, &w.secrets, i)?;
    let (last, rest) = ch.split_last().unwrap();
    Ok(rest.iter().all(|c| c.sealed() && c.level() + 1 == i.level()) && last.level() < i.level() && packed_def(w, last)?)
}

/// structural invariants and limits
pub fn c05(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut o = GenOpts::all(size);
    o.retain = seed % 4 == 0;
    history(seed, size, o, h, |w, op| {
        let nodes = w.nodes()?;
        structure(w, &nodes, w.packed, w.retained)?;
        let msgs = w.forest().check_invariants(&w.b)?;
        ensure!(msgs.is_empty(), "check_invariants: {:?}", msgs);
        let tree = w.b.snapshot();
        let p = w.forest().is_packed(&tree)?;
        if let Some(i) = tree.index() {
            ensure!(p == packed_def(w, i)?, "is_packed={} contradicts the definition", p);
        }
        ensure!(!w.packed || p, "tree is not packed after {}", op.short());
        if let Op::Pack = op {
            // packing a packed tree is a noop
            let before = w.store.lock().log.len();
            let link = w.b.link();
            let mut b2: B = if let Some(l) = link { w.forest().load_stream_builder(w.secrets.clone(), w.cfg.clone(), l)? } else { StreamBuilder::new(w.cfg.clone(), w.secrets.clone()) };
            w.txn.pack(&mut b2)?;
            ensure!(b2.link() == link, "packing a packed tree changes the root");
            let _ = before;
        }
        Ok(nodes.len() as u64)
    })
}

/// retain
pub fn c06(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(1 + size);
    let o = GenOpts { retain: true, ..GenOpts::all(size) };
    let mut evals = 0;
    for i in 0..=n {
        let op = if i == n && !w.model.is_empty() { Op::Retain(w.gen_q()) } else { w.gen_op(&o) };
        let before_nodes = w.nodes()?;
        let before = w.model.clone();
        let q = if let Op::Retain(q) = &op { Some(q.clone()) } else { None };
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
        if let Some(q) = q {
            ensure!(w.b.count() == before.len() as u64, "retain changed the count");
            content(&w)?;
            // expectation: leaf by leaf
            let mut unsealed_seen = false;
            for node in before_nodes.iter().filter(|x| is_leaf(&x.index) || x.purged) {
                let r = node.offset..node.offset + node.index.count();
                if !is_leaf(&node.index) {
                    for o in r {
                        ensure!(w.model[o as usize].purged, "offset {} came back from a purged branch", o);
                    }
                    continue;
                }
                unsealed_seen |= !node.index.sealed();
                let hit = (node.offset..node.offset + node.index.count()).any(|o| q.matches(o, before[o as usize].key));
                for o in r {
                    let was = before[o as usize].purged;
                    let is = w.model[o as usize].purged;
                    if hit && !was {
                        ensure!(!is, "retain({:?}) lost offset {} although its leaf has matching data", q, o);
                    }
                    if !node.index.sealed() {
                        ensure!(!is, "retain lost offset {} in an unsealed leaf", o);
                    }
                    if was {
                        ensure!(is, "offset {} came back", o);
                    }
                    if !hit && !unsealed_seen {
                        ensure!(is, "retain({:?}) kept offset {} although its leaf is sealed, in the packed part, and has nothing matching", q, o);
                    }
                    evals += 1;
                }
            }
            structure(&w, &w.nodes()?, false, true)?;
            // offsets, keys and appending still work
            let x = w.items(2);
            w.apply(&Op::Extend(x))?;
            content(&w)?;
            w.apply(&Op::Pack)?;
            content(&w)?;
        }
    }
    Ok(stat(&w, evals))
}

/// repair
pub fn c07(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(1 + size);
    let o = GenOpts::all(size);
    for _ in 0..n {
        let op = w.gen_op(&o);
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
    }
    let nodes = w.nodes()?;
    let warm = w.rng.chance(1, 2);
    if warm {
        // fill the branch cache
        let _ = w.forest().collect(&w.b.snapshot())?;
    }
    // damage
    let linked: Vec<&Node> = nodes.iter().filter(|x| x.index.link().is_some()).collect();
    let mut lost: HashSet<Sha> = HashSet::new();
    if !linked.is_empty() && !w.rng.chance(1, 6) {
        for _ in 0..1 + w.rng.below(3) {
            // skip the root most of the time
            let k = if w.rng.chance(1, 8) { 0 } else { w.rng.usize(linked.len()) };
            lost.insert(linked[k].index.link().unwrap());
        }
    }
    let mut lost: Vec<Sha> = lost.into_iter().collect();
    lost.sort_by_key(|x| x.to_string());
    let mut kinds = vec![];
    for l in &lost {
        let good = w.store.lock().map.get(l).cloned().unwrap();
        let payload = linked.iter().find(|x| *x.index.link() == Some(*l)).unwrap().payload;
        let (kind, bad) = damage(&mut w.rng, &good, payload)?;
        kinds.push(kind);
        let mut s = w.store.lock();
        match bad {
            None => s.map.remove(l),
            Some(b) => s.map.insert(*l, b.into()),
        };
    }
    let lost: HashSet<Sha> = lost.into_iter().collect();
    w.history.push(format!("blocks {:?} (cache warm: {})", kinds, warm));
    // expectation
    fn dead(w: &World, lost: &HashSet<Sha>, i: &Index<TT>, o: u64, out: &mut Vec<u64>, nodes: &[Node], reported: &mut u64, depth: u32) {
        let gone = match i.link() {
            None => true,
            Some(l) if lost.contains(l) => {
                *reported += 1;
                true
            }
            _ => false,
        };
        if gone {
            out.extend(o..o + i.count());
            return;
        }
        if let Some(n) = nodes.iter().find(|n| n.offset == o && n.depth == depth && n.index.level() == i.level()) {
            let mut at = o;
            for c in &n.children {
                dead(w, lost, c, at, out, nodes, reported, depth + 1);
                at += c.count();
            }
        }
    }
    let mut gone = vec![];
    let mut reported = 0;
    if let Some(i) = w.b.as_index_ref() {
        dead(&w, &lost, i, 0, &mut gone, &nodes, &mut reported, 0);
    }
    let link = w.b.link();
    w.history.push("repair".into());
    *h = w.history.clone();
    let report = w.txn.repair(&mut w.b)?;
    let forgotten = report.iter().filter(|x| x.starts_with("forgetting")).count() as u64;
    ensure!(forgotten == reported, "repair reports {} forgotten nodes, expected {}: {:?}", forgotten, reported, report);
    if reported == 0 {
        ensure!(w.b.link() == link, "repair of an intact tree changed it");
    }
    for o in &gone {
        w.model[*o as usize].purged = true;
    }
    // everything must be readable now, also without a cache
    content(&w)?;
    w.apply(&Op::NewCache(0))?;
    content(&w)?;
    let tree = w.b.snapshot();
    let exp = w.expect_opt();
    for i in 0..exp.len() {
        let g = w.forest().get(&tree, i as u64)?;
        ensure!(g == exp[i], "get({}) after repair", i);
    }
    for n in w.nodes()? {
        if let Some(l) = n.index.link() {
            ensure!(!lost.contains(l) , "repaired tree still refers to the lost block {}", l);
        }
    }
    let mut s = stat(&w, 1 + exp.len() as u64);
    s.nontrivial &= reported > 0;
    Ok(s)
}

/// keystream ranges
pub fn c08(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut o = GenOpts::all(size);
    o.faults = true;
    history(seed, size, o, h, |w, _| {
        let log = w.store.lock().log.clone();
        let nonce = <&banyan::chacha20::XNonce>::try_from(<TT as banyan::TreeTypes>::NONCE).unwrap();
        let mut v = vec![];
        for (l, data) in &log {
            let (off, _, bytes) = envelope(data)?;
            v.push((off..off + bytes.len() as u64, format!("block {}", l)));
        }
        let n = v.len() as u64;
        ranges_disjoint(v)?;
        // every block decrypts with the matching key, and reports its range
        for x in w.nodes()? {
            if let Some(l) = x.index.link() {
                let data = w.store.lock().map.get(l).cloned().unwrap();
                let key = if is_leaf(&x.index) { w.secrets.value_key() } else { w.secrets.index_key() };
                let (_, range) = ZstdDagCborSeq::decrypt(&data, key, nonce)?;
                let (off, _, bytes) = envelope(&data)?;
                ensure!(range == (off..off + bytes.len() as u64), "reported byte range {:?} is not the stored one", range);
            }
        }
        Ok(n)
    })
}

/// transactions
pub fn c13(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(1 + size);
    let o = GenOpts::all(size);
    for _ in 0..n {
        let op = w.gen_op(&o);
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
    }
    let mut evals = 0;
    for _ in 0..3 {
        let before_idx = format!("{:?}", w.b.as_index_ref());
        let before = w.b.snapshot();
        let blocks: HashMap<Sha, Box<[u8]>> = w.store.lock().map.clone();
        let model = w.model.clone();
        let (packed, retained) = (w.packed, w.retained);
        let mut wal: Vec<String> = vec![];
        // a batch of operations inside the transaction, possibly with the store failing
        let budget = if w.rng.chance(2, 3) { Some(w.rng.usize(6)) } else { None };
        let k = 1 + w.rng.below(3);
        let commit = w.rng.chance(1, 2);
        let mut failed = false;
        let opts = GenOpts { reload: false, ..o.clone() };
        let ops: Vec<Op> = (0..k).map(|_| w.gen_op(&opts)).collect();
        w.store.lock().put_budget = budget;
        {
            let mut g = w.b.transaction();
            for op in &ops {
                wal.push(op.short());
                let r = match op {
                    Op::Push(k, v) => w.txn.push(&mut g, Key(*k), v.clone()),
                    Op::Extend(x) => w.txn.extend(&mut g, World::kv(x)),
                    Op::ExtendUnpacked(x) => w.txn.extend_unpacked(&mut g, World::kv(x)),
                    Op::Pack => w.txn.pack(&mut g),
                    Op::Retain(q) => {
                        let q = q.build();
                        w.txn.retain(&mut g, &q)
                    }
                    _ => Ok(()),
                };
                if r.is_err() {
                    failed = true;
                    break;
                }
                match op {
                    Op::Push(k, v) => w.model.push(Elem { key: *k, val: v.clone(), purged: false }),
                    Op::Extend(x) | Op::ExtendUnpacked(x) => w.model.extend(x.iter().map(|(key, val)| Elem { key: *key, val: val.clone(), purged: false })),
                    _ => {}
                }
            }
            if !failed && commit {
                g.commit();
            } else {
                drop(g);
            }
        }
        w.store.lock().put_budget = None;
        let done = !failed && commit;
        w.history.push(format!("transaction{{{}}} budget={:?} {}", wal.join("; "), budget, if done { "committed" } else { "dropped" }));
        *h = w.history.clone();
        if done {
            w.sync_purged()?;
            ensure!(w.b.count() == w.model.len() as u64, "committed transaction: count {} expected {}", w.b.count(), w.model.len());
            content(&w)?;
            w.packed = false;
            w.retained |= ops.iter().any(|x| matches!(x, Op::Retain(_)));
        } else {
            w.model = model;
            w.packed = packed;
            w.retained = retained;
            ensure!(before_idx == format!("{:?}", w.b.as_index_ref()), "a dropped transaction did not restore the tree: {} instead of {:?}", w.b, before.link());
            content(&w)?;
            for (l, data) in &blocks {
                ensure!(w.store.lock().map.get(l) == Some(data), "block {} changed", l);
            }
        }
        // the next append after it works, and never reuses keystream
        let x = w.items(2);
        w.apply(&Op::Extend(x))?;
        *h = w.history.clone();
        content(&w)?;
        let mut v = vec![];
        for (l, data) in &w.store.lock().log {
            let (off, _, bytes) = envelope(data)?;
            v.push((off..off + bytes.len() as u64, format!("block {}", l)));
        }
        ranges_disjoint(v)?;
        evals += 1;
    }
    Ok(stat(&w, evals))
}

/// roots and left roots
pub fn c14(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    history(seed, size, GenOpts::all(size), h, |w, _| {
        let tree = w.b.snapshot();
        let roots = w.forest().roots(&w.b)?;
        let exp = w.expect_opt();
        let mut at = 0u64;
        let mut level = u32::MAX;
        for r in &roots {
            ensure!(r.sealed(), "roots() contains an unsealed node");
            ensure!(r.level() <= level, "roots() levels increase");
            level = r.level();
            at += r.count();
        }
        ensure!(at <= tree.count(), "roots() cover more than the tree");
        // they are the longest prefix made of sealed nodes: the next leaf is unsealed or there is none
        let nodes = w.nodes()?;
        if let Some(next) = nodes.iter().filter(|n| is_leaf(&n.index) || n.purged).find(|n| n.offset == at) {
            ensure!(!next.index.sealed(), "roots() stop at {} although the node there is sealed", at);
        }
        let mut o = 0;
        for r in &roots {
            ensure!(
                nodes.iter().any(|n| n.offset == o && format!("{:?}", n.index) == format!("{:?}", r)),
                "root at {} is not a node of the tree",
                o
            );
            o += r.count();
        }
        let left = w.forest().left_roots(&tree)?;
        if tree.index().is_some() {
            ensure!(!left.is_empty(), "left_roots is empty");
            ensure!(format!("{:?}", left.last().unwrap().index()) == format!("{:?}", tree.index()), "last left root is not the tree");
            let path: Vec<String> = nodes.iter().filter(|n| n.offset == 0).map(|n| format!("{:?}", n.index)).rev().collect();
            let got: Vec<String> = left.iter().map(|t| format!("{:?}", t.index().unwrap())).collect();
            let purged_path = nodes.iter().any(|n| n.offset == 0 && n.purged && !is_leaf(&n.index));
            if !purged_path {
                same!(got, path, "left_roots vs the leftmost path");
            }
            for t in &left {
                if t.level() >= 0 {
                    let c = w.forest().collect(t)?;
                    same!(c, exp[..t.count() as usize], "left root of level {}", t.level());
                }
            }
        } else {
            ensure!(left.is_empty() && roots.is_empty(), "roots of the empty tree");
        }
        Ok(roots.len() as u64 + left.len() as u64)
    })
}

/// damage that makes a block unreadable
fn damage(rng: &mut Rng, good: &[u8], payload: usize) -> anyhow::Result<(&'static str, Option<Vec<u8>>)> {
    let kind = rng.below(9);
    Ok(match kind {
        0 | 1 => ("removed", None),
        2 => ("truncated", Some(good[..rng.usize(good.len())].to_vec())),
        3 => {
            // damage the header of the compressed data
            let mut g = good.to_vec();
            let i = g.len() - payload + rng.usize(4);
            g[i] ^= 1 << rng.below(8);
            ("damaged", Some(g))
        }
        4 => {
            let n = rng.usize(60);
            ("replaced by noise", Some((0..n).map(|_| 0xf8 | rng.next() as u8).collect()))
        }
        5 => ("emptied", Some(vec![])),
        6 | 7 => {
            // a position in the keystream that no block of this stream has
            let e = envelope(good)?;
            let len = e.2.len() as u64;
            let off = if kind == 6 { u64::MAX - rng.below(2 * len) } else { 1u64 << rng.range(20, 64) };
            ("with an impossible position", Some(DagCborCodec.encode(&Envelope(off, e.1, Ipld::Bytes(e.2)))?))
        }
        _ => {
            let e = envelope(good)?;
            ("without payload", Some(DagCborCodec.encode(&Envelope(e.0, e.1, Ipld::Integer(7)))?))
        }
    })
}

/// faults while reading
pub fn c15(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(1 + size);
    let o = GenOpts { retain: seed % 3 == 0, ..GenOpts::all(size) };
    for _ in 0..n {
        let op = w.gen_op(&o);
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
    }
    let nodes = w.nodes()?;
    let linked: Vec<Node> = nodes.iter().filter(|x| x.index.link().is_some()).cloned().collect();
    if linked.is_empty() {
        return Ok(stat(&w, 0));
    }
    let mut evals = 0;
    for _ in 0..3 {
        let victim = linked[w.rng.usize(linked.len())].clone();
        let link = victim.index.link().unwrap();
        let good = w.store.lock().map.get(&link).cloned().unwrap();
        // every kind of damage makes the block unreadable, so the expectations are the same
        let missing = true;
        let (kind, bad) = damage(&mut w.rng, &good, victim.payload)?;
        {
            let mut s = w.store.lock();
            match bad {
                None => {
                    s.map.remove(&link);
                }
                Some(b) => {
                    s.map.insert(link, b.into());
                }
            }
        }
        w.history.push(format!("block {} of the level {} node at {} {}", link, victim.index.level(), victim.offset, kind));
        *h = w.history.clone();
        let f: Fo = Forest::new(w.store.clone(), BranchCache::new(if w.rng.chance(1, 2) { 0 } else { 1 << 20 }));
        let tree = w.b.snapshot();
        let q = w.gen_q();
        let qq = q.build();
        let limit = 10_000usize;
        let total = w.model.len() as u64;
        let exp = w.expect_q(&q);
        // forward
        let mut got = vec![];
        let mut it = f.iter_filtered(&tree, qq.clone());
        let mut err = false;
        for k in 0.. {
            ensure!(k < limit, "iter_filtered does not terminate");
            match it.next() {
                None => break,
                Some(Ok(x)) => {
                    ensure!(!err, "iter_filtered continues after an error");
                    got.push(x)
                }
                Some(Err(_)) => {
                    ensure!(!err, "iter_filtered yields more than one error");
                    err = true
                }
            }
        }
        if missing {
            ensure!(got.len() <= exp.len() && got[..] == exp[..got.len()], "iter_filtered yields wrong data before the error: {}", first_diff(&got, &exp));
            ensure!(err || got.len() == exp.len(), "iter_filtered silently stops early although a block is missing");
        }
        // reverse
        let mut at = total;
        let mut err = false;
        let mut it = f.iter_filtered_chunked_reverse(&tree, qq.clone(), &extra);
        for k in 0.. {
            ensure!(k < limit, "iter_filtered_chunked_reverse does not terminate");
            match it.next() {
                None => break,
                Some(Ok(c)) => {
                    ensure!(!err, "reverse iteration continues after an error");
                    if missing {
                        ensure!(c.range.end == at, "reverse chunk {:?} does not end at {}", c.range, at);
                        at = c.range.start;
                        let e: Vec<_> = exp.iter().filter(|x| c.range.contains(&x.0)).cloned().collect();
                        same!(c.data, e, "reverse chunk {:?} with a block missing", c.range);
                    }
                }
                Some(Err(_)) => {
                    ensure!(!err, "reverse iteration yields more than one error");
                    err = true
                }
            }
        }
        ensure!(!missing || err || at == 0, "reverse iteration silently stops early although a block is missing");
        // indexes
        for reverse in [false, true] {
            let mut it: Box<dyn Iterator<Item = Result<Index<TT>>>> =
                if reverse { Box::new(f.iter_index_reverse(&tree, qq.clone())) } else { Box::new(f.iter_index(&tree, qq.clone())) };
            let mut err = false;
            for k in 0.. {
                ensure!(k < limit, "iter_index (reverse={}) does not terminate after an error", reverse);
                match it.next() {
                    None => break,
                    Some(Ok(_)) => ensure!(!err, "iter_index continues after an error"),
                    Some(Err(_)) => {
                        ensure!(!err, "iter_index yields more than one error");
                        err = true;
                    }
                }
            }
        }
        // random access, collect and the rest of the read api
        let opt = w.expect_opt();
        for i in 0..total.min(40) {
            let r = f.get(&tree, i);
            if missing {
                let hit = victim.offset <= i && i < victim.offset + victim.index.count();
                match r {
                    Ok(x) => {
                        ensure!(!hit || opt[i as usize].is_none(), "get({}) succeeds although a block on its path is missing", i);
                        ensure!(x == opt[i as usize], "get({}) = {:?}", i, x)
                    }
                    Err(_) => ensure!(hit, "get({}) fails although its path is complete", i),
                }
            }
        }
        let r = f.collect(&tree);
        if missing {
            ensure!(r.is_err(), "collect succeeds although a block is missing");
        }
        let _ = f.check_invariants(&w.b);
        let _ = f.is_packed(&tree);
        let _ = f.roots(&w.b);
        let _ = f.left_roots(&tree);
        let _ = f.dump_graph(&tree, |_| ());
        if let Some(root) = w.b.link() {
            let r: Result<Tree<TT, Val>> = f.load_tree(w.secrets.clone(), root);
            if missing && root == link {
                ensure!(r.is_err(), "load_tree succeeds although the root is missing");
            }
            let r: Result<B> = f.load_stream_builder(w.secrets.clone(), w.cfg.clone(), root);
            if missing && root == link {
                ensure!(r.is_err(), "load_stream_builder succeeds although the root is missing");
            }
            // wrong secrets: an error, or at least no panic
            let s = gen_secrets(&mut w.rng);
            let r: Result<Tree<TT, Val>> = f.load_tree(s, root);
            if let Ok(t) = r {
                let _ = f.collect(&t);
            }
        }
        w.store.lock().map.insert(link, good);
        evals += 12;
    }
    Ok(stat(&w, evals))
}

/// blocks that are validly encrypted but malformed inside
pub fn c15_crafted(seed: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let nonce = <&banyan::chacha20::XNonce>::try_from(<TT as banyan::TreeTypes>::NONCE).unwrap();
    let empty: Vec<Index<TT>> = vec![];
    let kind = if w.rng.chance(1, 40) { 2 } else { [0, 1, 3, 4, 5][w.rng.usize(5)] };
    let (key, comp, name) = match kind {
        0 => (*w.secrets.index_key(), ZstdDagCborSeq::from_iter_ipld(empty.iter(), 1)?.compressed().to_vec(), "branch block with zero children"),
        1 => (*w.secrets.index_key(), ZstdDagCborSeq::from_iter(vec![7u64].iter(), 1)?.compressed().to_vec(), "branch block with a number instead of an index"),
        2 => (*w.secrets.index_key(), zstd::block::compress(&vec![0u8; 17 << 20], 1)?, "branch block that decompresses to more than 16 MB"),
        3 => (*w.secrets.index_key(), ZstdDagCborSeq::from_iter(vec![String::from("x"), String::from("y")].iter(), 1)?.compressed().to_vec(), "branch block with strings"),
        4 => {
            let n = 1 + w.rng.usize(40);
            let junk: Vec<u8> = (0..n).map(|_| 0xff - (w.rng.below(4) as u8)).collect();
            (*w.secrets.index_key(), zstd::block::compress(&junk, 1)?, "branch block with bytes that are no cbor")
        }
        _ => (*w.secrets.index_key(), vec![1, 2, 3, 4, 5], "branch block that is not compressed"),
    };
    w.history.push(name.into());
    *h = w.history.clone();
    let off = w.rng.below(1000);
    let data = craft(&comp, &key, nonce, off)?;
    let link = {
        use banyan::store::BlockWriter;
        w.store.put(data)?
    };
    let r: Result<T> = w.forest().load_tree(w.secrets.clone(), link);
    ensure!(r.is_err(), "load_tree accepts a {}", name);
    let r: Result<B> = w.forest().load_stream_builder(w.secrets.clone(), w.cfg.clone(), link);
    ensure!(r.is_err(), "load_stream_builder accepts a {}", name);
    // the same block below a valid root: splice it in for some branch
    for _ in 0..3 {
        let x = w.items(12);
        w.apply(&Op::Extend(x))?;
    }
    let nodes = w.nodes()?;
    let bs: Vec<&Node> = nodes.iter().filter(|n| !is_leaf(&n.index)).collect();
    let v = bs[w.rng.usize(bs.len())].index.link().unwrap();
    let bad = w.store.lock().map.get(&link).cloned().unwrap();
    w.store.lock().map.insert(v, bad);
    let f: Fo = Forest::new(w.store.clone(), BranchCache::new(0));
    let tree = w.b.snapshot();
    ensure!(f.collect(&tree).is_err(), "collect accepts a {}", name);
    let n = f.iter_from(&tree).take(10_000).filter(|x| x.is_err()).count();
    ensure!(n == 1, "iter_from yields {} errors for a {}", n, name);
    let n = f.iter_index(&tree, banyan::query::AllQuery).take(10_000).filter(|x| x.is_err()).count();
    ensure!(n == 1, "iter_index yields {} errors for a {}", n, name);
    let mut b2 = B::new(w.cfg.clone(), w.secrets.clone());
    std::mem::swap(&mut b2, &mut w.b);
    let report = w.txn.repair(&mut b2)?;
    ensure!(!report.is_empty(), "repair does not notice a {}", name);
    Ok(Stat { evals: 5, nontrivial: true, sample: name.into() })
}

/// persistence: closure of links, write order, snapshots, reload
pub fn c16(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut snaps: Vec<(T, Option<Sha>, Vec<Option<(Key, Val)>>)> = vec![];
    let o = GenOpts { faults: seed % 2 == 0, ..GenOpts::all(size) };
    history(seed, size, o, h, |w, _| {
        let mut evals = 0;
        // write order and closure
        let mut seen: HashSet<Sha> = HashSet::new();
        let log = w.store.lock().log.clone();
        for (l, data) in &log {
            let (_, links, _) = envelope(data)?;
            for c in links {
                let c = Sha::try_from(c)?;
                ensure!(seen.contains(&c), "block {} was written before the block {} it refers to", l, c);
            }
            seen.insert(*l);
            evals += 1;
        }
        // the cleartext links of each block are exactly the links of its content
        for n in w.nodes()? {
            if let (Index::Branch(_), Some(l)) = (&n.index, n.index.link()) {
                let data = w.store.lock().map.get(l).cloned().unwrap();
                let mut a: Vec<Cid> = envelope(&data)?.1;
                let mut b: Vec<Cid> = n.children.iter().filter_map(|c| *c.link()).map(Cid::from).collect();
                a.sort();
                b.sort();
                b.dedup();
                ensure!(a == b, "links of block {} are {:?}, its children are {:?}", l, a, b);
            }
        }
        // old snapshots are unaffected
        for (t, link, c) in &snaps {
            ensure!(t.link() == *link, "link of a snapshot changed");
            let got = w.forest().collect(t)?;
            same!(got, c, "an old snapshot changed");
            evals += 1;
        }
        let tree = w.b.snapshot();
        let exp = w.expect_opt();
        if let Some(root) = tree.link() {
            ensure!(seen.contains(&root), "the root was never written");
            // reload as a tree and as a builder, with fresh caches
            let f: Fo = Forest::new(w.store.clone(), BranchCache::new(0));
            let t: T = f.load_tree(w.secrets.clone(), root)?;
            ensure!(t.count() == tree.count() && t.level() == tree.level() && t.link() == Some(root), "load_tree: count {} level {}", t.count(), t.level());
            same!(f.collect(&t)?, exp, "load_tree content");
            let b: B = f.load_stream_builder(w.secrets.clone(), w.cfg.clone(), root)?;
            if !w.retained {
                ensure!(format!("{:?}", b.as_index_ref()) == format!("{:?}", w.b.as_index_ref()), "load_stream_builder does not restore the index: {:?} instead of {:?}", b.as_index_ref(), w.b.as_index_ref());
            }
            same!(f.collect(&b.snapshot())?, exp, "load_stream_builder content");
            evals += 2;
        }
        if snaps.len() < 6 {
            snaps.push((tree.clone(), tree.link(), exp));
        }
        Ok(evals)
    })
}

/// results do not depend on the branch cache
pub fn c10_branch(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    let mut w = World::new(seed);
    let n = 1 + w.rng.below(1 + size);
    let o = GenOpts::all(size);
    for _ in 0..n {
        let op = w.gen_op(&o);
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
    }
    let tree = w.b.snapshot();
    let exp = w.expect_opt();
    let q = w.gen_q();
    let qe = w.expect_q(&q);
    let shared = BranchCache::<TT>::new(w.rng.pick(&[1usize, 500, 3000, 1 << 20]));
    for round in 0..3 {
        for cache in [BranchCache::new(0), BranchCache::new(1), BranchCache::new(2000), BranchCache::default(), shared.clone()] {
            let f: Fo = Forest::new(w.store.clone(), cache);
            same!(f.collect(&tree)?, exp, "collect with another branch cache");
            let got = f.iter_filtered(&tree, q.build()).collect::<Result<Vec<_>>>()?;
            same!(got, qe, "iter_filtered with another branch cache");
            same!(f.collect(&tree)?, exp, "second collect with another branch cache");
        }
        if round == 1 {
            shared.reset(std::num::NonZeroUsize::new(1000).unwrap());
        }
    }
    // the cache maps a link to what was put for it
    for node in w.nodes()? {
        if let (Index::Branch(_), Some(l)) = (&node.index, node.index.link()) {
            let c = BranchCache::<TT>::new(1 << 20);
            ensure!(c.get(l).is_none(), "new cache is not empty");
            c.put(*l, Branch::new(node.children.clone(), 0..1));
            let g = c.get(l).ok_or_else(|| anyhow!("cache lost a small branch"))?;
            ensure!(format!("{:?}", g.children) == format!("{:?}", node.children), "cache returns another branch");
            let c0 = BranchCache::<TT>::new(0);
            c0.put(*l, Branch::new(node.children.clone(), 0..1));
            ensure!(c0.get(l).is_none(), "disabled cache returns a branch");
        }
    }
    Ok(stat(&w, 15))
}

/// matching events of a model at offsets lo..=hi, below an offset
fn events_in(model: &[Elem], q: &Q, lo: u64, hi: u64, range: std::ops::Range<u64>) -> Vec<(u64, Key, Val)> {
    model
        .iter()
        .enumerate()
        .map(|(i, e)| (i as u64, e))
        .filter(|(i, e)| !e.purged && *i >= lo && *i <= hi && range.contains(i) && q.matches(*i, e.key))
        .map(|(i, e)| (i, Key(e.key), e.val.clone()))
        .collect()
}
/// streaming over a sequence of growing trees that arrive while the stream is consumed
pub fn c17(seed: u64, size: u64, h: &mut Vec<String>) -> R {
    use banyan::query::{AndQuery, OffsetRangeQuery};
    use futures::{channel::mpsc, executor::ThreadPool, FutureExt, Stream};
    use std::pin::Pin;
    thread_local!(static POOL: ThreadPool = ThreadPool::builder().pool_size(1).create().unwrap());
    let mut w = World::new(seed);
    let o = GenOpts { retain: w.rng.chance(1, 4), ..GenOpts::all(size) };
    let mut trees: Vec<(T, Vec<Elem>)> = vec![];
    let n = 1 + w.rng.below(2 + size);
    for _ in 0..n {
        if w.rng.chance(2, 3) {
            trees.push((w.b.snapshot(), w.model.clone()));
        }
        let op = w.gen_op(&o);
        let r = w.apply(&op);
        *h = w.history.clone();
        r?;
    }
    trees.push((w.b.snapshot(), w.model.clone()));
    let count = w.model.len() as u64;
    let mut evals = 0;
    for _ in 0..4 {
        let mode = w.rng.below(4);
        let q = w.gen_q();
        let start = if w.rng.chance(1, 2) { 0 } else { w.rng.below(count + 2) };
        let end = if w.rng.chance(1, 3) { u64::MAX } else { w.rng.below(count + 2) };
        let (start, end) = if mode == 0 { (0, u64::MAX) } else { (start, end) };
        let reverse = mode == 3;
        let len = w.history.len();
        w.history.push(format!("{} query {:?} range {}..={}", ["stream_trees", "stream_trees_chunked", "stream_trees_chunked_threaded", "stream_trees_chunked_reverse"][mode as usize], q, start, end));
        // some blocks are missing while the first few trees are streamed
        let nodes: Vec<Node> = w.nodes()?.into_iter().filter(|x| x.index.link().is_some()).collect();
        let mut missing = vec![];
        let broken = if mode != 2 && w.rng.chance(1, 2) && !nodes.is_empty() { 1 + w.rng.usize(trees.len()) } else { 0 };
        if broken > 0 {
            let v = nodes[w.rng.usize(nodes.len())].index.link().unwrap();
            let b = w.store.lock().map.remove(&v).unwrap();
            missing.push((v, b));
            w.history.push(format!("block {} missing while the first {} of {} trees are streamed", v, broken, trees.len()));
        }
        *h = w.history.clone();
        let f: Fo = Forest::new(w.store.clone(), BranchCache::new(0));
        let qq = q.build();
        let (tx, rx) = mpsc::unbounded::<T>();
        type Item = Result<(Option<Chunk>, Vec<(u64, Key, Val)>)>;
        let mut s: Pin<Box<dyn Stream<Item = Item>>> = match mode {
            0 => Box::pin(f.stream_trees(qq.clone(), rx).map(|x| x.map(|x| (None, vec![x])))),
            1 => Box::pin(f.stream_trees_chunked(qq.clone(), rx, start..=end, &extra).map(|x| x.map(|c| (Some(c.clone()), c.data)))),
            2 => Box::pin(f.stream_trees_chunked_threaded(qq.clone(), rx, start..=end, &extra, POOL.with(|p: &ThreadPool| p.clone())).map(|x| x.map(|c| (Some(c.clone()), c.data)))),
            _ => Box::pin(f.stream_trees_chunked_reverse(qq.clone(), rx, start..=end, &extra).map(|x| x.map(|c| (Some(c.clone()), c.data)))),
        };
        let mut got: Vec<(u64, Key, Val)> = vec![];
        let mut exp: Vec<(u64, Key, Val)> = vec![];
        let (mut lo, mut hi, mut done, mut ended) = (start, end, false, false);
        for (k, (t, model)) in trees.iter().enumerate() {
            if k == broken {
                for (v, b) in missing.drain(..) {
                    w.store.lock().map.insert(v, b);
                }
            }
            // what this tree adds
            if !done && t.index().is_some() {
                let band = AndQuery(OffsetRangeQuery::from(lo..=hi), qq.clone());
                let (lo0, hi0) = (lo, hi);
                let chunks: Vec<Result<Chunk>> = if reverse { f.iter_filtered_chunked_reverse(t, band, &extra).collect() } else { f.iter_filtered_chunked(t, band, &extra).collect() };
                for c in chunks {
                    let c = match c {
                        Ok(c) => c,
                        Err(_) => break,
                    };
                    exp.extend(events_in(model, &q, lo0, hi0, c.range.clone()));
                    if reverse {
                        hi = hi.min(c.range.start.saturating_sub(1));
                        if c.range.start <= start {
                            done = true;
                            break;
                        }
                    } else {
                        lo = lo.max(c.range.end);
                        if mode != 2 && c.range.end > end {
                            done = true;
                            break;
                        }
                    }
                }
            }
            tx.unbounded_send(t.clone()).ok();
            // consume some of it, or all that is there
            let wait = k + 1 == broken || w.rng.chance(1, 2);
            let mut take = if wait { usize::MAX } else { w.rng.usize(6) };
            while mode != 2 && take > 0 && !ended {
                take -= 1;
                match s.next().now_or_never() {
                    None => {
                        ensure!(!done, "the stream waits for more trees although the range was delivered");
                        same!(got, exp, "events delivered after tree {}", k);
                        break;
                    }
                    Some(None) => {
                        ensure!(done, "the stream ended although more trees may come");
                        ended = true;
                    }
                    Some(Some(x)) => got.extend(x?.1),
                }
            }
            evals += 1;
        }
        drop(tx);
        while let Some(x) = if ended { None } else { block_on(s.next()) } {
            got.extend(x?.1);
        }
        for (v, b) in missing.drain(..) {
            w.store.lock().map.insert(v, b);
        }
        same!(got, exp, "events delivered");
        if broken == 0 && !w.retained {
            // nothing was dropped and everything could be read: the events of the newest tree, once and in order
            let all = events_in(&w.model, &q, start, end, 0..count);
            if reverse {
                let mut g = got.clone();
                g.sort_by_key(|x| x.0);
                ensure!(g.windows(2).all(|x| x[0].0 < x[1].0), "an event is delivered twice");
            } else {
                same!(got, all, "events of the newest tree");
            }
        }
        let mut os: Vec<u64> = got.iter().map(|x| x.0).collect();
        os.sort_unstable();
        ensure!(os.windows(2).all(|x| x[0] < x[1]), "an event is delivered twice: offsets {:?}", os);
        w.history.truncate(len);
    }
    Ok(stat(&w, evals))
}
