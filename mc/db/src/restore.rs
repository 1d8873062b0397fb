//! A merk tree, taken apart into chunks and put together again.
use std::collections::{BTreeMap, BTreeSet};

use grovedb_merk::{
    ed::Encode,
    merk::restore::Restorer,
    proofs::{
        chunk::{
            chunk_op::ChunkOp,
            util::{
                chunk_height, chunk_index_from_traversal_instruction, chunk_index_from_traversal_instruction_with_recovery,
                generate_traversal_instruction, generate_traversal_instruction_as_vec_bytes, number_of_chunks,
                number_of_chunks_under_chunk_id, traversal_instruction_as_vec_bytes, vec_bytes_as_traversal_instruction,
            },
        },
        Node, Op,
    },
    tree::kv::ValueDefinedCostType,
    tree_type::TreeType,
    ChunkProducer, Merk, Op as Write, TreeFeatureType as F,
};
use grovedb_path::SubtreePath;
use grovedb_storage::{
    rocksdb_storage::{PrefixedRocksDbImmediateStorageContext as Context, RocksDbStorage},
    Storage,
};
use grovedb_version::version::GroveVersion;
use kit::{ensure, ensure_eq, hex, Ctx, Res};
use rocksdb::{model as mem, Snapshot};

use crate::{
    engine::{fresh_path, snap_bytes},
    model::v,
};

type Way = Vec<bool>;

/// A search tree: the left and the right branch of its root.
#[derive(Clone)]
enum T {
    None,
    Node(Box<(T, T)>),
}
impl T {
    fn height(&self) -> usize {
        match self {
            T::None => 0,
            T::Node(b) => 1 + b.0.height().max(b.1.height()),
        }
    }
    fn len(&self) -> usize {
        match self {
            T::None => 0,
            T::Node(b) => 1 + b.0.len() + b.1.len(),
        }
    }
    /// The nodes by their way from the root (true is left) and by number.
    fn nodes(&self, way: &mut Way, next: &mut usize, out: &mut BTreeMap<Way, usize>) {
        if let T::Node(b) = self {
            way.push(true);
            b.0.nodes(way, next, out);
            way.pop();
            out.insert(way.clone(), *next);
            *next += 1;
            way.push(false);
            b.1.nodes(way, next, out);
            way.pop();
        }
    }
}

/// All balanced trees of n nodes.
fn balanced(n: usize, of: &[Vec<T>]) -> Vec<T> {
    if n == 0 {
        return vec![T::None];
    }
    let mut out = vec![];
    for l in 0..n {
        for a in &of[l] {
            for b in of[n - 1 - l].iter().filter(|b| a.height().abs_diff(b.height()) <= 1) {
                out.push(T::Node(Box::new((a.clone(), b.clone()))));
            }
        }
    }
    out
}

/// The thinnest tree of a height; the deeper branch is told by the height.
fn thin(h: usize, deep_left: &dyn Fn(usize) -> bool) -> T {
    if h == 0 {
        return T::None;
    }
    let (a, b) = (thin(h - 1, deep_left), thin(h.saturating_sub(2), deep_left));
    T::Node(Box::new(if deep_left(h) { (a, b) } else { (b, a) }))
}

fn full(h: usize) -> T {
    match h {
        0 => T::None,
        _ => T::Node(Box::new((full(h - 1), full(h - 1)))),
    }
}

// where chunks begin: a model of the addresses

/// Heights of the layers from the top: threes, then twos, as few twos as can be.
fn layers(h: usize) -> Vec<usize> {
    (0..=h / 2 + 1)
        .find_map(|twos| (h.max(2) >= 2 * twos && (h.max(2) - 2 * twos) % 3 == 0).then(|| [vec![3; (h.max(2) - 2 * twos) / 3], vec![2; twos]].concat()))
        .unwrap()
}

/// The ways to all places where chunks may begin, in order of their numbers,
/// with the layer they are on.
fn places(h: usize) -> Vec<(Way, usize)> {
    fn add(ls: &[usize], layer: usize, way: &mut Way, out: &mut Vec<(Way, usize)>) {
        out.push((way.clone(), layer));
        if layer + 1 < ls.len() {
            for i in 0..1usize << ls[layer] {
                let at = way.len();
                way.extend((0..ls[layer]).rev().map(|b| i >> b & 1 == 0));
                add(ls, layer + 1, way, out);
                way.truncate(at);
            }
        }
    }
    let mut out = vec![];
    if h > 0 {
        add(&layers(h), 0, &mut vec![], &mut out);
    }
    out
}

fn addresses(ctx: &Ctx, h: usize) -> Res {
    let all = places(h);
    let ls = layers(h);
    ensure_eq!(number_of_chunks(h), all.len(), "number of chunks");
    let mut seen = BTreeMap::new();
    for (i, (way, layer)) in all.iter().enumerate() {
        ctx.step();
        let n = i + 1;
        seen.insert(way.clone(), n);
        ensure_eq!(generate_traversal_instruction(h, n).map_err(|e| e.to_string())?, *way, "the way to chunk {n}");
        ensure_eq!(chunk_index_from_traversal_instruction(way, h).map_err(|e| e.to_string())?, n, "the number at {way:?}");
        let bytes: Vec<u8> = way.iter().map(|l| u8::from(*l)).collect();
        ensure_eq!(traversal_instruction_as_vec_bytes(way), bytes, "bytes");
        ensure_eq!(generate_traversal_instruction_as_vec_bytes(h, n).map_err(|e| e.to_string())?, bytes, "the address of {n}");
        ensure_eq!(vec_bytes_as_traversal_instruction(&bytes).map_err(|e| e.to_string())?, *way, "from bytes");
        ensure_eq!(chunk_height(h, n).map_err(|e| e.to_string())?, ls[*layer], "height of chunk {n}");
        let below = all.iter().filter(|(w, _)| w.starts_with(way)).count();
        ensure_eq!(number_of_chunks_under_chunk_id(h, n).map_err(|e| e.to_string())?, below, "chunks under {n}");
    }
    for n in [0, all.len() + 1, usize::MAX] {
        ensure!(generate_traversal_instruction(h, n).is_err(), "chunk {n} has a way");
        ensure!(chunk_height(h, n).is_err() && number_of_chunks_under_chunk_id(h, n).is_err(), "chunk {n} has a height");
    }
    // any way, to a chunk or not
    if h > 0 {
        for len in 0..=(h + 1).min(11) {
            for i in 0..1usize << len {
                ctx.step();
                let way: Way = (0..len).map(|b| i >> b & 1 == 1).collect();
                let got = chunk_index_from_traversal_instruction(&way, h).ok();
                ensure_eq!(got, seen.get(&way).copied(), "the number at {way:?}");
                let above = (0..=len).rev().find_map(|l| seen.get(&way[..l])).copied();
                ensure_eq!(chunk_index_from_traversal_instruction_with_recovery(&way, h).ok(), above, "the chunk above {way:?}");
            }
        }
    }
    for bad in [vec![2], vec![0, 3], vec![255, 1]] {
        ensure!(vec_bytes_as_traversal_instruction(&bad).is_err(), "{bad:?} is taken for a way");
    }
    Ok(())
}

// trees

fn feature(t: TreeType, i: usize) -> F {
    let s = if i % 5 == 3 { i as i64 } else { 0 };
    match t {
        TreeType::SumTree => F::SummedMerkNode(s),
        TreeType::BigSumTree => F::BigSummedMerkNode(s.into()),
        TreeType::CountTree => F::CountedMerkNode(1),
        TreeType::CountSumTree => F::CountedSummedMerkNode(1, s),
        TreeType::ProvableCountTree => F::ProvableCountedMerkNode(1),
        TreeType::ProvableCountSumTree => F::ProvableCountedSummedMerkNode(1, s),
        _ => F::BasicMerkNode,
    }
}

fn key(i: usize) -> Vec<u8> {
    // of different lengths
    [vec![i as u8 + 1], vec![7; i % 3]].concat()
}

fn value(i: usize) -> Vec<u8> {
    let e = match i % 5 {
        3 => grovedb::Element::new_sum_item(i as i64),
        4 => grovedb::Element::new_reference(grovedb::reference_path::ReferencePathType::SiblingReference(vec![i as u8])),
        _ => grovedb::Element::new_item_with_flags(vec![i as u8; 1 + 9 * (i % 4)], (i % 2 == 0).then(|| vec![1])),
    };
    e.serialize(v()).unwrap()
}

struct Store {
    path: String,
    storage: Option<RocksDbStorage>,
}
impl Store {
    fn new() -> Store {
        let path = fresh_path();
        Store { storage: Some(RocksDbStorage::default_rocksdb_with_path(&path).unwrap()), path }
    }
    fn snap(&self) -> Snapshot {
        mem::snapshot(&self.path).unwrap()
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        self.storage = None;
        mem::remove(&self.path);
    }
}

fn with<R>(
    s: &Store,
    t: TreeType,
    commit: bool,
    f: impl for<'a> FnOnce(Merk<Context<'a>>) -> Result<R, String>,
) -> Result<R, String> {
    let st = s.storage.as_ref().unwrap();
    let tx = st.start_transaction();
    let merk = Merk::open_base(
        st.get_immediate_storage_context(SubtreePath::empty(), &tx).unwrap(),
        t,
        None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
        v(),
    )
    .unwrap()
    .map_err(|e| e.to_string())?;
    let r = f(merk);
    if commit {
        st.commit_transaction(tx).unwrap().map_err(|e| e.to_string())?;
    }
    r
}

/// Stores a tree of the given shape: level by level, which needs no rotation.
fn source(shape: &T, t: TreeType) -> Result<Store, String> {
    let mut nodes = BTreeMap::new();
    shape.nodes(&mut vec![], &mut 0, &mut nodes);
    let mut order: Vec<(Way, usize)> = nodes.into_iter().collect();
    order.sort_by_key(|(w, i)| (w.len(), *i));
    let s = Store::new();
    with(&s, t, true, |mut merk| {
        for (_, i) in &order {
            let op = match i % 5 {
                4 => Write::PutCombinedReference(value(*i), [*i as u8; 32], feature(t, *i)),
                _ => Write::Put(value(*i), feature(t, *i)),
            };
            merk.apply::<_, Vec<u8>>(&[(key(*i), op)], &[], None, v()).unwrap().map_err(|e| e.to_string())?;
        }
        Ok(())
    })?;
    Ok(s)
}

type Chunk = Vec<Op>;
type Restored<'a> = Restorer<Context<'a>>;

/// The keys in a chunk and the number of hashes that stand for what is below.
fn content(c: &[Op]) -> (Vec<Vec<u8>>, usize) {
    let mut keys = vec![];
    let mut hashes = 0;
    for o in c {
        match o {
            Op::Push(Node::Hash(_)) => hashes += 1,
            Op::Push(
                Node::KV(k, _) | Node::KVValueHash(k, ..) | Node::KVValueHashFeatureType(k, ..) | Node::KVCount(k, ..),
            ) => keys.push(k.clone()),
            Op::Parent | Op::Child => {}
            _ => keys.push(b"what is this".to_vec()),
        }
    }
    (keys, hashes)
}

fn clone(c: &[Op]) -> Chunk {
    c.to_vec()
}

struct Src {
    t: TreeType,
    root: [u8; 32],
    bytes: Vec<u8>,
    chunks: BTreeMap<Vec<u8>, Chunk>,
}

/// Restores from single chunks, asking for what is next in the given order, and
/// offering wrong chunks in between.
fn restore(s: &Src, order: &dyn Fn(usize, usize) -> usize, wrong: bool) -> Result<usize, String> {
    let to = Store::new();
    let mut steps = 0;
    with(&to, s.t, true, |merk| {
        let mut r: Restored = Restorer::new(merk, s.root, None);
        let mut asked: Vec<Vec<u8>> = vec![vec![]];
        let mut done: BTreeSet<Vec<u8>> = BTreeSet::new();
        while !asked.is_empty() {
            if wrong {
                for (id, c) in &s.chunks {
                    for a in asked.iter().chain(&done) {
                        if id != a || done.contains(a) {
                            ensure!(r.process_chunk(a, clone(c), v()).is_err(), "chunk {} is taken for {}, {} done", hex(id), hex(a), done.len());
                        }
                    }
                    if !asked.contains(id) {
                        ensure!(r.process_chunk(id, clone(c), v()).is_err(), "chunk {} is taken before it is asked for", hex(id));
                    }
                }
            }
            let id = asked.remove(order(steps, asked.len()));
            steps += 1;
            let c = s.chunks.get(&id).ok_or_else(|| format!("asked for {}, which has nothing", hex(&id)))?;
            let more = r.process_chunk(&id, clone(c), v()).map_err(|e| format!("chunk {}: {e}", hex(&id)))?;
            let want: BTreeSet<&Vec<u8>> = s
                .chunks
                .keys()
                .filter(|k| k.len() > id.len() && k.starts_with(&id) && !s.chunks.keys().any(|m| m.len() > id.len() && m.len() < k.len() && m.starts_with(&id) && k.starts_with(m)))
                .collect();
            ensure_eq!(more.iter().collect::<BTreeSet<_>>(), want, "asks after {}", hex(&id));
            asked.extend(more);
            done.insert(id);
        }
        ensure_eq!(done.len(), s.chunks.len(), "chunks asked for");
        let m = r.finalize(v()).map_err(|e| format!("at the end: {e}"))?;
        ensure_eq!(m.root_hash().unwrap(), s.root, "root hash");
        Ok(())
    })?;
    ensure!(snap_bytes(&to.snap()) == s.bytes, "what is stored differs");
    Ok(steps)
}

fn size(c: &[ChunkOp]) -> usize {
    c.iter()
        .map(|o| match o {
            ChunkOp::ChunkId(_) => o.encoding_length().unwrap(),
            ChunkOp::Chunk(c) => c.encoding_length().unwrap(),
        })
        .sum()
}

fn tree(ctx: &Ctx, shape: &T, t: TreeType, deep: bool) -> Res {
    let e = |e: grovedb_merk::Error| e.to_string();
    let h = shape.height();
    let src = source(shape, t)?;
    let mut nodes = BTreeMap::new();
    shape.nodes(&mut vec![], &mut 0, &mut nodes);
    // the chunks there are
    let all = places(h);
    let there: Vec<usize> = (1..=all.len()).filter(|n| nodes.contains_key(&all[n - 1].0)).collect();
    let ls = layers(h);
    let bytes = snap_bytes(&src.snap());
    ctx.state(&bytes);
    let s = with(&src, t, false, |merk| {
        ensure_eq!(merk.height(), Some(h as u8), "height");
        let root = merk.root_hash().unwrap();
        let mut chunks = BTreeMap::new();
        let mut p = ChunkProducer::new(&merk).map_err(e)?;
        ensure_eq!(p.len(), all.len(), "number of chunks");
        for n in 0..=all.len() + 1 {
            ctx.step();
            let got = p.chunk_with_index(n, v());
            if !there.contains(&n) {
                ensure!(got.is_err(), "a chunk {n}");
                continue;
            }
            let (c, next) = got.map_err(|x| format!("chunk {n}: {x}"))?;
            let (way, layer) = &all[n - 1];
            let inside = |w: &Way| w.starts_with(way) && w.len() < way.len() + ls[*layer];
            let below = |w: &Way| w.starts_with(way) && w.len() == way.len() + ls[*layer];
            let mut want: Vec<usize> = nodes.iter().filter(|(w, _)| inside(w)).map(|x| *x.1).collect();
            want.sort();
            let (keys, hashes) = content(&c);
            ensure_eq!(keys, want.into_iter().map(key).collect::<Vec<_>>(), "keys in chunk {n}");
            ensure_eq!(hashes, nodes.keys().filter(|w| below(w)).count(), "hashes in chunk {n}");
            let after = there.iter().copied().find(|m| *m > n);
            ensure_eq!(next, after, "the next after chunk {n}");
            let id = traversal_instruction_as_vec_bytes(way);
            let (c2, next) = p.chunk(&id, v()).map_err(e)?;
            ensure!(c == c2, "chunk {n} and {}", hex(&id));
            ensure_eq!(next, after.map(|m| traversal_instruction_as_vec_bytes(&all[m - 1].0)), "the next after {}", hex(&id));
            chunks.insert(id, c);
        }
        // one after the other
        let mut p = ChunkProducer::new(&merk).map_err(e)?;
        for (i, n) in there.iter().enumerate() {
            let (c, next) = p.next(v()).ok_or("no next chunk")?.map_err(|x| format!("the {i}th chunk: {x}"))?;
            ensure!(c == chunks[&traversal_instruction_as_vec_bytes(&all[n - 1].0)], "the {i}th chunk");
            ensure_eq!(next, there.get(i + 1).map(|m| traversal_instruction_as_vec_bytes(&all[m - 1].0)), "after the {i}th");
        }
        ensure!(p.next(v()).is_none(), "more chunks than there are");
        Ok(Src { t, root, bytes: bytes.clone(), chunks })
    })?;
    // in every order
    let n = s.chunks.len();
    let mut orders: Vec<Vec<usize>> = vec![];
    if n <= ctx.pick(5, 6) {
        fn all(n: usize, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if at.len() == n {
                return out.push(at.clone());
            }
            for i in 0..(n - at.len()) {
                at.push(i);
                all(n, at, out);
                at.pop();
            }
        }
        all(n, &mut vec![], &mut orders);
    } else {
        orders.extend((0..4).map(|k| vec![k; n]));
        orders.push(vec![usize::MAX; n]);
    }
    let mut seen = BTreeSet::new();
    for o in &orders {
        let took = std::sync::Mutex::new(vec![]);
        let pick = |step: usize, asked: usize| {
            let i = o[step].min(asked - 1);
            took.lock().unwrap().push(i);
            i
        };
        // the same choices are made where there is less to choose from
        let mut prefix = o.clone();
        prefix[0] = 0;
        if !seen.insert(prefix) {
            continue;
        }
        ctx.step();
        restore(&s, &pick, deep && seen.len() < 4).map_err(|x| format!("in the order {:?}: {x}", took.lock().unwrap()))?;
    }
    // in the wrong order
    let id = || ChunkOp::ChunkId(vec![]);
    let chunk = || ChunkOp::Chunk(clone(&s.chunks[&vec![]]));
    for (what, bad) in [("no address", vec![chunk()]), ("two addresses", vec![id(), id(), chunk()]), ("two chunks", vec![id(), chunk(), chunk()])] {
        let to = Store::new();
        with(&to, t, false, |merk| {
            let mut r: Restored = Restorer::new(merk, s.root, None);
            ensure!(r.process_multi_chunk(bad, v()).is_err(), "{what} is accepted");
            Ok(())
        })?;
    }
    // several at once
    with(&src, t, false, |merk| {
        let mut p = ChunkProducer::new(&merk).map_err(e)?;
        let mut tried = BTreeSet::new();
        let whole = p.multi_chunk_with_limit(&[], None, v()).map_err(|x| format!("all at once: {x}"))?;
        ensure!(whole.next_index.is_none(), "all at once leaves {:?}", whole.next_index);
        let most = size(&whole.chunk);
        let ids: Vec<Vec<u8>> = there.iter().map(|n| traversal_instruction_as_vec_bytes(&all[n - 1].0)).collect();
        let first = ids.iter().enumerate().take(ctx.pick(if deep { 4 } else { 2 }, ids.len()));
        for (from, limit) in first.flat_map(|(i, _)| {
            let step = if deep { 1 + 6 * i.min(1) } else { (most / 60).max(1) };
            (0..=most + 40).step_by(step).map(Some).chain([None]).map(move |l| (i, l))
        }) {
            ctx.step();
            let mut at: Option<Vec<u8>> = Some(ids[from].clone());
            let mut parts: Vec<(Option<Vec<u8>>, Vec<ChunkOp>)> = vec![];
            while let Some(id) = at {
                let m = match p.multi_chunk_with_limit(&id, limit, v()) {
                    Ok(m) => m,
                    Err(x) => {
                        let need = s.chunks[&id].encoding_length().unwrap() + 2 + id.len();
                        ensure!(limit.is_some_and(|l| l < need), "limit {limit:?} from {}: {x}", hex(&id));
                        parts.clear();
                        break;
                    }
                };
                let n = size(&m.chunk);
                ensure!(limit.is_none_or(|l| n <= l), "limit {limit:?} from {}: {n} bytes", hex(&id));
                ensure_eq!(m.remaining_limit, limit.map(|l| l - n), "limit {limit:?} from {}: left", hex(&id));
                let ids = m.chunk.iter().find_map(|o| if let ChunkOp::ChunkId(w) = o { Some(traversal_instruction_as_vec_bytes(w)) } else { None });
                ensure_eq!(ids.as_ref(), Some(&id), "limit {limit:?}: begins");
                // no more would fit
                if let (Some(l), Some(next)) = (limit, &m.next_index) {
                    let more = s.chunks[next].encoding_length().unwrap() + 2 + next.len();
                    ensure!(n + more > l, "limit {l} from {}: {n} bytes, and {more} more would do", hex(&id));
                }
                at = m.next_index.clone();
                parts.push((m.next_index, m.chunk));
            }
            if parts.is_empty() || !tried.insert((from, parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>())) {
                continue;
            }
            let to = Store::new();
            with(&to, t, true, |merk| {
                let mut r: Restored = Restorer::new(merk, s.root, None);
                for id in &ids[..from] {
                    r.process_chunk(id, clone(&s.chunks[id]), v()).map_err(|x| format!("chunk {}: {x}", hex(id)))?;
                }
                for (_, part) in parts {
                    r.process_multi_chunk(part, v()).map_err(|x| format!("limit {limit:?} from {}: {x}", hex(&ids[from])))?;
                }
                r.finalize(v()).map_err(|x| format!("limit {limit:?}, at the end: {x}"))?;
                Ok(())
            })?;
            ensure!(snap_bytes(&to.snap()) == s.bytes, "limit {limit:?}: what is stored differs");
        }
        Ok(())
    })
}

pub fn d24(ctx: &Ctx) {
    let most = ctx.pick(12, 16);
    ctx.bound(format!("addresses: trees of heights 1..={}; every chunk, every way of up to 11 steps", most));
    ctx.par(&(1..=most).collect::<Vec<usize>>(), |h| {
        ctx.case(|| format!("addresses of height {h}"), || addresses(ctx, *h));
    });
    let n = ctx.pick(14, 17);
    let mut of: Vec<Vec<T>> = vec![];
    for i in 0..=n {
        let l = balanced(i, &of);
        of.push(l);
    }
    let mut jobs: Vec<(T, TreeType, bool)> = vec![];
    for l in &of[1..] {
        for s in l {
            jobs.push((s.clone(), TreeType::NormalTree, s.len() < ctx.pick(12, 14)));
        }
    }
    let ways: [&dyn Fn(usize) -> bool; 4] = [&|_| true, &|_| false, &|h| h % 2 == 0, &|h| h % 3 == 0];
    for h in 4..=8 {
        for w in ways {
            jobs.push((thin(h, w), TreeType::NormalTree, false));
        }
        jobs.push((full(h.min(7)), TreeType::NormalTree, false));
    }
    for t in [
        TreeType::SumTree,
        TreeType::BigSumTree,
        TreeType::CountTree,
        TreeType::CountSumTree,
        TreeType::ProvableCountTree,
        TreeType::ProvableCountSumTree,
    ] {
        for l in &of[1..=ctx.pick(12, 14)] {
            for s in l {
                jobs.push((s.clone(), t, false));
            }
        }
        for w in ways {
            jobs.push((thin(5, w), t, false));
        }
    }
    ctx.bound(format!("chunks: all {} balanced trees of up to {n} keys, the thinnest and the full ones of heights up to {}, smaller ones of six further kinds", of[1..].iter().map(Vec::len).sum::<usize>(), 8));
    ctx.par(&jobs, |(s, t, deep)| {
        let mut nodes = BTreeMap::new();
        s.nodes(&mut vec![], &mut 0, &mut nodes);
        let show = || nodes.keys().map(|w| w.iter().map(|l| if *l { 'l' } else { 'r' }).collect::<String>()).collect::<Vec<_>>().join(" ");
        ctx.case(|| format!("{t:?} [{}]", show()), || tree(ctx, s, *t, *deep));
    });
}
