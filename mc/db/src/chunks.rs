//! D16: a counted tree can be fetched piece by piece: the trunk and the
//! branches below it give every element once, and a piece that was tampered
//! with tells nothing that isn't so.
use std::collections::BTreeMap;

use grovedb::{
    GroveBranchQueryResult, GroveTrunkQueryResult, LeafInfo, PathBranchChunkQuery, PathTrunkChunkQuery,
    reference_path::ReferencePathType as R,
    Element, GroveDb,
};
use grovedb_merk::{
    proofs::{branch::calculate_max_tree_depth_from_count, encode_into, Decoder, Op as MOp},
    TrunkQueryResult,
};
use grovedb_version::version::{v2::GROVE_V2, GroveVersion};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

use crate::{
    audit::{show_path, Hash, Path, Tree},
    engine::{initial, snap_bytes, Db, State},
    forged::{claims, fulls, known, mutations, L},
    maps::{item, k, p},
    model::{join, v, Op},
};

pub fn spec() -> Spec {
    Spec { id: "D16", level: "model_checking", run: d16 }
}

/// The part of a tree below a key: its elements down to a depth, and its nodes
/// at that depth with something below them.
struct Part {
    elements: BTreeMap<Vec<u8>, Element>,
    leaves: BTreeMap<Vec<u8>, LeafInfo>,
}

/// A node with what its parent says of it.
fn find(t: &Tree, key: &[u8]) -> Option<Hash> {
    let mut at = t.root_key.clone()?;
    let mut hash = t.root_hash;
    loop {
        let n = &t.nodes[&at];
        let l = match key.cmp(at.as_slice()) {
            std::cmp::Ordering::Equal => return Some(hash),
            std::cmp::Ordering::Less => n.left.as_ref()?,
            std::cmp::Ordering::Greater => n.right.as_ref()?,
        };
        hash = l.hash;
        at = l.key.clone();
    }
}

fn count(t: &Tree, key: &[u8]) -> u64 {
    let n = &t.nodes[key];
    n.own.count + [&n.left, &n.right].into_iter().flatten().map(|l| l.agg.count).sum::<u64>()
}

fn info(t: &Tree, key: &[u8]) -> LeafInfo {
    LeafInfo { hash: find(t, key).unwrap(), count: t.kind.provable().then(|| count(t, key)) }
}

fn part(t: &Tree, key: &[u8], depth: usize) -> Part {
    fn go(t: &Tree, key: &[u8], depth: usize, out: &mut Part) {
        let n = &t.nodes[key];
        out.elements.insert(key.to_vec(), n.element.clone());
        for l in [&n.left, &n.right].into_iter().flatten() {
            if depth > 1 {
                go(t, &l.key, depth - 1, out);
            } else {
                out.leaves.insert(key.to_vec(), info(t, key));
            }
        }
    }
    let mut out = Part { elements: BTreeMap::new(), leaves: BTreeMap::new() };
    if depth > 0 {
        go(t, key, depth, &mut out);
    }
    out
}

/// The keys from one node down to another.
fn route(t: &Tree, from: &[u8], key: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![from.to_vec()];
    loop {
        let at = out.last().unwrap().clone();
        let n = &t.nodes[&at];
        let l = match key.cmp(at.as_slice()) {
            std::cmp::Ordering::Equal => return Some(out),
            std::cmp::Ordering::Less => &n.left,
            std::cmp::Ordering::Greater => &n.right,
        };
        out.push(l.as_ref()?.key.clone());
    }
}

/// What is told of a piece.
trait Piece {
    fn elements(&self) -> &BTreeMap<Vec<u8>, Element>;
    fn leaves(&self) -> &BTreeMap<Vec<u8>, LeafInfo>;
    fn trace(&self, key: &[u8]) -> Option<(Vec<u8>, LeafInfo)>;
    fn ancestor(&self, key: &[u8], least: u64) -> Option<(u8, u64, Vec<u8>, Hash)>;
}
impl Piece for GroveTrunkQueryResult {
    fn elements(&self) -> &BTreeMap<Vec<u8>, Element> {
        &self.elements
    }
    fn leaves(&self) -> &BTreeMap<Vec<u8>, LeafInfo> {
        &self.leaf_keys
    }
    fn trace(&self, key: &[u8]) -> Option<(Vec<u8>, LeafInfo)> {
        self.trace_key_to_leaf(key)
    }
    fn ancestor(&self, key: &[u8], least: u64) -> Option<(u8, u64, Vec<u8>, Hash)> {
        self.get_ancestor(key, least)
    }
}
impl Piece for GroveBranchQueryResult {
    fn elements(&self) -> &BTreeMap<Vec<u8>, Element> {
        &self.elements
    }
    fn leaves(&self) -> &BTreeMap<Vec<u8>, LeafInfo> {
        &self.leaf_keys
    }
    fn trace(&self, key: &[u8]) -> Option<(Vec<u8>, LeafInfo)> {
        self.trace_key_to_leaf(key)
    }
    fn ancestor(&self, key: &[u8], least: u64) -> Option<(u8, u64, Vec<u8>, Hash)> {
        self.get_ancestor(key, least)
    }
}

fn keys(k: &[u8]) -> String {
    kit::hex(k)
}

/// Nothing that is told is wrong: elements, leaves, and where other keys are.
fn sound(t: &Tree, from: Option<&[u8]>, r: &dyn Piece) -> Res {
    for (key, e) in r.elements() {
        ensure!(t.nodes.get(key).is_some_and(|n| n.element == *e), "{} is told to be {e:?}", keys(key));
    }
    for (key, l) in r.leaves() {
        ensure!(t.nodes.contains_key(key), "a leaf {} that isn't there", keys(key));
        ensure_eq!(*l, info(t, key), "leaf {}", keys(key));
    }
    let Some(from) = from else { return Ok(()) };
    for key in t.nodes.keys() {
        let Some(way) = route(t, from, key) else { continue };
        let got = r.trace(key);
        if r.elements().contains_key(key) {
            ensure!(got.is_none(), "{} is traced to a leaf", keys(key));
            continue;
        }
        let Some((leaf, l)) = got else { return Err(format!("{} isn't traced to a leaf", keys(key))) };
        ensure!(way.contains(&leaf), "{} is traced to {}", keys(key), keys(&leaf));
        ensure_eq!(l, info(t, &leaf), "leaf of {}", keys(key));
    }
    Ok(())
}

/// A piece is just what it should be.
fn exact(t: &Tree, from: &[u8], depth: usize, r: &dyn Piece) -> Res {
    let want = part(t, from, depth);
    ensure_eq!(*r.elements(), want.elements, "elements");
    ensure_eq!(*r.leaves(), want.leaves, "leaves");
    sound(t, Some(from), r)?;
    for key in t.nodes.keys() {
        let way = route(t, from, key).filter(|_| r.elements().contains_key(key));
        let Some(way) = way else { continue };
        let last = way.len() - 1;
        for least in [0, 1, 2, 3, 5, 8, 1000] {
            let n = |i: usize| if t.kind.provable() { count(t, &way[i]) } else { 0 };
            let enough = (1..last).rev().find(|i| t.kind.provable() && n(*i) >= least);
            let want = enough.or((last > 1).then_some(1)).map(|i| {
                ((last - i) as u8, n(i), way[i].clone(), find(t, &way[i]).unwrap())
            });
            ensure_eq!(r.ancestor(key, least), want, "ancestor of {} with {least}", keys(key));
        }
    }
    for key in absent(t) {
        ensure!(r.ancestor(&key, 1).is_none(), "{} has an ancestor", keys(&key));
        if let Some((leaf, l)) = r.trace(&key) {
            ensure_eq!(r.leaves().get(&leaf), Some(&l), "leaf of the absent {}", keys(&key));
        }
    }
    Ok(())
}

fn absent(t: &Tree) -> Vec<Vec<u8>> {
    let mut out = vec![vec![0u8; 0], vec![255; 4]];
    for key in t.nodes.keys() {
        let mut far = key.clone();
        far.push(0);
        out.push(far);
    }
    out.retain(|k| !t.nodes.contains_key(k));
    out
}

/// The height of the highest AVL tree of `n` nodes.
fn highest(n: u64) -> u8 {
    let (mut a, mut b, mut h) = (0u64, 1u64, 0u8);
    // b is the least number of nodes of a tree of height h + 1
    while b <= n {
        (a, b) = (b, a + b + 1);
        h += 1;
    }
    h
}

/// How a tree is to be cut.
fn depths(total: u8, max: u8, min: Option<u8>, got: &[u8]) -> Res {
    let all = got.iter().map(|x| *x as u32).sum::<u32>();
    ensure_eq!(all, total as u32, "depths {got:?} of {total} by {max}");
    ensure!(got.iter().all(|x| *x <= max && *x > 0), "depths {got:?} by {max}");
    ensure_eq!(got.len(), (total as usize).div_ceil(max as usize), "depths {got:?} of {total} by {max}");
    if total > max {
        if let Some(m) = min {
            ensure!(got[0] >= m, "depths {got:?} for at least {m}");
        }
        let rest = if min.is_some() { &got[1..] } else { got };
        ensure!(rest.windows(2).all(|w| w[0] >= w[1]), "depths {got:?} don't shrink");
        let (a, b) = (rest.iter().max(), rest.iter().min());
        ensure!(a.unwrap_or(&0) - b.unwrap_or(&0) <= 1, "depths {got:?} aren't even");
    }
    Ok(())
}

fn proof_ops(b: &[u8]) -> Vec<MOp> {
    Decoder::new(b).map(|o| o.unwrap()).collect()
}
fn op_bytes(ops: &[MOp]) -> Vec<u8> {
    let mut b = vec![];
    encode_into(ops.iter(), &mut b);
    b
}

fn branch(ctx: &Ctx, db: &Db, t: &Tree, path: &Path, key: &[u8], depth: u8, expect: Hash, g: &GroveVersion) -> Result<GroveBranchQueryResult, String> {
    let e = |e: grovedb::Error| format!("branch {} of {depth}: {e}", keys(key));
    let q = PathBranchChunkQuery { path: path.clone(), key: key.to_vec(), depth };
    let proof = db.prove_branch_chunk(&q, g).unwrap().map_err(e)?;
    let r = GroveDb::verify_branch_chunk_proof(&proof, &q, expect, g).map_err(e)?;
    ctx.step();
    let b = |e: String| format!("branch {} of {depth}: {e}", keys(key));
    ensure_eq!(r.branch_root_hash, find(t, key).unwrap(), "{}", b("hash".into()));
    exact(t, key, depth as usize, &r).map_err(b)?;
    let n = db.prove_branch_chunk_non_serialized(&q, g).unwrap().map_err(e)?;
    ensure_eq!(op_bytes(&n.proof), proof, "{}", b("the proof before it is encoded".into()));
    ensure_eq!(n.branch_root_key, key.to_vec(), "{}", b("root key".into()));
    ensure_eq!(n.branch_root_hash, r.branch_root_hash, "{}", b("root hash".into()));
    ensure_eq!(n.returned_depth, depth, "{}", b("depth".into()));
    terminals(t, key, &r, &|k| n.trace_key_to_terminal(k)).map_err(b)?;
    Ok(r)
}

/// What merk tells from the proof itself.
fn terminals(t: &Tree, from: &[u8], r: &dyn Piece, trace: &dyn Fn(&[u8]) -> Option<Vec<u8>>) -> Res {
    for key in t.nodes.keys() {
        if route(t, from, key).is_some() {
            ensure_eq!(trace(key), r.trace(key).map(|x| x.0), "terminal of {}", keys(key));
        }
    }
    Ok(())
}

fn trunk_query(path: &Path, max: u8, min: Option<u8>) -> PathTrunkChunkQuery {
    match min {
        None => PathTrunkChunkQuery::new(path.clone(), max),
        Some(m) => PathTrunkChunkQuery::new_with_min_depth(path.clone(), max, m),
    }
}

fn honest(ctx: &Ctx, st: &State, db: &Db, path: &Path, max: u8, min: Option<u8>, g: &GroveVersion) -> Res {
    let t = &st.audit.trees[path];
    let q = trunk_query(path, max, min);
    let proof = match db.prove_trunk_chunk(&q, g).unwrap() {
        Ok(p) => p,
        Err(e) => {
            let odd = min.is_some_and(|m| m == 0 || m > max) && t.kind.provable();
            ctx.outcome("impossible depths");
            return if odd { Ok(()) } else { Err(format!("no proof: {e}")) };
        }
    };
    let (root, r) = GroveDb::verify_trunk_chunk_proof(&proof, &q, g).map_err(|e| format!("the trunk is refused: {e}"))?;
    ctx.step();
    ensure_eq!(root, st.audit.root_hash, "root hash");
    let Some(top) = &t.root_key else {
        ctx.outcome("nothing");
        ensure!(r.elements.is_empty() && r.leaf_keys.is_empty(), "elements of an empty tree");
        ensure!(r.chunk_depths.is_empty() && r.max_tree_depth == 0, "depths of an empty tree");
        return Ok(());
    };
    ensure_eq!(r.max_tree_depth, highest(t.agg.count), "depth for {}", t.agg.count);
    depths(r.max_tree_depth, max, min.filter(|_| t.kind.provable()), &r.chunk_depths)?;
    let first = r.chunk_depths[0] as usize;
    exact(t, top, first, &r)?;
    ctx.outcome(&format!("{} pieces", r.chunk_depths.len()));
    // what merk tells of the trunk
    let ops = inner(&proof, path);
    let m = TrunkQueryResult { proof: ops, chunk_depths: r.chunk_depths.clone(), tree_depth: r.max_tree_depth };
    let mut got = m.terminal_node_keys();
    got.sort();
    ensure_eq!(got, r.leaf_keys.keys().cloned().collect::<Vec<_>>(), "terminal keys");
    terminals(t, top, &r, &|k| m.trace_key_to_terminal(k))?;
    m.verify_terminal_nodes_at_expected_depth().map_err(|e| format!("terminal nodes: {e}"))?;
    let mut other = m.clone();
    other.chunk_depths[0] += 1;
    ensure!(
        other.verify_terminal_nodes_at_expected_depth().is_err() != r.leaf_keys.is_empty(),
        "terminal nodes at another depth"
    );
    Ok(())
}

/// The operations for the tree that was asked for.
fn inner(proof: &[u8], path: &Path) -> Vec<MOp> {
    use grovedb::operations::proof::{GroveDBProof, ProofBytes};
    let conf = bincode::config::standard().with_big_endian().with_no_limit();
    let (pr, _): (GroveDBProof, usize) = bincode::decode_from_slice(proof, conf).unwrap();
    match pr {
        GroveDBProof::V0(p) => {
            let mut l = &p.root_layer;
            for k in path {
                l = &l.lower_layers[k];
            }
            proof_ops(&l.merk_proof)
        }
        GroveDBProof::V1(p) => {
            let mut l = &p.root_layer;
            for k in path {
                l = &l.lower_layers[k];
            }
            let ProofBytes::Merk(b) = &l.merk_proof else { panic!() };
            proof_ops(b)
        }
    }
}

/// Trunk and branches give the whole tree.
fn fetched(ctx: &Ctx, st: &State, db: &Db, path: &Path, max: u8, step: u8, g: &GroveVersion) -> Res {
    let t = &st.audit.trees[path];
    let q = trunk_query(path, max, None);
    let proof = db.prove_trunk_chunk(&q, g).unwrap().map_err(|e| format!("no proof: {e}"))?;
    let (_, r) = GroveDb::verify_trunk_chunk_proof(&proof, &q, g).map_err(|e| format!("the trunk is refused: {e}"))?;
    let mut all = r.elements.clone();
    let mut todo: Vec<(Vec<u8>, LeafInfo)> = r.leaf_keys.into_iter().collect();
    let mut n = 0;
    while let Some((key, l)) = todo.pop() {
        let r = branch(ctx, db, t, path, &key, step, l.hash, g)?;
        for (k, e) in r.elements {
            ensure!(all.insert(k.clone(), e).is_none() || k == key, "{} comes twice", keys(&k));
        }
        todo.extend(r.leaf_keys);
        n += 1;
        ensure!(n <= t.nodes.len(), "no end");
    }
    let want: BTreeMap<Vec<u8>, Element> = t.nodes.iter().map(|(k, n)| (k.clone(), n.element.clone())).collect();
    ensure_eq!(all, want, "all elements");
    ctx.outcome("whole");
    Ok(())
}

// -------------------------------------------------------------------- worlds

fn kinds() -> [Element; 4] {
    [
        Element::empty_count_tree(),
        Element::empty_count_sum_tree(),
        Element::empty_provable_count_tree(),
        Element::empty_provable_count_sum_tree(),
    ]
}

/// Elements to fill a tree with; those after the first three are of many kinds.
fn filling(mix: usize, x: u8) -> Element {
    let many: Vec<Element> = vec![
        item("x"),
        Element::new_sum_item(x as i64 - 3),
        Element::new_item_with_sum_item(vec![x; 3], 5),
        Element::new_item_with_flags(vec![x], Some(vec![1, 2])),
        Element::empty_tree(),
        Element::empty_sum_tree(),
        Element::empty_mmr_tree(),
        Element::empty_bulk_append_tree(2).unwrap(),
        Element::empty_dense_tree(3),
    ];
    match mix {
        0 => item("x"),
        1 => many[x as usize % many.len()].clone(),
        _ => match x % 4 {
            0 => item("y"),
            1 => Element::new_reference(R::SiblingReference(vec![0])),
            2 => Element::new_reference(R::AbsolutePathReference(p("i"))),
            _ => Element::new_reference(R::SiblingReference(vec![1])),
        },
    }
}

/// A tree of `n` elements at a path, in an order of coming that gives it a shape.
fn world(kind: &Element, path: &Path, n: u8, shape: usize, mix: usize) -> Vec<Op> {
    let mut ops = vec![Op::Insert(vec![], k("i"), item("z"))];
    for i in 1..path.len() {
        ops.push(Op::Insert(path[..i - 1].to_vec(), path[i - 1].clone(), Element::empty_tree()));
    }
    let (last, above) = path.split_last().unwrap();
    ops.push(Op::Insert(above.to_vec(), last.clone(), kind.clone()));
    let extra = if shape == 2 { n / 3 } else { 0 };
    let order: Vec<u8> = (0..n + extra)
        .map(|x| match shape {
            0 => x,
            1 => n - 1 - x,
            _ => ((x as u16 * 37) % 97) as u8,
        })
        .collect();
    if mix == 2 && shape > 0 && n > 0 {
        // what references go to
        ops.push(Op::Insert(path.clone(), vec![0], filling(0, 0)));
    }
    for x in &order {
        ops.push(Op::Insert(path.clone(), vec![*x], filling(if *x == 0 { 0 } else { mix }, *x)));
    }
    if mix != 2 {
        for x in &order[..extra as usize] {
            ops.push(Op::Delete(path.clone(), vec![*x]));
        }
    }
    if mix == 1 {
        // some of the trees hold something
        for x in &order[extra as usize..] {
            if filling(1, *x).is_any_tree() && *x % 2 == 0 {
                let full = join(path, &[*x]);
                match filling(if *x == 0 { 0 } else { 1 }, *x) {
                    Element::MmrTree(..) => ops.push(Op::Mmr(path.clone(), vec![*x], vec![7])),
                    Element::BulkAppendTree(..) => ops.push(Op::Bulk(path.clone(), vec![*x], vec![7])),
                    Element::DenseAppendOnlyFixedSizeTree(..) => ops.push(Op::Dense(path.clone(), vec![*x], vec![7])),
                    _ => ops.push(Op::Insert(full, k("in"), item("w"))),
                }
            }
        }
    }
    ops
}

fn d16(ctx: &Ctx) {
    ctx.case(
        || "depth of a count".into(),
        || {
            for n in (0..5000u64).chain((0..64).flat_map(|s| [(1u64 << s) - 1, 1 << s, (1 << s) + 1])) {
                if n > 1 << 60 {
                    continue;
                }
                ensure_eq!(calculate_max_tree_depth_from_count(n), highest(n), "of {n}");
                ctx.step();
            }
            Ok(())
        },
    );
    cuts(ctx);
    let sizes: Vec<u8> = if ctx.thorough { (0..=54).collect() } else { (0..=13).chain([20, 33]).collect() };
    let mut jobs = vec![];
    for (ki, kind) in kinds().into_iter().enumerate() {
        for path in [p("t"), p("a/b/t")] {
            for n in &sizes {
                for shape in 0..3 {
                    for mix in 0..3 {
                        jobs.push((ki, kind.clone(), path.clone(), *n, shape, mix));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |(ki, kind, path, n, shape, mix)| {
        let name = format!("kind {ki} at {} with {n} elements, shape {shape}, mix {mix}", show_path(path));
        let st = match initial(&world(kind, path, *n, *shape, *mix)) {
            Ok(s) => s,
            Err(e) => {
                ctx.case(|| name.clone(), || Err(e.clone()));
                return;
            }
        };
        ctx.state(&snap_bytes(&st.snap));
        let db = Db::at(&st.snap);
        for (vn, g) in [("v0", &GROVE_V2), ("v1", v())] {
            if vn == "v0" && *mix == 2 {
                // proofs of that version don't have what references are checked with
                continue;
            }
            for max in 1..=6u8 {
                for min in [None].into_iter().chain((0..=max + 1).map(Some)) {
                    ctx.case(
                        || format!("{name}: {vn} trunk of {max}, at least {min:?}"),
                        || honest(ctx, &st, &db, path, max, min, g),
                    );
                }
                for step in 2..=5u8 {
                    ctx.case(
                        || format!("{name}: {vn} trunk of {max} and branches of {step}"),
                        || fetched(ctx, &st, &db, path, max, step, g),
                    );
                }
            }
            let t = &st.audit.trees[path];
            for key in t.nodes.keys() {
                for depth in 1..=4u8 {
                    ctx.case(
                        || format!("{name}: {vn} branch {} of {depth}", keys(key)),
                        || branch(ctx, &db, t, path, key, depth, find(t, key).unwrap(), g).map(|_| ()),
                    );
                }
            }
            for key in absent(t) {
                ctx.case(
                    || format!("{name}: {vn} branch at the absent {}", keys(&key)),
                    || {
                        let q = PathBranchChunkQuery::new(path.clone(), key.clone(), 2);
                        ensure!(db.prove_branch_chunk(&q, g).unwrap().is_err(), "it is proved");
                        Ok(())
                    },
                );
            }
        }
    });
    forged(ctx);
}

/// Every depth and every way to cut it.
fn cuts(ctx: &Ctx) {
    use grovedb_merk::proofs::branch::{calculate_chunk_depths, calculate_chunk_depths_with_minimum};
    for total in 0..=92u8 {
        for max in 0..=255u8 {
            ctx.case(
                || format!("depth {total} by {max}"),
                || {
                    ctx.step();
                    let r = calculate_chunk_depths(total, max);
                    match r {
                        Err(_) => ensure_eq!(max, 0, "it is refused"),
                        Ok(d) if total == 0 => ensure_eq!(d, vec![0], "no depth"),
                        Ok(d) => depths(total, max, None, &d)?,
                    }
                    for min in 0..=max.saturating_add(1) {
                        match calculate_chunk_depths_with_minimum(total, max, min) {
                            Err(_) => ensure!(max == 0 || min == 0 || min > max, "at least {min} is refused"),
                            Ok(d) if total == 0 => ensure_eq!(d, vec![0], "no depth"),
                            Ok(d) => depths(total, max, Some(min), &d)?,
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ forgeries

fn forged(ctx: &Ctx) {
    let mut jobs = vec![];
    for (ki, kind) in kinds().into_iter().enumerate() {
        for path in [p("t"), p("a/t")] {
            for (n, mix) in [(0u8, 0), (1, 0), (3, 1), (8, 1), (4, 2), (7, 2)] {
                for max in [1u8, 2, 3] {
                    jobs.push((ki, kind.clone(), path.clone(), n, mix, max));
                }
            }
        }
    }
    ctx.par(&jobs, |(ki, kind, path, n, mix, max)| {
        let name = format!("kind {ki} at {} with {n} elements, mix {mix}, depth {max}", show_path(path));
        let st = match initial(&world(kind, path, *n, 0, *mix)) {
            Ok(s) => s,
            Err(e) => {
                ctx.case(|| name.clone(), || Err(e.clone()));
                return;
            }
        };
        let db = Db::at(&st.snap);
        let (kn, cl) = (known(&st), claims());
        let full = fulls(&db, &st);
        let t = &st.audit.trees[path];
        let q = trunk_query(path, *max, None);
        let Ok(proof) = db.prove_trunk_chunk(&q, v()).unwrap() else { return };
        let Ok((_, base)) = GroveDb::verify_trunk_chunk_proof(&proof, &q, v()) else { return };
        let judge = |bad: &[u8], what: &dyn Fn() -> String| {
            ctx.case(
                || format!("{name}: {}", what()),
                || {
                    ctx.step();
                    match GroveDb::verify_trunk_chunk_proof(bad, &q, v()) {
                        Err(_) => ctx.outcome("refused"),
                        Ok((h, _)) if h != st.audit.root_hash => ctx.outcome("another root hash"),
                        Ok((_, r)) => {
                            ctx.outcome(if r.elements == base.elements { "the same" } else { "another cut" });
                            sound(t, t.root_key.as_deref(), &r)?;
                            ensure_eq!(r.chunk_depths, base.chunk_depths, "depths");
                            ensure_eq!(r.max_tree_depth, base.max_tree_depth, "depth");
                        }
                    }
                    Ok(())
                },
            );
        };
        for i in 0..proof.len() {
            for x in [1u8, 0x80, 0xff] {
                let mut b = proof.clone();
                b[i] ^= x;
                judge(&b, &|| format!("byte {i}^{x}"));
            }
            judge(&proof[..i], &|| format!("cut to {i}"));
        }
        mutations(&crate::forged::parse(&proof), &kn, &cl, &full, &mut |l, what| judge(&crate::forged::bytes(l), what));
        // branches
        for key in t.nodes.keys() {
            let q = PathBranchChunkQuery::new(path.clone(), key.clone(), *max);
            let Ok(proof) = db.prove_branch_chunk(&q, v()).unwrap() else { continue };
            let want = find(t, key).unwrap();
            let judge = |bad: &[u8], what: &dyn Fn() -> String| {
                ctx.case(
                    || format!("{name}: branch {} {}", keys(key), what()),
                    || {
                        ctx.step();
                        match GroveDb::verify_branch_chunk_proof(bad, &q, want, v()) {
                            Err(_) => ctx.outcome("refused"),
                            Ok(r) => {
                                ctx.outcome("accepted");
                                ensure_eq!(r.branch_root_hash, want, "hash");
                                sound(t, Some(key), &r)?;
                            }
                        }
                        Ok(())
                    },
                );
            };
            for i in 0..proof.len() {
                for x in [1u8, 0x80, 0xff] {
                    let mut b = proof.clone();
                    b[i] ^= x;
                    judge(&b, &|| format!("byte {i}^{x}"));
                }
                judge(&proof[..i], &|| format!("cut to {i}"));
            }
            let l = L { ops: Ok(proof_ops(&proof)), low: BTreeMap::new() };
            mutations(&l, &kn, &cl, &BTreeMap::new(), &mut |l, what| {
                if let Ok(ops) = &l.ops {
                    judge(&op_bytes(ops), what)
                }
            });
        }
    });
}
