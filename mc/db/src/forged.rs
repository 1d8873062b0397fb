//! Forged proofs: whatever is changed in an honest proof, the verifier either
//! refuses it, or arrives at another root hash, or at the honest results.
use std::collections::BTreeMap;

use grovedb::{
    operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, ProofBytes},
    reference_path::ReferencePathType,
    Element, GroveDb, PathQuery, SizedQuery,
};
use grovedb_merk::{
    proofs::{encode_into, query::QueryItem, Decoder, Node, Op, Query},
    TreeFeatureType,
};
use kit::{ensure, Ctx, Res};

use crate::{
    audit::{show_path, value_hash, Hash, Path},
    engine::{initial, snap_bytes, Db, State},
    maps::{k, p},
    model::{v, Op as Op2},
    queries::{self, bases, key, leaves, nested, query, sub},
};

// ------------------------------------------------------------- proof values

/// A layer of a proof, taken apart.
#[derive(Clone)]
pub struct L {
    pub ops: Result<Vec<Op>, ProofBytes2>,
    pub low: BTreeMap<Vec<u8>, L>,
}
/// Proof bytes of other kinds.
#[derive(Clone)]
pub struct ProofBytes2(pub u8, pub Vec<u8>);

fn conf() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_no_limit()
}
pub fn parse(bytes: &[u8]) -> L {
    let (pr, _): (GroveDBProof, usize) = bincode::decode_from_slice(bytes, conf()).unwrap();
    let GroveDBProof::V1(pr) = pr else { panic!("v0") };
    take(&pr.root_layer)
}
fn take(l: &LayerProof) -> L {
    let ops = match &l.merk_proof {
        ProofBytes::Merk(b) => Ok(Decoder::new(b).map(|o| o.unwrap()).collect()),
        ProofBytes::MMR(b) => Err(ProofBytes2(0, b.clone())),
        ProofBytes::BulkAppendTree(b) => Err(ProofBytes2(1, b.clone())),
        ProofBytes::DenseTree(b) => Err(ProofBytes2(2, b.clone())),
        ProofBytes::CommitmentTree(b) => Err(ProofBytes2(3, b.clone())),
    };
    L { ops, low: l.lower_layers.iter().map(|(k, l)| (k.clone(), take(l))).collect() }
}
fn make(l: &L) -> LayerProof {
    let merk_proof = match &l.ops {
        Ok(ops) => {
            let mut b = vec![];
            encode_into(ops.iter(), &mut b);
            ProofBytes::Merk(b)
        }
        Err(ProofBytes2(0, b)) => ProofBytes::MMR(b.clone()),
        Err(ProofBytes2(1, b)) => ProofBytes::BulkAppendTree(b.clone()),
        Err(ProofBytes2(2, b)) => ProofBytes::DenseTree(b.clone()),
        Err(ProofBytes2(_, b)) => ProofBytes::CommitmentTree(b.clone()),
    };
    LayerProof {
        merk_proof,
        lower_layers: l.low.iter().map(|(k, l)| (k.clone(), make(l))).collect(),
    }
}
pub fn bytes(l: &L) -> Vec<u8> {
    bincode::encode_to_vec(GroveDBProof::V1(GroveDBProofV1 { root_layer: make(l) }), conf()).unwrap()
}

pub fn key_of(n: &Node) -> Option<&Vec<u8>> {
    match n {
        Node::KV(k, ..)
        | Node::KVValueHash(k, ..)
        | Node::KVRefValueHash(k, ..)
        | Node::KVValueHashFeatureType(k, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(k, ..)
        | Node::KVDigest(k, ..)
        | Node::KVDigestCount(k, ..)
        | Node::KVCount(k, ..)
        | Node::KVRefValueHashCount(k, ..) => Some(k),
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
    }
}
fn show_node(n: &Node) -> String {
    let name = format!("{n:?}");
    let name = name.split('(').next().unwrap().to_string();
    let val = match n {
        Node::KV(_, v)
        | Node::KVValueHash(_, v, ..)
        | Node::KVRefValueHash(_, v, ..)
        | Node::KVValueHashFeatureType(_, v, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(_, v, ..)
        | Node::KVCount(_, v, ..)
        | Node::KVRefValueHashCount(_, v, ..) => {
            Element::deserialize(v, crate::model::v()).map_or(kit::hex(v), |e| crate::model::show_el(&e))
        }
        _ => String::new(),
    };
    match key_of(n) {
        Some(k) => format!("{name}[{}]{val}", String::from_utf8_lossy(k)),
        None => name,
    }
}
pub fn show(l: &L) -> String {
    let mut s = String::from("(");
    match &l.ops {
        Ok(ops) => {
            for o in ops {
                s += &match o {
                    Op::Push(n) => format!("{} ", show_node(n)),
                    Op::PushInverted(n) => format!("~{} ", show_node(n)),
                    o => format!("{o:?} "),
                };
            }
        }
        Err(b) => s += &format!("kind {} {} bytes", b.0, b.1.len()),
    }
    for (k, l) in &l.low {
        s += &format!("; {}: {}", String::from_utf8_lossy(k), show(l));
    }
    s + ")"
}

// ---------------------------------------------------------------- mutations

/// What the adversary knows of the database.
pub struct Known {
    /// value hash and value by key, as far as any element has them
    by_key: BTreeMap<Vec<u8>, Vec<(Hash, Vec<u8>)>>,
    roots: Vec<Hash>,
}
pub fn known(st: &State) -> Known {
    let mut by_key: BTreeMap<Vec<u8>, Vec<(Hash, Vec<u8>)>> = BTreeMap::new();
    for (path, h) in &st.audit.value_hashes {
        let k = path.last().unwrap().clone();
        by_key.entry(k).or_default().push((*h, st.audit.raw[path].clone()));
    }
    Known { by_key, roots: st.audit.trees.values().map(|t| t.root_hash).collect() }
}

pub fn claims() -> Vec<Vec<u8>> {
    let q = Some(b"q".to_vec());
    [
        Element::new_item(b"forged".to_vec()),
        Element::new_sum_item(99),
        Element::empty_tree(),
        Element::new_tree(q.clone()),
        Element::empty_sum_tree(),
        Element::SumTree(q.clone(), 99, None),
        Element::CountTree(q.clone(), 99, None),
        Element::ProvableCountTree(q.clone(), 99, None),
        Element::ProvableCountTree(None, 0, None),
        Element::Reference(ReferencePathType::AbsolutePathReference(p("a/a")), None, None),
        Element::MmrTree(0, None),
        Element::MmrTree(1, None),
        Element::BulkAppendTree(0, 1, None),
        Element::BulkAppendTree(3, 1, None),
        Element::DenseAppendOnlyFixedSizeTree(0, 2, None),
        Element::DenseAppendOnlyFixedSizeTree(1, 2, None),
        Element::CommitmentTree(0, 1, None),
        Element::CommitmentTree(3, 1, None),
    ]
    .iter()
    .map(|e| e.serialize(v()).unwrap())
    .collect()
}

fn feature(n: &Node) -> TreeFeatureType {
    match n {
        Node::KVValueHashFeatureType(_, _, _, f) | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) => *f,
        Node::KVCount(_, _, c) | Node::KVDigestCount(_, _, c) | Node::KVRefValueHashCount(_, _, _, c) => {
            TreeFeatureType::ProvableCountedMerkNode(*c)
        }
        _ => TreeFeatureType::BasicMerkNode,
    }
}
fn count(f: TreeFeatureType) -> u64 {
    match f {
        TreeFeatureType::ProvableCountedMerkNode(c) | TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => c,
        _ => 1,
    }
}

/// Other nodes in place of one with a key.
fn node_forgeries(n: &Node, kn: &Known, claims: &[Vec<u8>]) -> Vec<Node> {
    let Some(key) = key_of(n) else { return vec![] };
    let f = feature(n);
    let counted = !matches!(f, TreeFeatureType::BasicMerkNode);
    let mut out = vec![];
    // the hash that the node stands for
    let own: Vec<(Hash, Vec<u8>)> = kn.by_key.get(key).cloned().unwrap_or_default();
    let here: Vec<(Hash, Vec<u8>)> = match n {
        Node::KVValueHash(_, v, h) | Node::KVValueHashFeatureType(_, v, h, _) | Node::KVValueHashFeatureTypeWithChildHash(_, v, h, ..) => {
            vec![(*h, v.clone())]
        }
        Node::KV(_, v) | Node::KVCount(_, v, _) => vec![(value_hash(v), v.clone())],
        _ => own,
    };
    for (vh, stored) in &here {
        for c in claims.iter().chain([stored]) {
            let (k, c) = (key.clone(), c.clone());
            let vh = *vh;
            if counted {
                out.push(Node::KVValueHashFeatureType(k.clone(), c.clone(), vh, f));
            } else {
                out.push(Node::KVValueHash(k.clone(), c.clone(), vh));
                out.push(Node::KVValueHashFeatureType(k.clone(), c.clone(), vh, TreeFeatureType::SummedMerkNode(99)));
            }
            for ch in kn.roots.iter().chain([&[0u8; 32]]).filter(|_| &c == stored).chain(kn.roots.first()) {
                out.push(Node::KVValueHashFeatureTypeWithChildHash(k.clone(), c.clone(), vh, f, *ch));
            }
            out.push(if counted {
                Node::KVRefValueHashCount(k.clone(), c.clone(), value_hash(stored), count(f))
            } else {
                Node::KVRefValueHash(k.clone(), c.clone(), value_hash(stored))
            });
            out.push(if counted { Node::KVCount(k, c, count(f)) } else { Node::KV(k, c) });
        }
        out.push(if counted {
            Node::KVDigestCount(key.clone(), *vh, count(f))
        } else {
            Node::KVDigest(key.clone(), *vh)
        });
        let kvh = crate::audit::kv_hash(key, vh);
        out.push(if counted { Node::KVHashCount(kvh, count(f)) } else { Node::KVHash(kvh) });
    }
    out
}

/// Layers that can be put below a key.
fn fake_layers() -> Vec<L> {
    let mmr = grovedb_merkle_mountain_range::MmrTreeProof::new(0, vec![], vec![]).encode_to_vec().unwrap();
    let none = |kind, b: Vec<u8>| L { ops: Err(ProofBytes2(kind, b)), low: BTreeMap::new() };
    vec![
        none(0, mmr),
        none(1, vec![]),
        none(2, vec![]),
        none(3, vec![0; 32]),
        L { ops: Ok(vec![]), low: BTreeMap::new() },
        L { ops: Ok(vec![Op::Push(Node::Hash([0; 32]))]), low: BTreeMap::new() },
    ]
}

/// Proofs of data trees with parts dropped, repeated, exchanged, renamed.
fn rebuilt(b: &ProofBytes2) -> Vec<(String, Vec<u8>)> {
    use grovedb_bulk_append_tree::BulkAppendTreeProof as Bulk;
    use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof as Dense;
    use grovedb_merkle_mountain_range::MmrTreeProof as Mmr;
    /// Every small change of a list.
    fn lists<T: Clone>(l: &[T], alter: &dyn Fn(&T) -> Vec<T>) -> Vec<Vec<T>> {
        let mut out = vec![vec![]];
        for i in 0..l.len() {
            let mut x = l.to_vec();
            x.remove(i);
            out.push(x);
            let mut x = l.to_vec();
            x.insert(i, l[i].clone());
            out.push(x);
            for j in 0..i {
                let mut x = l.to_vec();
                x.swap(i, j);
                out.push(x);
            }
            for e in alter(&l[i]) {
                let mut x = l.to_vec();
                x[i] = e.clone();
                out.push(x);
                let mut x = l.to_vec();
                x.push(e.clone());
                out.push(x);
                let mut x = l.to_vec();
                x.insert(0, e);
                out.push(x);
            }
        }
        if l.len() > 2 {
            let mut x = l.to_vec();
            x.reverse();
            out.push(x);
        }
        out
    }
    let vals = |v: &Vec<u8>| {
        let mut out = vec![vec![], b"forged".to_vec(), [v.clone(), vec![0]].concat()];
        out.push(v[..v.len() / 2].to_vec());
        out
    };
    let mmr = |m: &Mmr| -> Vec<Mmr> {
        let (n, l, h) = (m.mmr_size(), m.leaves(), m.proof_items());
        let mut out = vec![];
        for x in lists(l, &|(i, v)| {
            let mut o: Vec<(u64, Vec<u8>)> = vals(v).into_iter().map(|v| (*i, v)).collect();
            for d in 0..4 {
                o.push((d, v.clone()));
            }
            o.push((u64::MAX, v.clone()));
            o
        }) {
            out.push(Mmr::new(n, x, h.to_vec()));
        }
        for x in lists(h, &|h| h.first().map(|_| [0; 32]).into_iter().collect::<Vec<[u8; 32]>>()) {
            out.push(Mmr::new(n, l.to_vec(), x));
        }
        for n in [0, 1, 3, 4, 7, 8, u64::MAX] {
            out.push(Mmr::new(n, l.to_vec(), h.to_vec()));
        }
        out
    };
    let dense = |d: &Dense| -> Vec<Dense> {
        let mut out = vec![];
        for x in lists(&d.entries, &|(i, v)| {
            let mut o: Vec<(u16, Vec<u8>)> = vals(v).into_iter().map(|v| (*i, v)).collect();
            for d in 0..4 {
                o.push((d, v.clone()));
            }
            o
        }) {
            let mut d = d.clone();
            d.entries = x;
            out.push(d);
        }
        let moved = |(i, h): &(u16, [u8; 32])| {
            let mut o: Vec<(u16, [u8; 32])> = (0..4).map(|d| (d, *h)).collect();
            o.push((*i, [0; 32]));
            o
        };
        for x in lists(&d.node_hashes, &moved) {
            let mut d = d.clone();
            d.node_hashes = x;
            out.push(d);
        }
        for x in lists(&d.node_value_hashes, &moved) {
            let mut d = d.clone();
            d.node_value_hashes = x;
            out.push(d);
        }
        // an entry shown by its hash only, a hash as a whole subtree
        for i in 0..d.entries.len() {
            let mut d = d.clone();
            let (at, v) = d.entries.remove(i);
            let h = *blake3::hash(&v).as_bytes();
            let mut e = d.clone();
            d.node_value_hashes.push((at, h));
            d.node_value_hashes.sort();
            out.push(d);
            e.node_hashes.push((at, h));
            e.node_hashes.sort();
            out.push(e);
        }
        out
    };
    let mut out: Vec<Vec<u8>> = vec![];
    let (head, body) = if b.0 == 3 && b.1.len() >= 32 { b.1.split_at(32) } else { b.1.split_at(0) };
    match b.0 {
        0 => {
            if let Ok(m) = Mmr::decode_from_slice(body) {
                out.extend(mmr(&m).iter().filter_map(|m| m.encode_to_vec().ok()));
            }
        }
        2 => {
            if let Ok(d) = Dense::decode_from_slice(body) {
                out.extend(dense(&d).iter().filter_map(|d| d.encode_to_vec().ok()));
            }
        }
        _ => {
            if let Ok(x) = Bulk::decode_from_slice(body) {
                for m in mmr(&x.chunk_proof) {
                    let mut y = x.clone();
                    y.chunk_proof = m;
                    out.extend(y.encode_to_vec().ok());
                }
                for d in dense(&x.buffer_proof) {
                    let mut y = x.clone();
                    y.buffer_proof = d;
                    out.extend(y.encode_to_vec().ok());
                }
            }
        }
    }
    out.into_iter()
        .enumerate()
        .map(|(i, x)| (format!("rebuilt {i}"), [head.to_vec(), x].concat()))
        .collect()
}

fn at<'a>(l: &'a mut L, path: &[Vec<u8>]) -> &'a mut L {
    let mut l = l;
    for k in path {
        l = l.low.get_mut(k).unwrap();
    }
    l
}
pub fn layers(l: &L, here: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
    out.push(here.clone());
    for (k, s) in &l.low {
        here.push(k.clone());
        layers(s, here, out);
        here.pop();
    }
}

/// Every single change of a proof; the visitor gets the changed proof.
pub fn mutations(base: &L, kn: &Known, claims: &[Vec<u8>], full: &BTreeMap<Path, L>, visit: &mut dyn FnMut(&L, &dyn Fn() -> String)) {
    let mut paths = vec![];
    layers(base, &mut vec![], &mut paths);
    let fakes = fake_layers();
    for path in &paths {
        let mut work = base.clone();
        let layer = at(&mut work, path).clone();
        let keys: Vec<Vec<u8>> = match &layer.ops {
            Ok(ops) => ops
                .iter()
                .filter_map(|o| match o {
                    Op::Push(n) | Op::PushInverted(n) => key_of(n).cloned(),
                    _ => None,
                })
                .collect(),
            Err(_) => vec![],
        };
        // layers taken away, added, exchanged
        for k in &keys {
            let full_path: Path = [path.clone(), vec![k.clone()]].concat();
            let mut alts: Vec<(String, Option<L>)> = vec![];
            if layer.low.contains_key(k) {
                alts.push(("without".into(), None));
            }
            for (i, f) in fakes.iter().enumerate() {
                alts.push((format!("fake {i}"), Some(f.clone())));
            }
            if let Some(l) = full.get(&full_path) {
                alts.push(("full".into(), Some(l.clone())));
            }
            for (name, alt) in &alts {
                let t = at(&mut work, path);
                match alt {
                    Some(l) => t.low.insert(k.clone(), l.clone()),
                    None => t.low.remove(k),
                };
                visit(&work, &|| format!("{} {} {name} layer", show_path(path), String::from_utf8_lossy(k)));
                *at(&mut work, path) = layer.clone();
            }
        }
        if let Some(f) = full.get(path) {
            let t = at(&mut work, path);
            t.ops = f.ops.clone();
            visit(&work, &|| format!("{} full ops", show_path(path)));
            *at(&mut work, path) = layer.clone();
            let t = at(&mut work, path);
            *t = f.clone();
            visit(&work, &|| format!("{} full layer", show_path(path)));
            *at(&mut work, path) = layer.clone();
        }
        let Ok(ops) = &layer.ops else {
            // other kinds of proofs: the bytes themselves
            let Err(b) = &layer.ops else { unreachable!() };
            for i in 0..b.1.len() {
                for x in [1u8, 0x80, 0xff] {
                    let mut b = b.clone();
                    b.1[i] ^= x;
                    at(&mut work, path).ops = Err(b);
                    visit(&work, &|| format!("{} byte {i}^{x}", show_path(path)));
                }
            }
            for (name, x) in rebuilt(b) {
                at(&mut work, path).ops = Err(ProofBytes2(b.0, x));
                visit(&work, &|| format!("{} {name}", show_path(path)));
            }
            for kind in 0..4 {
                if kind != b.0 {
                    at(&mut work, path).ops = Err(ProofBytes2(kind, b.1.clone()));
                    visit(&work, &|| format!("{} as kind {kind}", show_path(path)));
                }
            }
            continue;
        };
        // nodes that claim something else
        for i in 0..ops.len() {
            let (Op::Push(n) | Op::PushInverted(n)) = &ops[i] else { continue };
            let inv = matches!(ops[i], Op::PushInverted(_));
            let Some(k) = key_of(n).cloned() else { continue };
            let had = layer.low.contains_key(&k);
            for f in node_forgeries(n, kn, claims) {
                let op = if inv { Op::PushInverted(f.clone()) } else { Op::Push(f.clone()) };
                {
                    let t = at(&mut work, path);
                    let Ok(o) = &mut t.ops else { unreachable!() };
                    o[i] = op;
                }
                visit(&work, &|| format!("{} {}", show_path(path), show_node(&f)));
                for (name, alt) in [("without", None)]
                    .into_iter()
                    .filter(|_| had)
                    .chain(fakes[..4].iter().enumerate().map(|(i, f)| (["fake0", "fake1", "fake2", "fake3"][i], Some(f))))
                {
                    let t = at(&mut work, path);
                    match alt {
                        Some(l) => t.low.insert(k.clone(), l.clone()),
                        None => t.low.remove(&k),
                    };
                    visit(&work, &|| format!("{} {} {name} layer", show_path(path), show_node(&f)));
                    at(&mut work, path).low = layer.low.clone();
                }
                *at(&mut work, path) = layer.clone();
            }
        }
        // ops dropped, repeated, exchanged, replaced
        for i in 0..ops.len() {
            let mut alts: Vec<Vec<Op>> = vec![];
            let mut o = ops.clone();
            o.remove(i);
            alts.push(o);
            let mut o = ops.clone();
            o.insert(i, ops[i].clone());
            alts.push(o);
            if i + 1 < ops.len() {
                let mut o = ops.clone();
                o.swap(i, i + 1);
                alts.push(o);
            }
            let others: Vec<Op> = match &ops[i] {
                Op::Push(n) => vec![Op::PushInverted(n.clone())],
                Op::PushInverted(n) => vec![Op::Push(n.clone())],
                _ => vec![Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted],
            };
            for x in others {
                let mut o = ops.clone();
                o[i] = x;
                alts.push(o);
            }
            for o in alts {
                at(&mut work, path).ops = Ok(o);
                visit(&work, &|| format!("{} ops around {i}", show_path(path)));
            }
            *at(&mut work, path) = layer.clone();
        }
    }
}

// ------------------------------------------------------------------- checks

#[derive(Clone, PartialEq)]
struct Told {
    raw: Option<Vec<(Path, Vec<u8>, Vec<u8>)>>,
    rows: Vec<Option<Vec<(Path, Vec<u8>, Option<Element>)>>>,
    parent: Option<TreeFeatureType>,
}

/// What the ways of verifying tell, given that the root hash is right.
fn told(proof: &[u8], pq: &PathQuery, root: &Hash) -> Result<Told, String> {
    let raw = match kit::catch(|| GroveDb::verify_query_raw(proof, pq, v())) {
        Err(p) => return Err(format!("verify_query_raw panics: {p}")),
        Ok(Ok((h, r))) if &h == root => Some(r.into_iter().map(|x| (x.path, x.key, x.value)).collect()),
        Ok(_) => None,
    };
    let mut rows = vec![];
    let mut parent = None;
    for i in 0..4 {
        let r = kit::catch(|| match i {
            0 => GroveDb::verify_query(proof, pq, v()),
            1 => GroveDb::verify_subset_query(proof, pq, v()),
            2 => GroveDb::verify_query_get_parent_tree_info(proof, pq, v()).map(|(h, f, r)| {
                parent = Some(f);
                (h, r)
            }),
            _ => GroveDb::verify_subset_query_with_absence_proof(proof, pq, v()),
        });
        rows.push(match r {
            Err(p) => return Err(format!("verification {i} panics: {p}")),
            Ok(Ok((h, r))) if &h == root => Some(r),
            Ok(_) => None,
        });
    }
    let parent = rows[2].as_ref().and(parent);
    Ok(Told { raw, rows, parent })
}

fn judge(proof: &[u8], pq: &PathQuery, root: &Hash, honest: &Told) -> Res {
    let t = told(proof, pq, root)?;
    if let Some(r) = &t.raw {
        ensure!(
            Some(r) == honest.raw.as_ref(),
            "verify_query_raw accepts it with [{}], honest are {:?}",
            raws(r),
            honest.raw.as_ref().map(|r| raws(r))
        );
    }
    if t.parent.is_some() {
        ensure!(
            t.parent == honest.parent,
            "it tells that the parent is {:?}, honest is {:?}",
            t.parent,
            honest.parent
        );
    }
    for (i, r) in t.rows.iter().enumerate() {
        if let Some(r) = r {
            ensure!(
                Some(r) == honest.rows[i].as_ref(),
                "{} accepts it with {}, honest are {}",
                ["verify_query", "verify_subset_query", "verify_query_get_parent_tree_info", "verify_subset_query_with_absence_proof"][i],
                opts(r),
                honest.rows[i].as_ref().map_or("refused".into(), |r| opts(r))
            );
        }
    }
    Ok(())
}
fn raws(r: &[(Path, Vec<u8>, Vec<u8>)]) -> String {
    r.iter()
        .map(|(p, k, x)| {
            let e = Element::deserialize(x, v()).map_or(kit::hex(x), |e| crate::model::show_el(&e));
            format!("{}/{}={e} ", show_path(p), String::from_utf8_lossy(k))
        })
        .collect()
}
fn opts(r: &[(Path, Vec<u8>, Option<Element>)]) -> String {
    r.iter()
        .map(|(p, k, e)| {
            let e = e.as_ref().map_or("none".into(), crate::model::show_el);
            format!("{}/{}={e} ", show_path(p), String::from_utf8_lossy(k))
        })
        .collect()
}

fn pq(path: &Path, q: &Query, limit: Option<u16>) -> PathQuery {
    PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, None))
}

/// Queries whose proofs are attacked.
fn targets(thorough: bool) -> Vec<Query> {
    let full = QueryItem::RangeFull(..);
    let mut out = leaves(&["a", "b"], false);
    out.push(query(vec![key("a"), key("c")], true));
    out.push(query(vec![key("a"), key("c")], false));
    let mut shapes = vec![vec![full.clone()], vec![key("a")], vec![key("b")]];
    if thorough {
        shapes.extend(queries::shapes());
    }
    out.extend(nested(&shapes, thorough, false));
    for l in [true, false] {
        let mut q = query(vec![full.clone()], l);
        q.default_subquery_branch = sub(None, Some(query(vec![full.clone()], l)));
        q.conditional_subquery_branches = Some([(key("a"), sub(None, None))].into_iter().collect());
        out.push(q.clone());
        q.conditional_subquery_branches = Some([(key("b"), sub(Some(&["b"]), None))].into_iter().collect());
        q.default_subquery_branch = sub(None, None);
        out.push(q);
    }
    out
}

/// The proof of everything below a path.
pub fn fulls(db: &Db, st: &State) -> BTreeMap<Path, L> {
    let full = |inner: Option<Query>| {
        let mut q = query(vec![QueryItem::RangeFull(..)], true);
        q.default_subquery_branch = sub(None, inner);
        q
    };
    let q = full(Some(full(Some(full(None)))));
    let mut out = BTreeMap::new();
    let Ok(b) = db.prove_query(&pq(&vec![], &q, None), None, v()).unwrap() else { return out };
    let root = parse(&b);
    let mut paths = vec![];
    layers(&root, &mut vec![], &mut paths);
    for path in paths {
        let mut r = root.clone();
        out.insert(path.clone(), at(&mut r, &path).clone());
    }
    let _ = st;
    out
}

pub fn d10(ctx: &Ctx) {
    lookalike(ctx);
    for (name, ops) in queries::worlds() {
        if name == "sum and count" && !ctx.thorough {
            continue;
        }
        let st = initial(&ops).unwrap_or_else(|e| panic!("{name}: {e}"));
        attack_world(ctx, name, &st, &targets(ctx.thorough), &bases());
    }
    use crate::entries::{self, Kind};
    let mut kinds = vec![(Kind::Mmr, 3), (Kind::Bulk(1), 3), (Kind::Dense(2), 3)];
    if ctx.thorough {
        kinds.extend([
            (Kind::Mmr, 7),
            (Kind::Bulk(1), 6),
            (Kind::Bulk(2), 7),
            (Kind::Dense(3), 6),
            (Kind::Bulk(1), 0),
            (Kind::Mmr, 1),
        ]);
    }
    for (kind, n) in kinds {
        let (ops, _) = entries::worlds(kind, n);
        let st = initial(&ops).unwrap_or_else(|e| panic!("{e}"));
        let x = |i| kind.key(i);
        let mut by_base: BTreeMap<Path, Vec<Query>> = BTreeMap::new();
        for items in [
            vec![QueryItem::RangeFull(..)],
            vec![QueryItem::Key(x(0))],
            vec![QueryItem::Key(x(1))],
            vec![QueryItem::RangeFrom(x(1)..)],
            vec![QueryItem::RangeTo(..x(2))],
            vec![QueryItem::Key(x(0)), QueryItem::Key(x(2))],
            vec![QueryItem::Key(x(8))],
        ] {
            for l in [true, false] {
                for (base, q) in entries::queries(&query(items.clone(), l)) {
                    by_base.entry(base).or_default().push(q);
                }
            }
        }
        for (base, qs) in by_base {
            attack_world(ctx, &format!("{} {n}", kind.name()), &st, &qs, &[base]);
        }
    }
}

/// An element made of 60 bytes that the adversary chooses is hashed like a
/// reference of his to another element.
fn lookalike(ctx: &Ctx) {
    let content = |target: &[u8]| {
        let mut c = vec![b'x'; 28];
        c.extend(&value_hash(target)[..31]);
        c
    };
    for (kind, tree) in [("tree", Element::empty_tree()), ("provable count tree", Element::empty_provable_count_tree())] {
        // the last byte of the forged value's hash has to be 0
        let forged = (0u32..)
            .map(|i| Element::new_item(format!("forged {i}").into_bytes()).serialize(v()).unwrap())
            .find(|e| value_hash(e)[31] == 0)
            .unwrap();
        let mut c = content(&forged);
        c.insert(0, b'x');
        let e = Element::new_item(c);
        let bytes_of = e.serialize(v()).unwrap();
        assert_eq!(bytes_of.len(), 63);
        let ops = vec![
            Op2::Insert(vec![], k("t"), tree),
            Op2::Insert(p("t"), k("a"), e),
            Op2::Insert(p("t"), k("b"), crate::maps::item("b")),
        ];
        let st = initial(&ops).unwrap();
        ctx.state(&snap_bytes(&st.snap));
        let root: Hash = st.audit.root_hash;
        let db = Db::at(&st.snap);
        let pq = pq(&p("t"), &query(vec![key("a")], true), None);
        let honest_bytes = db.prove_query(&pq, None, v()).unwrap().unwrap();
        let honest = told(&honest_bytes, &pq, &root).unwrap();
        let mut l = parse(&honest_bytes);
        let low = l.low.values_mut().next().unwrap();
        for op in low.ops.as_mut().ok().unwrap() {
            let (Op::Push(n) | Op::PushInverted(n)) = op else { continue };
            if key_of(n) != Some(&k("a")) {
                continue;
            }
            let mut r = [63u8; 32];
            r[1..].copy_from_slice(&bytes_of[..31]);
            *n = match feature(n) {
                TreeFeatureType::ProvableCountedMerkNode(c) => Node::KVRefValueHashCount(k("a"), forged.clone(), r, c),
                _ => Node::KVRefValueHash(k("a"), forged.clone(), r),
            };
        }
        ctx.step();
        ctx.case(
            || format!("an item in a {kind} that looks like a reference"),
            || judge(&bytes(&l), &pq, &root, &honest),
        );
    }
}

fn attack_world(ctx: &Ctx, name: &str, st: &State, qs: &[Query], bases: &[Path]) {
    ctx.state(&snap_bytes(&st.snap));
    let root: Hash = st.audit.root_hash;
    let kn = known(st);
    let claims = claims();
    let full = fulls(&Db::at(&st.snap), st);
    let limits: &[Option<u16>] = &[None, Some(1), Some(2)];
    ctx.bound(format!("{name}: {} queries x {} paths x {} limits, every single change", qs.len(), bases.len(), limits.len()));
    let jobs: Vec<(&Query, &Path, Option<u16>)> = qs
        .iter()
        .flat_map(|q| bases.iter().flat_map(move |b| limits.iter().map(move |l| (q, b, *l))))
        .collect();
    let db = Db::at(&st.snap);
    let honest: Vec<Option<(Vec<u8>, Told)>> = jobs
        .iter()
        .map(|(q, b, l)| {
            let pq = pq(b, q, *l);
            let proof = db.prove_query(&pq, None, v()).unwrap().ok()?;
            let t = told(&proof, &pq, &root).ok()?;
            Some((proof, t))
        })
        .collect();
    let ids: Vec<usize> = (0..jobs.len()).filter(|i| honest[*i].is_some()).collect();
    ctx.par(&ids, |i| {
        let (q, b, l) = jobs[*i];
        let (proof, truth) = honest[*i].as_ref().unwrap();
        let pq = pq(b, q, l);
        let base = parse(proof);
        let what = || format!("{name}; {} {q} limit {l:?}", show_path(b));
        mutations(&base, &kn, &claims, &full, &mut |m, label| {
            let bytes = bytes(m);
            ctx.step();
            ctx.case(|| format!("{}; {}; {}", what(), label(), show(m)), || judge(&bytes, &pq, &root, truth));
        });
        // the bytes themselves
        if ctx.thorough || honest.iter().flatten().position(|h| h.0 == *proof) == ids.iter().position(|x| x == i) {
            let mut try_bytes = |bytes: &[u8], label: &dyn Fn() -> String| {
                ctx.step();
                ctx.case(|| format!("{}; {}; {}", what(), label(), kit::hex(bytes)), || judge(bytes, &pq, &root, truth));
            };
            let mut b = proof.clone();
            for n in 0..proof.len() {
                for x in [1u8, 0x80, 0xff, proof[n]] {
                    b[n] ^= x;
                    try_bytes(&b, &|| format!("byte {n}^{x}"));
                    b[n] = proof[n];
                }
                try_bytes(&proof[..n], &|| format!("the first {n} bytes"));
                let mut long = proof.clone();
                long.insert(n, 0);
                try_bytes(&long, &|| format!("a zero at {n}"));
                long.splice(n..n + 2, []);
                try_bytes(&long, &|| format!("without byte {n}"));
            }
            try_bytes(&[&proof[..], &[0]].concat(), &|| "a zero at the end".into());
        }
        // proofs of other questions
        for j in &ids {
            if (b == jobs[*j].1 || ctx.thorough) && i != j {
                let (q2, b2, l2) = jobs[*j];
                ctx.step();
                ctx.case(
                    || format!("{}; proof of {} {q2} limit {l2:?}", what(), show_path(b2)),
                    || judge(&honest[*j].as_ref().unwrap().0, &pq, &root, truth),
                );
            }
        }
    });
}
