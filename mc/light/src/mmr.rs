//! C13, C14: the Merkle mountain range.
use std::collections::BTreeSet;

use grovedb_costs::OperationCost;
use grovedb_merkle_mountain_range::{
    blake3_merge, hash_count_for_push, leaf_hash, leaf_index_to_mmr_size, leaf_index_to_pos,
    mmr_node_key, mmr_node_key_sized, mmr_size_to_leaf_count, Error, MemStore, MMRStoreReadOps,
    MMRStoreWriteOps, MerkleProof, MmrKeySize, MmrNode, MmrStore, MmrTreeProof,
    MAX_U32_MMR_POSITION, MMR,
};
use kit::*;

use crate::mock::{Mem, M};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C13",
            level: "model_checking",
            run: c13,
        },
        Spec {
            id: "C14",
            level: "exploration",
            run: c14,
        },
    ]
}

pub type H = [u8; 32];

// ------------------------------------------------------------------- model

fn b3(parts: &[&[u8]]) -> H {
    let mut v = vec![];
    parts.iter().for_each(|p| v.extend_from_slice(p));
    *blake3::hash(&v).as_bytes()
}
pub fn leaf_h(v: &[u8]) -> H {
    b3(&[&[0], v])
}
pub fn merge_h(l: &H, r: &H) -> H {
    b3(&[&[1], l, r])
}

/// Sizes of the perfect trees of an MMR with `n` leaves, left to right.
fn mountains(n: usize) -> Vec<usize> {
    (0..usize::BITS)
        .rev()
        .map(|b| 1usize << b)
        .filter(|s| n & s != 0)
        .collect()
}

/// Nodes of the perfect tree over `leaves`, in post order; returns its root.
fn post_order(leaves: &[H], out: &mut Vec<H>) -> H {
    let h = if leaves.len() == 1 {
        leaves[0]
    } else {
        let (l, r) = leaves.split_at(leaves.len() / 2);
        let l = post_order(l, out);
        let r = post_order(r, out);
        merge_h(&l, &r)
    };
    out.push(h);
    h
}

/// (all nodes by position, the peaks)
pub fn model(leaves: &[H]) -> (Vec<H>, Vec<H>) {
    let (mut nodes, mut peaks, mut at) = (vec![], vec![], 0);
    for m in mountains(leaves.len()) {
        peaks.push(post_order(&leaves[at..at + m], &mut nodes));
        at += m;
    }
    (nodes, peaks)
}

pub fn bag(peaks: &[H]) -> H {
    let mut acc = *peaks.last().unwrap();
    for p in peaks.iter().rev().skip(1) {
        acc = merge_h(&acc, p);
    }
    acc
}

pub fn root_of(leaves: &[H]) -> H {
    bag(&model(leaves).1)
}

pub fn value(i: usize) -> Vec<u8> {
    match i % 4 {
        0 => vec![i as u8],
        1 => vec![i as u8, (i >> 8) as u8, 7],
        2 => format!("value {i}").into_bytes(),
        _ => vec![i as u8; 40],
    }
}
fn values(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(value).collect()
}
fn hashes(n: usize) -> Vec<H> {
    (0..n).map(|i| leaf_h(&value(i))).collect()
}

fn filled(n: usize) -> (MemStore, u64) {
    let s = MemStore::default();
    let mut m = MMR::new(0, &s);
    for i in 0..n {
        m.push(MmrNode::leaf(value(i))).unwrap().unwrap();
    }
    m.commit().unwrap().unwrap();
    let size = m.mmr_size;
    (s, size)
}

// --------------------------------------------------------------------- C13

fn c13(ctx: &Ctx) {
    ctx.assume("blake3 is the specification of the hash, taken from the blake3 crate");
    positions(ctx);
    long_run(ctx);
    histories(ctx);
    faults(ctx);
    nodes(ctx);
}

/// Index arithmetic against a structural count.
fn positions(ctx: &Ctx) {
    let n: u64 = ctx.pick(1 << 16, 1 << 20);
    ctx.bound(format!(
        "index arithmetic: all leaf indices below {n} and within 3 of every power of two and of its multiples by 3 and 5, up to the last leaf index 2^63-1"
    ));
    ctx.case(
        || format!("positions below {n}"),
        || {
            let mut size = 0u64;
            for i in 0..n {
                // the new leaf, then one parent per trailing full pair
                let merges = (i + 1).trailing_zeros() as u64;
                ensure_eq!(leaf_index_to_pos(i), size, "position of leaf {i}");
                ensure_eq!(mmr_size_to_leaf_count(size), i, "leaf count of size {size}");
                ensure_eq!(hash_count_for_push(i) as u64, 1 + merges, "hashes of push {i}");
                size += 1 + merges;
                ensure_eq!(leaf_index_to_mmr_size(i), size, "size after leaf {i}");
                ctx.steps(4);
            }
            Ok(())
        },
    );
    let mut big = BTreeSet::new();
    for b in 0..64u32 {
        for m in [1u128, 3, 5] {
            for d in 0..7i128 {
                let x = (m << b) as i128 + d - 3;
                if (0..1i128 << 63).contains(&x) {
                    big.insert(x as u64);
                }
            }
        }
    }
    for i in big {
        ctx.case(
            || format!("position of leaf {i}"),
            || {
                let n = i as u128 + 1;
                // a perfect tree of s leaves has 2s-1 nodes
                let size: u128 = (0..64)
                    .filter(|b| n >> b & 1 == 1)
                    .map(|b| (1u128 << (b + 1)) - 1)
                    .sum();
                let before: u128 = (0..64)
                    .filter(|b| (n - 1) >> b & 1 == 1)
                    .map(|b| (1u128 << (b + 1)) - 1)
                    .sum();
                ensure_eq!(leaf_index_to_mmr_size(i) as u128, size, "size");
                ensure_eq!(leaf_index_to_pos(i) as u128, before, "position");
                ensure_eq!(mmr_size_to_leaf_count(size as u64) as u128, n, "leaf count");
                ensure_eq!(
                    hash_count_for_push(i) as u128,
                    1 + size - before - 1,
                    "hash count"
                );
                // the stores' keys
                let p = before as u64;
                ensure_eq!(mmr_node_key(p)[..], p.to_be_bytes()[..], "plain key");
                for k in [MmrKeySize::U32, MmrKeySize::U64] {
                    for pos in [p, size as u64 - 1, size as u64] {
                        let r = mmr_node_key_sized(pos, k);
                        match k {
                            MmrKeySize::U32 if pos >= MAX_U32_MMR_POSITION => {
                                ensure!(r.is_err(), "position {pos} has a 4 byte key")
                            }
                            MmrKeySize::U32 => ensure_eq!(
                                r.unwrap().as_ref().to_vec(),
                                ((pos as u32) + (1u32 << 31)).to_be_bytes().to_vec(),
                                "key"
                            ),
                            MmrKeySize::U64 => ensure_eq!(
                                r.unwrap().as_ref().to_vec(),
                                (pos | 1 << 63).to_be_bytes().to_vec(),
                                "key"
                            ),
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

fn err<T>(r: Result<T, Error>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

fn compare<S: MMRStoreReadOps>(ctx: &Ctx, m: &MMR<S>, leaves: &[Vec<u8>]) -> Res {
    let hs: Vec<H> = leaves.iter().map(|v| leaf_h(v)).collect();
    let (nodes, peaks) = model(&hs);
    ensure_eq!(m.mmr_size, nodes.len() as u64, "size");
    ensure_eq!(m.is_empty(), leaves.is_empty(), "is_empty");
    match m.get_root().value {
        Ok(r) => {
            ensure!(!leaves.is_empty(), "an empty MMR has a root");
            ensure_eq!(r.hash(), bag(&peaks), "root of {} leaves", leaves.len());
        }
        Err(e) => ensure!(
            leaves.is_empty() && e == Error::GetRootOnEmpty,
            "get_root of {} leaves: {e}",
            leaves.len()
        ),
    }
    for (p, h) in nodes.iter().enumerate() {
        let e = err(m.batch.element_at_position(p as u64).value, "element")?;
        let e = e.ok_or(format!("no element at {p}"))?;
        ensure_eq!(e.hash(), *h, "node at {p}");
    }
    for (i, v) in leaves.iter().enumerate() {
        let p = leaf_index_to_pos(i as u64);
        let e = err(m.batch.element_at_position(p).value, "element")?.unwrap();
        ensure_eq!(e.value(), Some(&v[..]), "value of leaf {i}");
        ensure_eq!(e.into_value(), Some(v.clone()), "value of leaf {i}");
    }
    let past = err(m.batch.element_at_position(nodes.len() as u64).value, "past")?;
    ensure!(past.is_none(), "element past the end");
    ctx.state(&bag(if peaks.is_empty() { &[[0; 32]] } else { &peaks }));
    Ok(())
}

fn long_run(ctx: &Ctx) {
    let n = ctx.pick(700, 4200);
    ctx.bound(format!("one history of {n} appends, root checked after each"));
    ctx.case(
        || format!("{n} appends"),
        || {
            let s = MemStore::default();
            let mut m = MMR::new(0, &s);
            let mut hs = vec![];
            for i in 0..n {
                let pos = err(m.push(MmrNode::leaf(value(i))).value, "push")?;
                ensure_eq!(pos, leaf_index_to_pos(i as u64), "position of leaf {i}");
                hs.push(leaf_h(&value(i)));
                ensure_eq!(m.mmr_size, leaf_index_to_mmr_size(i as u64), "size");
                let r = err(m.get_root().value, "root")?;
                ensure_eq!(r.hash(), root_of(&hs), "root after {} appends", i + 1);
                ctx.step();
                if i % 7 == 3 {
                    err(m.commit().value, "commit")?;
                }
                if i % 11 == 5 {
                    err(m.commit().value, "commit")?;
                    m = MMR::new(m.mmr_size, &s);
                }
            }
            Ok(())
        },
    );
}

const OPS: [&str; 5] = ["push", "push3", "commit", "reopen", "overlay"];

/// One history over a store; `reopen` drops what was not committed.
fn history<S, F>(ctx: &Ctx, ops: &[usize], same: bool, store: F) -> Res
where
    F: Fn() -> S,
    S: MMRStoreReadOps + MMRStoreWriteOps,
{
    let val = |i: usize| if same { vec![1, 2] } else { value(i) };
    let mut m = MMR::new(0, store());
    let mut leaves: Vec<Vec<u8>> = vec![];
    let mut committed = 0usize;
    for &o in ops {
        match OPS[o] {
            "push" | "push3" => {
                for _ in 0..if OPS[o] == "push" { 1 } else { 3 } {
                    let v = val(leaves.len());
                    let before = m.mmr_size;
                    let c = m.push(MmrNode::leaf(v.clone()));
                    ensure_eq!(err(c.value, "push")?, before, "position");
                    leaves.push(v);
                }
            }
            "commit" => {
                err(m.commit().value, "commit")?;
                committed = leaves.len();
            }
            "reopen" => {
                leaves.truncate(committed);
                let size = model(&vec![[0; 32]; committed]).0.len() as u64;
                m = MMR::new(size, store());
            }
            _ => {
                let o = m.batch.take_overlay();
                m = MMR::new_with_overlay(m.mmr_size, store(), o);
            }
        }
        ctx.step();
        compare(ctx, &m, &leaves)?;
    }
    Ok(())
}

fn histories(ctx: &Ctx) {
    let len = ctx.pick(6, 8);
    ctx.bound(format!(
        "every history of up to {len} operations out of {OPS:?} on four stores (memory, storage context with 4 and 8 byte keys, with equal values), compared node by node after each operation"
    ));
    let mut all = vec![];
    sequences_upto(OPS.len(), len, |s| all.push(s.to_vec()));
    ctx.par(&all, |ops| {
        let l = || ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(",");
        ctx.case(
            || format!("memory {}", l()),
            || {
                let s = MemStore::default();
                history(ctx, ops, false, || &s)
            },
        );
        for (k, same) in [
            (MmrKeySize::U32, false),
            (MmrKeySize::U64, false),
            (MmrKeySize::U64, true),
        ] {
            if ops.len() == len && !ctx.thorough && (same || k == MmrKeySize::U64) {
                continue;
            }
            ctx.case(
                || format!("context {k:?} same={same} {}", l()),
                || {
                    let mem = Mem::new();
                    let c = M(&mem);
                    let s = if k == MmrKeySize::U64 && same {
                        MmrStore::new(&c)
                    } else {
                        MmrStore::with_key_size(&c, k)
                    };
                    history(ctx, ops, same, || &s)
                },
            );
        }
    });
    // What an append reads, and is charged for, does not depend on what is
    // committed.
    let n = ctx.pick(40, 130);
    ctx.bound(format!("cost of appends, roots and proofs: {n} appends under commit schedules every 1, 2, 3, 5 and never"));
    ctx.case(
        || "costs".into(),
        || {
            let mut seen: Vec<Vec<String>> = vec![];
            for every in [1usize, 2, 3, 5, 1000] {
                let mem = Mem::new();
                let c = M(&mem);
                let s = MmrStore::with_key_size(&c, MmrKeySize::U32);
                let mut m = MMR::new(0, &s);
                let mut log = vec![];
                let mut written: Vec<u64> = vec![];
                for i in 0..n {
                    let r = m.push(MmrNode::leaf(value(i)));
                    // the left sibling of each merge is read
                    let size = |i: usize| 37 + value(i).len() as u64;
                    let reads = (i + 1).trailing_zeros();
                    let want = OperationCost {
                        seek_count: reads,
                        storage_loaded_bytes: match reads {
                            0 => 0,
                            n => size(i - 1) + 33 * (n as u64 - 1),
                        },
                        ..Default::default()
                    };
                    ensure_eq!(r.cost, want, "cost of append {i}");
                    written.push(size(i));
                    written.extend((0..reads).map(|_| 33));
                    log.push(format!("{:?}", r.cost));
                    // each peak is read
                    let peaks = (i + 1).count_ones();
                    let leaf = if i % 2 == 0 { size(i) } else { 33 };
                    let want = OperationCost {
                        seek_count: peaks,
                        storage_loaded_bytes: 33 * (peaks as u64 - 1) + leaf,
                        ..Default::default()
                    };
                    let root = m.get_root().cost;
                    ensure_eq!(root, want, "cost of the root of {} leaves", i + 1);
                    log.push(format!("{root:?}"));
                    log.push(format!(
                        "{:?}",
                        m.gen_proof(vec![leaf_index_to_pos(i as u64 / 2)]).cost
                    ));
                    if i % every == every - 1 {
                        let r = m.commit();
                        err(r.value, "commit")?;
                        let mut want = OperationCost::default();
                        for w in written.drain(..) {
                            want += crate::mock::put_cost(4, w as usize);
                        }
                        ensure_eq!(r.cost, want, "cost of the commit after append {i}");
                    }
                }
                seen.push(log);
            }
            for s in &seen[1..] {
                for (i, (a, b)) in s.iter().zip(&seen[0]).enumerate() {
                    ensure_eq!(a, b, "cost of operation {i} depends on the commits");
                }
            }
            Ok(())
        },
    );
}

/// Every single failing storage operation of a short history.
fn faults(ctx: &Ctx) {
    let n = ctx.pick(9, 17);
    ctx.bound(format!("every single failed read or write while 1..{n} appends are made, the root computed, a proof made and all committed, and then retried"));
    for split in 0..n {
        for total in split + 1..=n {
            for op in ["read", "write"] {
                let mut k = 0;
                loop {
                    let mut hit = false;
                    let ok = ctx.case(
                        || format!("fault: {split} committed, {total} appends, {op} {k} fails"),
                        || {
                            hit = fault(ctx, split, total, op, k)?;
                            Ok(())
                        },
                    );
                    if !hit || !ok {
                        break;
                    }
                    k += 1;
                }
            }
        }
    }
}

fn fault(ctx: &Ctx, split: usize, total: usize, op: &str, k: u64) -> Result<bool, String> {
    let mem = Mem::new();
    let c = M(&mem);
    let s = MmrStore::with_key_size(&c, MmrKeySize::U32);
    let mut m = MMR::new(0, &s);
    for i in 0..split {
        err(m.push(MmrNode::leaf(value(i))).value, "push")?;
    }
    err(m.commit().value, "commit")?;
    if op == "read" {
        mem.fail_get.set(Some(k));
    } else {
        mem.fail_put.set(Some(k));
    }
    let mut hit = false;
    for i in split..total {
        let size = m.mmr_size;
        if m.push(MmrNode::leaf(value(i))).value.is_err() {
            hit = true;
            ensure_eq!(m.mmr_size, size, "size after a failed append");
            mem.heal();
            err(m.push(MmrNode::leaf(value(i))).value, "push again")?;
        }
        ctx.step();
    }
    let hs = hashes(total);
    match m.get_root().value {
        Ok(r) => ensure_eq!(r.hash(), root_of(&hs), "root"),
        Err(_) => {
            hit = true;
            mem.heal();
        }
    }
    let pos = vec![leaf_index_to_pos(total as u64 / 2)];
    match m.gen_proof(pos.clone()).value {
        Ok(p) => {
            let l = vec![(pos[0], MmrNode::leaf(value(total / 2)))];
            ensure_eq!(
                err(p.calculate_root(l), "proof")?.hash(),
                root_of(&hs),
                "proved root"
            );
        }
        Err(_) => {
            hit = true;
            mem.heal();
        }
    }
    if m.commit().value.is_err() {
        hit = true;
        mem.heal();
        // nothing is lost: the nodes are still there, and can be committed
        compare(ctx, &m, &values(total)).map_err(|e| format!("after a failed commit: {e}"))?;
        err(m.commit().value, "commit again")?;
    }
    mem.heal();
    let m = MMR::new(m.mmr_size, &s);
    compare(ctx, &m, &values(total)).map_err(|e| format!("reopened: {e}"))?;
    ctx.outcome(if hit { "fault met" } else { "no fault" });
    // a store that lost a node is noticed
    if !hit && op == "read" {
        let keys: Vec<Vec<u8>> = mem.data.borrow().keys().cloned().collect();
        for key in keys {
            let v = mem.data.borrow_mut().remove(&key).unwrap();
            if let Ok(r) = m.get_root().value {
                ensure_eq!(r.hash(), root_of(&hs), "root with {} lost", hex(&key));
            }
            mem.data.borrow_mut().insert(key, v);
        }
    }
    Ok(hit)
}

/// Node records: what is written is what is read, and nothing else is.
fn nodes(ctx: &Ctx) {
    let mut vals: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1; 32], vec![2; 33], vec![3; 300]];
    vals.push(vec![4; 70000]);
    let mut recs: Vec<Vec<u8>> = vec![];
    ctx.bound("node records: leaves of 7 sizes and internal nodes; every truncation, extension by one byte, and every change of any byte to 12 values");
    for v in &vals {
        ctx.case(
            || format!("leaf record of {} bytes", v.len()),
            || {
                let n = MmrNode::leaf(v.clone());
                ensure_eq!(n.hash(), leaf_h(v), "leaf hash");
                ensure_eq!(leaf_hash(v), leaf_h(v), "leaf hash");
                let b = err(n.serialize(), "serialize")?;
                let mut want = vec![1];
                want.extend_from_slice(&leaf_h(v));
                want.extend_from_slice(&(v.len() as u32).to_be_bytes());
                want.extend_from_slice(v);
                ensure!(b == want, "record {}", hex(&b[..40.min(b.len())]));
                ensure_eq!(n.serialized_size(), b.len() as u64, "announced size");
                Ok(())
            },
        );
        if v.len() < 100 {
            recs.push(MmrNode::leaf(v.clone()).serialize().unwrap());
        }
    }
    for h in [[0u8; 32], [7; 32], leaf_h(b"x")] {
        let n = MmrNode::internal(h);
        ctx.case(
            || format!("internal record {}", hex(&h)),
            || {
                let b = err(n.serialize(), "serialize")?;
                ensure_eq!(b.len() as u64, n.serialized_size(), "announced size");
                ensure!(b[0] == 0 && b[1..] == h, "record");
                ensure!(n.value().is_none(), "value of an internal node");
                Ok(())
            },
        );
        recs.push(n.serialize().unwrap());
        let o = leaf_h(b"y");
        ctx.case(
            || format!("merge {}", hex(&h)),
            || {
                let m = MmrNode::merge(&n, &MmrNode::internal(o));
                ensure_eq!(m.hash(), merge_h(&h, &o), "merge");
                ensure_eq!(blake3_merge(&h, &o), merge_h(&h, &o), "merge");
                ensure!(m.value().is_none(), "value of a merged node");
                Ok(())
            },
        );
    }
    // a data leaf: any hash goes
    let mut d = vec![2];
    d.extend_from_slice(&[9; 32]);
    d.extend_from_slice(&[0, 0, 0, 2, 5, 6]);
    recs.push(d);
    let mut forms: BTreeSet<Vec<u8>> = BTreeSet::new();
    for r in &recs {
        forms.insert(r.clone());
        for i in 0..r.len() {
            forms.insert(r[..i].to_vec());
            for x in [0, 1, 2, 3, 4, 5, 6, 31, 32, 127, 128, 255] {
                let mut e = r.clone();
                e[i] = x;
                forms.insert(e);
            }
        }
        for x in [0, 1, 255] {
            let mut e = r.clone();
            e.push(x);
            forms.insert(e);
        }
    }
    for f in forms {
        ctx.case(
            || format!("record {}", hex(&f)),
            || {
                let r = MmrNode::deserialize(&f);
                let len = |f: &[u8]| u32::from_be_bytes(f[33..37].try_into().unwrap()) as usize;
                let valid = match f.first() {
                    Some(0) => f.len() == 33,
                    Some(1) => {
                        f.len() >= 37 && f.len() == 37 + len(&f) && f[1..33] == leaf_h(&f[37..])
                    }
                    Some(2) => f.len() >= 37 && f.len() == 37 + len(&f),
                    _ => false,
                };
                match r {
                    Ok(n) => {
                        ensure!(valid, "malformed record accepted");
                        ensure!(err(n.serialize(), "again")? == f, "changed by a round trip");
                        ensure_eq!(n.hash()[..], f[1..33], "hash");
                        ensure_eq!(n.value(), (f[0] > 0).then(|| &f[37..]), "value");
                        ctx.outcome("record read");
                    }
                    Err(e) => {
                        ensure!(!valid, "valid record refused: {e}");
                        ctx.outcome("record refused");
                    }
                }
                Ok(())
            },
        );
    }
}

// --------------------------------------------------------------------- C14

fn c14(ctx: &Ctx) {
    ctx.assume("no two inputs of blake3 with the same hash are met: the adversary's hashes are those of the tree, of its own values and of nodes it builds from them");
    ctx.alloc_limit
        .store(1 << 28, std::sync::atomic::Ordering::Relaxed);
    complete(ctx);
    sound(ctx);
    shapes(ctx);
    grow(ctx);
    incremental(ctx);
    large(ctx);
    bytes(ctx);
}

/// Proofs of large values.
fn large(ctx: &Ctx) {
    let mb = ctx.pick(16usize, 90);
    ctx.bound(format!("a leaf of {mb} MiB: proved, encoded, decoded, verified"));
    let before = ctx.alloc_limit.swap(1 << 32, std::sync::atomic::Ordering::Relaxed);
    ctx.case(
        || format!("leaf of {mb} MiB"),
        || {
            let s = MemStore::default();
            let mut m = MMR::new(0, &s);
            let vals = [vec![1u8; mb << 20], vec![2u8; 3]];
            for v in &vals {
                err(m.push(MmrNode::leaf(v.clone())).value, "push")?;
            }
            err(m.commit().value, "commit")?;
            let p = err(MmrTreeProof::generate(m.mmr_size, &[0, 1], getter(&s)), "generate")?;
            let b = err(p.encode_to_vec(), "encode")?;
            let p = err(MmrTreeProof::decode_from_slice(&b), "decode")?;
            let got = err(p.verify(&root_of(&[leaf_h(&vals[0]), leaf_h(&vals[1])])), "verify")?;
            ensure!(got.len() == 2 && got[0].1 == vals[0] && got[1].1 == vals[1], "leaves");
            Ok(())
        },
    );
    ctx.alloc_limit.store(before, std::sync::atomic::Ordering::Relaxed);
}

fn getter(s: &MemStore) -> impl Fn(u64) -> Result<Option<MmrNode>, Error> + '_ {
    move |p| s.element_at_position(p).value
}

/// Every set of leaves has a proof that verifies and says exactly them.
fn complete(ctx: &Ctx) {
    let max = ctx.pick(10, 14);
    ctx.bound(format!("proofs of every nonempty set of leaves of MMRs with 1..={max} leaves; of every leaf and pair of MMRs with up to {} leaves", ctx.pick(40, 100)));
    let ns: Vec<usize> = (1..=max).rev().collect();
    ctx.par(&ns, |&n| {
        let (s, size) = filled(n);
        let root = root_of(&hashes(n));
        for mask in 1..1u32 << n {
            let idx: Vec<u64> = (0..n as u64).filter(|i| mask >> i & 1 == 1).collect();
            one(ctx, &s, size, n, &idx, root);
            if idx.len() == 3 {
                one(ctx, &s, size, n, &[idx[1], idx[2], idx[0]], root);
                one(ctx, &s, size, n, &[idx[2], idx[1], idx[0]], root);
            }
        }
    });
    let ns: Vec<usize> = (max + 1..=ctx.pick(40, 100)).collect();
    ctx.par(&ns, |&n| {
        let (s, size) = filled(n);
        let root = root_of(&hashes(n));
        for a in 0..n as u64 {
            one(ctx, &s, size, n, &[a], root);
            for b in 0..a {
                one(ctx, &s, size, n, &[b, a], root);
            }
        }
    });
    let ns: Vec<usize> = ctx.pick(
        vec![48, 63, 64, 65, 100, 127, 128, 130, 200, 257, 300],
        (1..140).chain([199, 255, 256, 257, 300, 511, 600, 700, 1025]).collect(),
    );
    ctx.bound(format!("proofs of large sets, up to all leaves: MMRs of {} leaves", if ctx.thorough { "1 to 139 and up to 1025".to_string() } else { format!("{ns:?}") }));
    ctx.par(&ns, |&n| {
        let (s, size) = filled(n);
        let root = root_of(&hashes(n));
        for idx in big_sets(n) {
            one(ctx, &s, size, n, &idx, root);
        }
    });
    // requests that can not be proved
    for n in 0..=max {
        let (s, size) = filled(n);
        for bad in [
            vec![],
            vec![n as u64],
            vec![0, n as u64],
            vec![0, 0],
            vec![u64::MAX],
            vec![1 << 63],
            vec![(1 << 63) - 1],
        ] {
            ctx.case(
                || format!("generate n={n} {bad:?}"),
                || {
                    ensure!(
                        MmrTreeProof::generate(size, &bad, getter(&s)).is_err(),
                        "proof of impossible leaves"
                    );
                    Ok(())
                },
            );
        }
        for p in 0..size + 3 {
            ctx.case(
                || format!("gen_proof n={n} position {p}"),
                || {
                    let m = MMR::new(size, &s);
                    let is_leaf = (0..n as u64).any(|i| leaf_index_to_pos(i) == p);
                    let r = m.gen_proof(vec![p]).value;
                    ensure_eq!(r.is_ok(), is_leaf, "proof of position {p}");
                    Ok(())
                },
            );
        }
        // a node that can not be read
        for gone in 0..size {
            for i in 0..n as u64 {
                ctx.case(
                    || format!("generate n={n} leaf {i} with node {gone} lost"),
                    || {
                        let want = MmrTreeProof::generate(size, &[i], getter(&s)).unwrap();
                        for fail in [false, true] {
                            let r = MmrTreeProof::generate(size, &[i], |p| {
                                if p == gone {
                                    if fail {
                                        return Err(Error::StoreError("lost".into()));
                                    }
                                    return Ok(None);
                                }
                                (&s).element_at_position(p).value
                            });
                            match r {
                                Ok(r) => ensure_eq!(
                                    format!("{r:?}"),
                                    format!("{want:?}"),
                                    "proof made without node {gone}"
                                ),
                                Err(Error::StoreError(_)) => ensure!(fail, "wrong error"),
                                Err(_) => ensure!(!fail, "the storage error is hidden"),
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Large sets of leaves: every k-th, runs, all but some.
pub fn big_sets(n: usize) -> Vec<Vec<u64>> {
    let mut v: BTreeSet<Vec<u64>> = BTreeSet::new();
    for k in [1, 2, 3, 4, 5, 7, 11] {
        for o in 0..k.min(4) {
            v.insert((0..n as u64).skip(o).step_by(k).collect());
            v.insert((0..n as u64).filter(|i| *i as usize % k.max(2) != o).collect());
        }
    }
    for (a, b) in [(0, n / 2), (n / 2, n), (n / 3, n), (1, n - 1), (0, n.min(70)), (n / 4, 3 * n / 4)] {
        v.insert((a as u64..b as u64).collect());
    }
    v.into_iter().filter(|x| !x.is_empty()).collect()
}

fn one(ctx: &Ctx, s: &MemStore, size: u64, n: usize, idx: &[u64], root: H) {
    ctx.case(
        || format!("n={n} leaves {idx:?}"),
        || {
            let p = err(MmrTreeProof::generate(size, idx, getter(s)), "generate")?;
            let want: Vec<(u64, Vec<u8>)> =
                idx.iter().map(|i| (*i, value(*i as usize))).collect();
            ensure_eq!(p.mmr_size(), size, "size");
            ensure_eq!(p.leaves(), &want[..], "leaves of the proof");
            ensure_eq!(err(p.verify(&root), "verify")?, want, "verified leaves");
            let (r, l) = err(p.verify_and_get_root(), "verify_and_get_root")?;
            ensure_eq!((r, l), (root, want), "verify_and_get_root");
            let mut other = root;
            other[31] ^= 1;
            ensure!(p.verify(&other).is_err(), "verifies against another root");
            let b = err(p.encode_to_vec(), "encode")?;
            let q = err(MmrTreeProof::decode_from_slice(&b), "decode")?;
            ensure_eq!(format!("{q:?}"), format!("{p:?}"), "decoded proof");
            ctx.state(&b);
            Ok(())
        },
    );
}

/// Sequences of up to `k` items out of `n`, as one closure.
pub fn each(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    sequences_upto(n, k, f)
}

/// An adversary that knows the whole tree cannot claim anything that is not
/// in it.
fn sound(ctx: &Ctx) {
    // (leaves, items of one claim, items of two claims)
    let plan: Vec<(usize, usize, usize)> = ctx.pick(
        vec![(1, 3, 3), (2, 4, 3), (3, 4, 3), (4, 4, 2), (5, 3, 2), (6, 3, 2), (7, 3, 2), (8, 3, 1), (11, 3, 0)],
        vec![(1, 4, 4), (2, 5, 4), (3, 5, 4), (4, 5, 3), (5, 4, 3), (6, 4, 3), (7, 4, 3), (8, 4, 2), (11, 4, 1), (13, 3, 1), (15, 3, 0)],
    );
    ctx.bound(format!("forged proofs for the true size: all claims of one leaf (any index, any value of the tree, one that is not in it, or the bytes of an inner node) with every sequence of hashes out of the tree's nodes, bags and the forged leaf, up to the given length; and of two leaves: (leaves, items for one, items for two) {plan:?}"));
    let mut jobs = vec![];
    for (n, k1, k2) in plan {
        for i in 0..n {
            for v in 0..n + 2 {
                jobs.push((n, k1, k2, i, v));
            }
        }
    }
    ctx.par(&jobs, |&(n, k1, k2, i, v)| {
        let hs = hashes(n);
        let (nodes, peaks) = model(&hs);
        let root = bag(&peaks);
        let size = nodes.len() as u64;
        let mut vals = values(n);
        vals.push(b"forged".to_vec());
        // the bytes of an inner node, in the hope of a missing tag
        let inner = if n > 1 { [&[1u8][..], &hs[0], &hs[1]].concat() } else { hs[0].to_vec() };
        vals.push(inner);
        let mut pool: BTreeSet<H> = nodes.iter().copied().collect();
        for a in 0..peaks.len() {
            pool.insert(bag(&peaks[a..]));
            pool.insert(bag(&peaks[..=a]));
        }
        pool.insert(leaf_h(b"forged"));
        let pool: Vec<H> = pool.into_iter().collect();
        let mut accepted = 0u64;
        let mut run = |leaves: &[(u64, Vec<u8>)], k: usize, what: &str| {
            ctx.case(
                || format!("forge n={n} {what} with up to {k} hashes"),
                || {
                    let truth = leaves.iter().all(|(i, v)| value(*i as usize) == *v);
                    let mut bad = None;
                    each(pool.len(), k, &mut |s| {
                        let items: Vec<H> = s.iter().map(|x| pool[*x]).collect();
                        let p = MmrTreeProof::new(size, leaves.to_vec(), items);
                        ctx.step();
                        if let Ok(got) = p.verify(&root) {
                            accepted += 1;
                            if got.iter().any(|(i, v)| value(*i as usize) != *v) {
                                bad = Some(s.to_vec());
                            }
                            match p.verify_and_get_root() {
                                Ok((r, g)) if r == root && g == got => {}
                                o => bad = bad.take().or(Some(vec![usize::MAX, o.is_ok() as usize])),
                            }
                        } else if let Ok((r, _)) = p.verify_and_get_root() {
                            if r == root {
                                bad = Some(s.to_vec());
                            }
                        }
                    });
                    ctx.outcome(if truth { "true claims" } else { "false claims" });
                    if let Some(b) = bad {
                        return Err(format!(
                            "a proof of {} hashes {b:?} proves {leaves:?}, which is not in the tree",
                            b.len()
                        ));
                    }
                    Ok(())
                },
            );
        };
        let a = (i as u64, vals[v].clone());
        run(&[a.clone()], k1, &format!("leaf {i} value {v}"));
        if k2 > 0 {
            for j in 0..n {
                for w in [0, n - 1, n, v] {
                    let b = (j as u64, vals[w].clone());
                    run(&[a.clone(), b], k2, &format!("leaf {i} value {v}, leaf {j} value {w}"));
                }
            }
        }
        ctx.steps(accepted);
    });
}

/// Edits of honest proofs: whatever still verifies is true.
fn shapes(ctx: &Ctx) {
    let max = ctx.pick(12, 24);
    let large = ctx.pick(vec![31, 45], vec![31, 45, 64, 71]);
    ctx.bound(format!("edited honest proofs of one and two leaves of MMRs with 1..={max} leaves, and of all, half or every second leaf of these and of some with up to {} leaves: hashes removed, repeated, swapped, inserted from the tree, values and indices exchanged; and any size given to the verifier", large[large.len() - 1]));
    let ns: Vec<usize> = (1..=max).chain(large).collect();
    ctx.par(&ns, |&n| {
        let (s, size) = filled(n);
        let hs = hashes(n);
        let (nodes, peaks) = model(&hs);
        let root = bag(&peaks);
        let mut sets: Vec<Vec<u64>> = (0..n as u64).map(|i| vec![i]).collect();
        for a in 0..n as u64 {
            for b in a + 1..n as u64 {
                sets.push(vec![a, b]);
            }
        }
        if n > max {
            sets.clear();
        }
        if n > 2 {
            sets.extend([
                (0..n as u64).collect(),
                (0..n as u64).step_by(2).collect(),
                (1..n as u64).step_by(2).collect(),
                (0..n as u64 / 2).collect(),
                (1..n as u64).collect(),
            ] as [Vec<u64>; 5]);
        }
        for idx in sets {
            ctx.case(
                || format!("edits n={n} {idx:?}"),
                || {
                    let p = MmrTreeProof::generate(size, &idx, getter(&s)).unwrap();
                    let it = p.proof_items().to_vec();
                    let mut forms: Vec<(Vec<(u64, Vec<u8>)>, Vec<H>)> = vec![];
                    for k in 0..it.len() {
                        let mut e = it.clone();
                        e.remove(k);
                        forms.push((p.leaves().to_vec(), e));
                        let mut e = it.clone();
                        e.insert(k, it[k]);
                        forms.push((p.leaves().to_vec(), e));
                        for j in 0..k {
                            let mut e = it.clone();
                            e.swap(j, k);
                            forms.push((p.leaves().to_vec(), e));
                        }
                    }
                    for k in 0..=it.len() {
                        for h in &nodes {
                            let mut e = it.clone();
                            e.insert(k, *h);
                            forms.push((p.leaves().to_vec(), e.clone()));
                            if k < it.len() {
                                e.remove(k + 1);
                                forms.push((p.leaves().to_vec(), e));
                            }
                        }
                    }
                    for v in 0..n {
                        for j in 0..idx.len() {
                            let mut l = p.leaves().to_vec();
                            l[j].1 = value(v);
                            forms.push((l.clone(), it.clone()));
                            l[j].0 = v as u64;
                            forms.push((l.clone(), it.clone()));
                            l[j].1 = value(idx[j] as usize);
                            forms.push((l.clone(), it.clone()));
                            // said twice, once wrong
                            let mut l = p.leaves().to_vec();
                            l.push((idx[j], value(v)));
                            forms.push((l.clone(), it.clone()));
                            l.rotate_right(1);
                            forms.push((l, it.clone()));
                        }
                    }
                    for (l, e) in &forms {
                        ctx.step();
                        let f = MmrTreeProof::new(size, l.clone(), e.clone());
                        if let Ok(got) = f.verify(&root) {
                            for (i, v) in &got {
                                ensure!(
                                    *v == value(*i as usize),
                                    "leaf {i} verified as {} with {} hashes",
                                    hex(v),
                                    e.len()
                                );
                            }
                            let k: BTreeSet<u64> = got.iter().map(|x| x.0).collect();
                            ensure_eq!(k.len(), got.len(), "a leaf is reported twice");
                        }
                        // the plain proof: every leaf it is asked about (of
                        // leaves given twice it takes the first)
                        let mp = MerkleProof::new(
                            size,
                            e.iter().map(|h| MmrNode::internal(*h)).collect(),
                        );
                        let ls = l
                            .iter()
                            .map(|(i, v)| (leaf_index_to_pos(*i), MmrNode::leaf(v.clone())))
                            .collect();
                        if let Ok(true) = mp.verify(MmrNode::internal(root), ls) {
                            let mut seen = BTreeSet::new();
                            for (i, v) in l.iter().filter(|x| seen.insert(x.0)) {
                                ensure!(
                                    *v == value(*i as usize),
                                    "MerkleProof::verify accepts {} as leaf {i}",
                                    hex(v)
                                );
                            }
                        }
                    }
                    // inner nodes are no leaves
                    for (pos, h) in nodes.iter().enumerate() {
                        if (0..n).any(|i| leaf_index_to_pos(i as u64) == pos as u64) {
                            continue;
                        }
                        let mp = MerkleProof::new(size, vec![]);
                        ensure!(
                            mp.verify(
                                MmrNode::internal(root),
                                vec![(pos as u64, MmrNode::internal(*h))]
                            )
                            .is_err(),
                            "inner node {pos} verified as a leaf"
                        );
                    }
                    Ok(())
                },
            );
        }
    });
    // Sizes an attacker can write down; nothing may panic.
    let mut sizes: BTreeSet<u64> = (0..40).collect();
    for b in 0..64 {
        for d in 0..5 {
            sizes.insert((1u64 << b).wrapping_add(d).wrapping_sub(2));
        }
    }
    ctx.bound("the verifier with 260 claimed sizes up to 2^64-1, each with the first, last and out of range leaf indices and 0..3 or 70 hashes");
    for size in sizes {
        ctx.case(
            || format!("claimed size {size}"),
            || {
                let c = mmr_size_to_leaf_count(size);
                for i in [0, 1, c / 2, c.wrapping_sub(1), c, c.wrapping_add(1), u64::MAX] {
                    for k in [0usize, 1, 2, 3, 62, 63, 64, 70] {
                        let p = MmrTreeProof::new(size, vec![(i, vec![1])], vec![[5; 32]; k]);
                        let r = p.verify(&[3; 32]);
                        ensure!(r.is_err(), "verified");
                        if i >= c {
                            ensure!(p.verify_and_get_root().is_err(), "leaf past the end");
                        } else {
                            let _ = p.verify_and_get_root();
                        }
                        ctx.steps(2);
                    }
                }
                ensure!(
                    MmrTreeProof::new(size, vec![], vec![[5; 32]]).verify(&[5; 32]).is_err(),
                    "a proof of nothing verifies"
                );
                Ok(())
            },
        );
    }
}

/// The proof of the last leaf gives the root after one more.
fn grow(ctx: &Ctx) {
    let max = ctx.pick(140, 1100);
    ctx.bound(format!("calculate_root_with_new_leaf for 1..={max} leaves"));
    let s = MemStore::default();
    let mut m = MMR::new(0, &s);
    let mut hs = vec![];
    for n in 1..=max {
        m.push(MmrNode::leaf(value(n - 1))).unwrap().unwrap();
        hs.push(leaf_h(&value(n - 1)));
        ctx.case(
            || format!("grow from {n} leaves"),
            || {
                let last = leaf_index_to_pos(n as u64 - 1);
                let p = err(m.gen_proof(vec![last]).value, "gen_proof")?;
                let new = leaf_index_to_pos(n as u64);
                let mut more = hs.clone();
                more.push(leaf_h(&value(n)));
                let r = err(
                    p.calculate_root_with_new_leaf(
                        vec![(last, MmrNode::leaf(value(n - 1)))],
                        new,
                        MmrNode::leaf(value(n)),
                        leaf_index_to_mmr_size(n as u64),
                    ),
                    "calculate_root_with_new_leaf",
                )?;
                ensure_eq!(r.hash(), root_of(&more), "root with a leaf more than {n}");
                Ok(())
            },
        );
    }
}

/// Incremental proofs: true ones verify, and only true ones.
fn incremental(ctx: &Ctx) {
    let max = ctx.pick(40, 90);
    ctx.bound(format!("verify_incremental for all 1 <= old < new <= {max}; forged ones for new <= {} with every sequence of hashes of the tree up to length {}", ctx.pick(6, 8), ctx.pick(3, 4)));
    let ns: Vec<usize> = (2..=max).collect();
    ctx.par(&ns, |&n| {
        let (s, size) = filled(n);
        let m = MMR::new(size, &s);
        let hs = hashes(n);
        let root = root_of(&hs);
        for old in 1..n {
            ctx.case(
                || format!("incremental {old} to {n}"),
                || {
                    let pos = (old..n).map(|i| leaf_index_to_pos(i as u64)).collect();
                    let p = err(m.gen_proof(pos).value, "gen_proof")?;
                    let inc: Vec<MmrNode> = (old..n).map(|i| MmrNode::leaf(value(i))).collect();
                    let v = |root: H, prev: H, inc: Vec<MmrNode>| {
                        p.verify_incremental(MmrNode::internal(root), MmrNode::internal(prev), inc)
                    };
                    let prev = root_of(&hs[..old]);
                    ensure_eq!(v(root, prev, inc.clone()), Ok(true), "honest");
                    for q in 1..=n {
                        if q != old {
                            ensure!(
                                v(root, root_of(&hs[..q]), inc.clone()) != Ok(true),
                                "accepts the root of {q} leaves as that of {old}"
                            );
                        }
                        if q != n {
                            ensure!(
                                v(root_of(&hs[..q]), prev, inc.clone()) != Ok(true),
                                "accepts the root of {q} leaves as that of {n}"
                            );
                        }
                    }
                    for k in 0..inc.len() {
                        let mut e = inc.clone();
                        e[k] = MmrNode::leaf(b"forged".to_vec());
                        ensure!(v(root, prev, e) != Ok(true), "accepts a forged leaf");
                        let mut e = inc.clone();
                        e.remove(k);
                        ensure!(v(root, prev, e) != Ok(true), "accepts a leaf less");
                        let mut e = inc.clone();
                        e.insert(k, inc[k].clone());
                        ensure!(v(root, prev, e) != Ok(true), "accepts a leaf more");
                    }
                    let mut e = inc.clone();
                    e.resize(n + 3, MmrNode::leaf(vec![]));
                    ensure!(v(root, prev, e) != Ok(true), "more new leaves than leaves");
                    Ok(())
                },
            );
        }
    });
    let (top, k) = ctx.pick((6, 3), (8, 4));
    let mut jobs = vec![];
    for n in 2..=top {
        for old in 1..n {
            jobs.push((n, old));
        }
    }
    ctx.par(&jobs, |&(n, old)| {
        let hs = hashes(n);
        let (nodes, peaks) = model(&hs);
        let root = bag(&peaks);
        let mut pool: BTreeSet<H> = nodes.iter().copied().collect();
        for o in 1..=n {
            let (x, p) = model(&hs[..o]);
            pool.extend(x);
            pool.insert(bag(&p));
        }
        let pool: Vec<H> = pool.into_iter().collect();
        let size = nodes.len() as u64;
        for old_root in 1..=n {
            for forged in [false, true] {
                ctx.case(
                    || format!("forge incremental {old} to {n}, root of {old_root}, forged={forged}"),
                    || {
                        let mut inc: Vec<MmrNode> =
                            (old..n).map(|i| MmrNode::leaf(value(i))).collect();
                        if forged {
                            // the values of the leaves before
                            inc = (0..n - old).map(|i| MmrNode::leaf(value(i))).collect();
                        }
                        let honest = old_root == old && !forged;
                        let mut bad = None;
                        each(pool.len(), k, &mut |s| {
                            let items = s.iter().map(|x| MmrNode::internal(pool[*x])).collect();
                            let p = MerkleProof::new(size, items);
                            ctx.step();
                            let r = p.verify_incremental(
                                MmrNode::internal(root),
                                MmrNode::internal(root_of(&hs[..old_root])),
                                inc.clone(),
                            );
                            if r == Ok(true) && !honest {
                                bad = Some(s.to_vec());
                            }
                        });
                        ensure!(bad.is_none(), "hashes {bad:?} prove a history that was not");
                        Ok(())
                    },
                );
            }
        }
    });
}

/// The decoder of proofs is total and gives back what was encoded.
fn bytes(ctx: &Ctx) {
    let (s, size) = filled(5);
    let p = MmrTreeProof::generate(size, &[1, 4], getter(&s)).unwrap();
    let b = p.encode_to_vec().unwrap();
    ctx.bound("decoding: all strings of up to 2 bytes, all truncations of an encoded proof, every byte of it changed to 16 values");
    let mut forms: BTreeSet<Vec<u8>> = BTreeSet::new();
    forms.insert(vec![]);
    for x in 0..=255u8 {
        forms.insert(vec![x]);
        for y in 0..=255u8 {
            forms.insert(vec![x, y]);
        }
    }
    for i in 0..b.len() {
        forms.insert(b[..i].to_vec());
        for x in [0, 1, 2, 3, 5, 8, 31, 32, 33, 127, 250, 251, 252, 253, 254, 255] {
            let mut e = b.clone();
            e[i] = x;
            forms.insert(e);
        }
    }
    let root = root_of(&hashes(5));
    for f in forms {
        ctx.case(
            || format!("decode {}", hex(&f)),
            || {
                match MmrTreeProof::decode_from_slice(&f) {
                    Ok(q) => {
                        ctx.outcome("decoded");
                        let e = err(q.encode_to_vec(), "encode")?;
                        let q2 = err(MmrTreeProof::decode_from_slice(&e), "decode again")?;
                        ensure_eq!(format!("{q2:?}"), format!("{q:?}"), "round trip");
                        if q.mmr_size() == size {
                            if let Ok(l) = q.verify(&root) {
                                for (i, v) in l {
                                    ensure!(v == value(i as usize), "leaf {i} forged");
                                }
                            }
                        } else {
                            let _ = q.verify(&root);
                        }
                    }
                    Err(_) => ctx.outcome("refused"),
                }
                Ok(())
            },
        );
    }
}
