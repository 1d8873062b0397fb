//! D15: a replica built from a source's chunks is the source, in whatever
//! order its chunks come, and nothing else can be passed off as it.

use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

use grovedb::{replication::CURRENT_STATE_SYNC_VERSION as SV, Element};
use grovedb_merk::{
    tree::{kv::ValueDefinedCostType, TreeNode},
    proofs::{encode_into, Decoder, Node, Op as MOp},
    TreeFeatureType,
};
use grovedb_version::version::GroveVersion;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

use crate::{
    audit::audit,
    engine::{initial, snap_bytes, Db, State},
    maps::{item, k, p, trees},
    model::{v, Op},
    queries,
};

pub fn spec() -> Spec {
    Spec { id: "D15", level: "model_checking", run: d15 }
}

/// What a synchronisation did.
pub struct Run {
    /// chunks that were answered
    pub replies: Vec<Vec<u8>>,
    /// how many were waiting at each step
    pub waiting: Vec<usize>,
    pub end: Result<Db, String>,
}

/// Synchronises a new database with `src`. `pick` says which of the waiting
/// chunks comes next; `split` asks for every chunk on its own.
pub fn sync(
    src: &Db,
    hash: [u8; 32],
    batch: usize,
    split: bool,
    pick: &mut dyn FnMut(usize, usize) -> usize,
) -> Run {
    let dest = Db::new();
    let mut run = Run { replies: vec![], waiting: vec![], end: Err(String::new()) };
    let r = (|| -> Result<(), String> {
        let e = |e: grovedb::Error| format!("{e}");
        let mut s = dest.start_snapshot_syncing(hash, batch, SV, v()).map_err(e)?;
        let mut queue = vec![hash.to_vec()];
        while !queue.is_empty() {
            let n = run.waiting.len();
            run.waiting.push(queue.len());
            let id = queue.remove(pick(n, queue.len()));
            let chunk = src.fetch_chunk(&id, None, SV, v()).map_err(|e| format!("source: {e}"))?;
            run.replies.push(chunk.clone());
            for next in s.apply_chunk(&id, &chunk, SV, v()).map_err(e)? {
                if split {
                    queue.extend(unpack(&next).iter().flat_map(|i| each(i)).map(|i| pack(&[i])));
                } else {
                    queue.push(next);
                }
            }
            if n > 2000 {
                return Err("no end".into());
            }
        }
        if !s.is_sync_completed() {
            return Err("unfinished".into());
        }
        s.commit(v()).map_err(e)
    })();
    run.end = r.map(|_| dest);
    run
}

fn same(src: &State, dest: &Db) -> Res {
    same_snap(src, dest.snap())
}

/// Puts references of the source in the place of those of the replica that the
/// value hash doesn't bind to the chunk. Tells whether there were any.
fn without_references(src: &State, got: &mut rocksdb::Snapshot) -> bool {
    let reference = |record: &[u8]| {
        TreeNode::decode(vec![], record, None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>, v())
            .is_ok_and(|n| Element::deserialize(n.value_as_slice(), v()).is_ok_and(|e| e.is_reference()))
    };
    let mut put = vec![];
    for (cf, key, record) in got.entries() {
        let honest = src.snap.cf(&cf).and_then(|m| m.get(&key).cloned());
        if let Some(h) = honest {
            if h != record && reference(&h) && reference(&record) {
                put.push((cf.clone(), key.clone(), h));
            }
        }
    }
    for (cf, key, h) in &put {
        got.set(cf, key, Some(h.clone()));
    }
    !put.is_empty()
}

fn same_snap(src: &State, mut got: rocksdb::Snapshot) -> Res {
    // the restorer notes the root key of every subtree, not only that of the
    // whole; nothing reads them
    for (_, key, _) in got.entries().iter().filter(|e| e.0 == "roots") {
        if src.snap.cf("roots").is_none_or(|m| !m.contains_key(key)) {
            got.set("roots", key, None);
        }
    }
    let a = audit(&got, &|p, _| src.model.half(p)).map_err(|e| format!("the replica is broken: {e}"))?;
    ensure_eq!(a.root_hash, src.audit.root_hash, "root hash of the replica");
    ensure_eq!(a.elements, src.audit.elements, "elements of the replica");
    ensure_eq!(a.data, src.audit.data, "data of the replica");
    let dest = Db::at(&got);
    let r = dest.root_hash(None, v()).value.map_err(|e| e.to_string())?;
    ensure_eq!(r, src.audit.root_hash, "root hash told by the replica");
    let iss = dest.verify_grovedb(None, true, false, v()).map_err(|e| e.to_string())?;
    ensure!(iss.is_empty(), "verify_grovedb finds {} issues in the replica", iss.len());
    Ok(())
}

/// The sources.
pub fn sources(t: bool) -> Vec<(String, Vec<Op>)> {
    let mut out: Vec<(String, Vec<Op>)> = vec![("empty".into(), vec![])];
    for (n, ops) in queries::worlds() {
        out.push((n.into(), ops));
    }
    // wide trees of every kind
    let sizes: Vec<u8> = if t { (1..=40).collect() } else { vec![1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 33] };
    for (i, kind) in trees().into_iter().enumerate() {
        for n in &sizes {
            let mut ops = vec![Op::Insert(vec![], k("t"), kind.clone())];
            for x in 0..*n {
                let key = vec![x.wrapping_mul(7) % 64];
                let el = match x % 5 {
                    0 => item("x"),
                    1 => Element::new_sum_item(x as i64 - 3),
                    2 => Element::new_item_with_sum_item(vec![x; 3], 5),
                    3 => Element::new_item_with_flags(vec![x], Some(vec![1, 2])),
                    _ if x % 10 == 4 => Element::empty_tree(),
                    _ => Element::new_reference(grovedb::reference_path::ReferencePathType::SiblingReference(vec![0])),
                };
                ops.push(Op::Insert(p("t"), key, el));
            }
            out.push((format!("kind {i} with {n} elements"), ops));
        }
    }
    out
}


/// Packed bytes, taken apart and put together.
fn unpack(b: &[u8]) -> Vec<Vec<u8>> {
    let n = u32::from_be_bytes(b[..4].try_into().unwrap());
    let mut at = 4;
    (0..n)
        .map(|_| {
            let l = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
            at += 4 + l;
            b[at - l..at].to_vec()
        })
        .collect()
}
fn pack(parts: &[Vec<u8>]) -> Vec<u8> {
    let mut out = (parts.len() as u32).to_be_bytes().to_vec();
    for x in parts {
        out.extend((x.len() as u32).to_be_bytes());
        out.extend(x);
    }
    out
}

/// The requests for the chunks of a request, one by one.
fn each(id: &[u8]) -> Vec<Vec<u8>> {
    let head = 35 + u16::from_be_bytes([id[32], id[33]]) as usize;
    let parts = unpack(&id[head..]);
    if parts.is_empty() {
        return vec![id.to_vec()];
    }
    parts.into_iter().map(|c| [&id[..head], &pack(&[c])].concat()).collect()
}

/// A smaller set of sources, some of several chunks, for what is tried many
/// times on each.
fn few() -> Vec<(String, Vec<Op>)> {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let mut out: Vec<(String, Vec<Op>)> = vec![("nothing".into(), vec![])];
    out.push((
        "empty data trees".into(),
        vec![
            ins("", "a", Element::empty_mmr_tree()),
            ins("", "b", Element::empty_bulk_append_tree(2).unwrap()),
            ins("", "c", Element::empty_dense_tree(3)),
            ins("", "d", Element::empty_commitment_tree(2).unwrap()),
        ],
    ));
    for (i, kind) in trees().into_iter().enumerate() {
        let mut ops = vec![
            ins("", "a", kind.clone()),
            ins("", "b", item("x")),
            ins("a", "c", Element::new_sum_item(-5)),
            ins("a", "d", Element::empty_tree()),
            ins("a", "e", Element::new_item_with_sum_item(vec![1, 2], 300)),
            ins("a", "f", kind.clone()),
            ins("a/d", "g", Element::new_item_with_flags(vec![3], Some(vec![7, 8]))),
        ];
        ops.push(ins(
            "",
            "h",
            Element::new_reference(grovedb::reference_path::ReferencePathType::AbsolutePathReference(p("a/c"))),
        ));
        out.push((format!("kind {i}"), ops));
        let mut ops = vec![Op::Insert(vec![], k("t"), kind)];
        for x in 0..9u8 {
            ops.push(Op::Insert(p("t"), vec![x], if x == 4 { Element::empty_tree() } else { Element::new_sum_item(x as i64) }));
        }
        out.push((format!("kind {i}, several chunks"), ops));
    }
    out
}

/// Every delivery order of the chunks with at most `dev` choices other than the
/// oldest waiting one.
fn orders(dev: usize, cap: usize, f: &mut dyn FnMut(&[usize]) -> Vec<usize>) -> (usize, bool) {
    let mut choice: Vec<usize> = vec![];
    let mut runs = 0;
    loop {
        let waiting = f(&choice);
        runs += 1;
        if runs >= cap {
            return (runs, false);
        }
        choice.resize(waiting.len(), 0);
        let mut at = waiting.len();
        loop {
            if at == 0 {
                return (runs, true);
            }
            at -= 1;
            let others = choice[..at].iter().filter(|c| **c != 0).count();
            if choice[at] + 1 < waiting[at] && others < dev {
                choice[at] += 1;
                choice.truncate(at + 1);
                break;
            }
        }
    }
}

/// One synchronisation in which the reply to request `n` is another one. Ends
/// with what became of it: a refusal, or the replica.
fn attacked(src: &Db, hash: [u8; 32], batch: usize, n: usize, bad: &[u8], retry: bool) -> Result<(Db, &'static str), String> {
    let dest = Db::new();
    let mut how = "accepted";
    let r = (|| -> Result<(), String> {
        let e = |e: grovedb::Error| format!("{e}");
        let mut s = dest.start_snapshot_syncing(hash, batch, SV, v()).map_err(e)?;
        let mut queue = vec![hash.to_vec()];
        let mut at = 0;
        while !queue.is_empty() {
            let id = queue.remove(0);
            let chunk = src.fetch_chunk(&id, None, SV, v()).map_err(|e| format!("source: {e}"))?;
            let next = if at == n {
                match s.apply_chunk(&id, bad, SV, v()) {
                    Ok(next) => next,
                    Err(_) if retry => {
                        how = "mended";
                        s.apply_chunk(&id, &chunk, SV, v()).map_err(e)?
                    }
                    Err(_) => {
                        how = "committed in spite of a refusal";
                        vec![]
                    }
                }
            } else {
                s.apply_chunk(&id, &chunk, SV, v()).map_err(e)?
            };
            queue.extend(next);
            at += 1;
            if at > 2000 {
                return Err("no end".into());
            }
        }
        s.commit(v()).map_err(e)
    })();
    r.map(|_| (dest, how))
}

#[allow(clippy::too_many_arguments)]
fn attack(ctx: &Ctx, refs: &AtomicBool, st: &State, src: &Db, name: &str, batch: usize, n: usize, bad: &[u8], what: &dyn Fn() -> String) {
    for retry in [false, true] {
        ctx.case(
            || format!("{name}, batches of {batch}: reply {n} {}{}", what(), if retry { ", then mended" } else { "" }),
            || {
                ctx.step();
                match attacked(src, st.audit.root_hash, batch, n, bad, retry) {
                    Err(_) => {
                        ctx.outcome("refused");
                        Ok(())
                    }
                    Ok((d, how)) => {
                        ctx.outcome(how);
                        let mut got = d.snap();
                        if without_references(st, &mut got) {
                            refs.store(true, SeqCst);
                            ctx.outcome("another reference");
                        }
                        same_snap(st, got).map_err(|e| format!("{how}, but {e}"))
                    }
                }
            },
        );
    }
}

/// The chunks of a reply: per subtree, per chunk, the operations.
fn chunks(reply: &[u8]) -> Vec<Vec<Vec<MOp>>> {
    unpack(reply)
        .iter()
        .map(|b| unpack(b).iter().map(|c| Decoder::new(c).map(|o| o.unwrap()).collect()).collect())
        .collect()
}
fn reply(c: &[Vec<Vec<MOp>>]) -> Vec<u8> {
    let c: Vec<Vec<u8>> = c
        .iter()
        .map(|s| {
            let s: Vec<Vec<u8>> = s
                .iter()
                .map(|ops| {
                    let mut b = vec![];
                    encode_into(ops.iter(), &mut b);
                    b
                })
                .collect();
            pack(&s)
        })
        .collect();
    pack(&c)
}

/// Other nodes that claim the hashes of a node. Whether one of them holds a
/// reference is told.
fn forgeries(node: &Node) -> Vec<(String, Node, bool)> {
    let (key, value, hash, ft) = match node {
        Node::KV(k, v) => (k, v, crate::audit::value_hash(v), None),
        Node::KVValueHash(k, v, h) => (k, v, *h, None),
        Node::KVValueHashFeatureType(k, v, h, f) => (k, v, *h, Some(*f)),
        Node::KVCount(k, v, c) => {
            (k, v, crate::audit::value_hash(v), Some(TreeFeatureType::ProvableCountedMerkNode(*c)))
        }
        _ => return vec![],
    };
    let g = v();
    let mut values: Vec<(String, Vec<u8>)> = vec![];
    let mut last = value.clone();
    *last.last_mut().unwrap() ^= 1;
    values.push(("altered".into(), last));
    let mut first = value.clone();
    first[0] = 99;
    values.push(("of no kind".into(), first));
    values.push(("empty".into(), vec![]));
    let mut more = value.clone();
    more.push(0);
    values.push(("longer".into(), more));
    let mut els = vec![
        ("an item", item("forged")),
        ("a sum item", Element::new_sum_item(77)),
        ("an item with a sum", Element::new_item_with_sum_item(vec![9], 9)),
        ("a tree", Element::empty_tree()),
        ("a tree with a root", Element::new_tree(Some(vec![1]))),
        ("a sum tree", Element::new_sum_tree(None)),
        (
            "a reference",
            Element::new_reference(grovedb::reference_path::ReferencePathType::AbsolutePathReference(p("b"))),
        ),
        ("an mmr tree", Element::new_mmr_tree(1, None)),
    ];
    if let Ok(e) = Element::deserialize(value, g) {
        let mut f = e.clone();
        f.set_flags(Some(vec![66]));
        els.push(("the same with flags", f));
        let sum = match e {
            Element::SumTree(r, s, f) => Some(Element::SumTree(r, s + 1, f)),
            Element::CountTree(r, c, f) => Some(Element::CountTree(r, c + 1, f)),
            Element::BigSumTree(r, c, f) => Some(Element::BigSumTree(r, c + 1, f)),
            Element::ProvableCountTree(r, c, f) => Some(Element::ProvableCountTree(r, c + 1, f)),
            Element::CountSumTree(r, c, s, f) => Some(Element::CountSumTree(r, c, s + 1, f)),
            Element::Tree(Some(_), f) => Some(Element::Tree(None, f)),
            _ => None,
        };
        if let Some(x) = sum {
            els.push(("another aggregate", x));
        }
    }
    for (n, e) in els {
        values.push((n.into(), e.serialize(g).unwrap()));
    }
    let mut out = vec![];
    for (n, val) in values {
        if val == *value {
            continue;
        }
        let free = Element::deserialize(&val, g)
            .is_ok_and(|e| e.is_reference());
        for own in [false, true] {
            if own && free {
                continue;
            }
            let h = if own { crate::audit::value_hash(&val) } else { hash };
            let h2 = if own { ", its own hash" } else { "" };
            out.push((format!("{n}{h2}"), Node::KVValueHash(key.clone(), val.clone(), h), free));
            for f in [
                ft.unwrap_or(TreeFeatureType::BasicMerkNode),
                TreeFeatureType::SummedMerkNode(1000),
                TreeFeatureType::ProvableCountedMerkNode(1000),
            ] {
                let what = format!("{n}{h2}, {f:?}");
                out.push((what, Node::KVValueHashFeatureType(key.clone(), val.clone(), h, f), free));
            }
        }
        out.push((format!("{n} alone"), Node::KV(key.clone(), val), false));
    }
    let mut far = key.clone();
    far.push(0);
    out.push(("another key".into(), Node::KVValueHash(far, value.clone(), hash), false));
    for f in [
        TreeFeatureType::BasicMerkNode,
        TreeFeatureType::SummedMerkNode(1000),
        TreeFeatureType::CountedMerkNode(1000),
        TreeFeatureType::CountedSummedMerkNode(1000, 1000),
        TreeFeatureType::ProvableCountedMerkNode(1000),
    ] {
        out.push((
            format!("the same as {f:?}"),
            Node::KVValueHashFeatureType(key.clone(), value.clone(), hash, f),
            false,
        ));
    }
    for c in [0, 1, 2, 1000] {
        out.push((format!("the same counted as {c}"), Node::KVCount(key.clone(), value.clone(), c), false));
    }
    out.push(("only its hash".into(), Node::KVHash(hash), false));
    out.push(("a hash".into(), Node::Hash(hash), false));
    out
}

fn honest(ctx: &Ctx, st: &State, src: &Db, name: &str) {
    for batch in [1usize, 2, 3, 64] {
        ctx.case(
            || format!("{name}: in order, batches of {batch}"),
            || {
                let r = sync(src, st.audit.root_hash, batch, false, &mut |_, _| 0);
                ctx.steps(r.replies.len() as u64);
                ctx.state(&snap_bytes(&st.snap));
                ctx.outcome(&format!("{} replies", r.replies.len()));
                same(st, &r.end?)
            },
        );
    }
    for (batch, split) in [(1usize, true), (3, true), (64, true), (64, false)] {
        let (dev, cap) = if ctx.thorough { (4, 3000) } else { (2, 300) };
        let mut order: Vec<usize> = vec![];
        let (_, whole) = orders(dev, cap, &mut |choice| {
            order = choice.to_vec();
            let mut waiting = vec![];
            ctx.case(
                || format!("{name}: order {choice:?}, batches of {batch}, split {split}"),
                || {
                    let r = sync(src, st.audit.root_hash, batch, split, &mut |n, _| {
                        choice.get(n).copied().unwrap_or(0)
                    });
                    ctx.steps(r.replies.len() as u64);
                    waiting = r.waiting;
                    same(st, &r.end?)
                },
            );
            waiting
        });
        ctx.outcome(if whole { "all orders" } else { "orders cut off" });
    }
}

/// A session that ends before it is done, and another one on the same replica.
fn interrupted(ctx: &Ctx, st: &State, src: &Db, name: &str) {
    for batch in [1usize, 2, 64] {
        for stop in 0..6 {
            ctx.case(
                || format!("{name}: given up after {stop} replies, batches of {batch}"),
                || {
                    let dest = Db::new();
                    let hash = st.audit.root_hash;
                    let e = |e: grovedb::Error| format!("{e}");
                    for last in [false, true] {
                        let mut s = dest.start_snapshot_syncing(hash, batch, SV, v()).map_err(e)?;
                        let mut queue = vec![hash.to_vec()];
                        let mut n = 0;
                        while !queue.is_empty() && (last || n < stop) {
                            let id = queue.remove(0);
                            let chunk = src.fetch_chunk(&id, None, SV, v()).map_err(e)?;
                            queue.extend(s.apply_chunk(&id, &chunk, SV, v()).map_err(e)?);
                            n += 1;
                            ctx.step();
                        }
                        let done = queue.is_empty() && n > 0;
                        ensure_eq!(s.is_sync_completed(), done, "whether the session is done");
                        if !done {
                            let r = s.commit(v());
                            ensure!(r.is_err(), "an unfinished session is committed");
                            ctx.outcome("unfinished");
                        } else if last {
                            s.commit(v()).map_err(e)?;
                        }
                    }
                    same(st, &dest)
                },
            );
        }
    }
}

fn d15(ctx: &Ctx) {
    let jobs: Vec<(usize, (String, Vec<Op>))> = sources(ctx.thorough)
        .into_iter()
        .map(|s| (0, s))
        .chain(few().into_iter().map(|s| (1, s)))
        .collect();
    for (name, ops) in data_trees() {
        ctx.case(
            || format!("{name} with data"),
            || {
                let st = initial(&ops)?;
                let r = sync(&Db::at(&st.snap), st.audit.root_hash, 64, false, &mut |_, _| 0);
                ctx.steps(r.replies.len() as u64);
                // chunks don't hold it: there must be no replica without it
                ctx.outcome("data trees refused");
                match r.end {
                    Ok(d) => same(&st, &d),
                    Err(_) => Ok(()),
                }
            },
        );
    }
    let known: Vec<State> = few().iter().map(|(_, ops)| initial(ops).unwrap()).collect();
    let pairs: Vec<(usize, usize)> =
        (0..known.len()).flat_map(|i| (0..known.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    ctx.par(&pairs, |(i, j)| {
        let (st, src) = (&known[*i], Db::at(&known[*j].snap));
        for batch in [1usize, 64] {
            ctx.case(
                || format!("source {j} for the root hash of source {i}, batches of {batch}"),
                || {
                    // the source looks up the root by its own hash
                    let r = sync(&src, st.audit.root_hash, batch, false, &mut |_, _| 0);
                    ensure!(r.end.is_err() || known[*i].audit.root_hash == known[*j].audit.root_hash, "it is taken");
                    ctx.steps(r.replies.len() as u64);
                    ctx.outcome("another source");
                    // the honest answers of another source to the same requests
                    let own = sync(&Db::at(&st.snap), st.audit.root_hash, batch, false, &mut |_, _| 0);
                    let other = sync(&src, known[*j].audit.root_hash, batch, false, &mut |_, _| 0);
                    for (n, reply) in own.replies.iter().zip(&other.replies).enumerate().map(|(n, x)| (n, x.1)) {
                        if own.replies[n] == *reply {
                            continue;
                        }
                        match attacked(&Db::at(&st.snap), st.audit.root_hash, batch, n, reply, false) {
                            Err(_) => ctx.outcome("refused"),
                            Ok((d, how)) => {
                                ctx.outcome(how);
                                same(st, &d).map_err(|e| format!("reply {n} {how}, but {e}"))?
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    let refs = AtomicBool::new(false);
    ctx.par(&jobs, |(what, (name, ops))| {
        let st = match initial(ops) {
            Ok(s) => s,
            Err(e) => {
                ctx.case(|| format!("{name}"), || Err(e.clone()));
                return;
            }
        };
        let src = Db::at(&st.snap);
        if *what == 0 {
            honest(ctx, &st, &src, name);
            return;
        }
        honest(ctx, &st, &src, name);
        interrupted(ctx, &st, &src, name);
        requests(ctx, &st, &src, name);
        tampered(ctx, &refs, &st, &src, name);
    });
    ctx.case(
        || "references other than those of the source".to_string(),
        || {
            ensure!(!refs.load(SeqCst), "a replica took them for those of the source");
            Ok(())
        },
    );
}

fn tampered(ctx: &Ctx, refs: &AtomicBool, st: &State, src: &Db, name: &str) {
    let hash = st.audit.root_hash;
    for batch in [1usize, 64] {
        let r = sync(src, hash, batch, false, &mut |_, _| 0);
        for (n, good) in r.replies.iter().enumerate() {
            for at in 0..good.len() {
                for x in [1u8, 0x80, 0xff] {
                    let mut bad = good.clone();
                    bad[at] ^= x;
                    attack(ctx, refs, st, src, name, batch, n, &bad, &|| format!("with byte {at} changed by {x}"));
                }
                attack(ctx, refs, st, src, name, batch, n, &good[..at], &|| format!("cut to {at}"));
            }
            for (m, other) in r.replies.iter().enumerate() {
                if other != good {
                    attack(ctx, refs, st, src, name, batch, n, other, &|| format!("replaced by reply {m}"));
                }
            }
            let parsed = chunks(good);
            for (i, sub) in parsed.iter().enumerate() {
                let mut bad = parsed.clone();
                bad[i] = vec![vec![]];
                attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| format!("with subtree {i} empty"));
                bad.remove(i);
                attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| format!("without subtree {i}"));
                for (j, ops) in sub.iter().enumerate() {
                    let mut bad = parsed.clone();
                    bad[i][j] = vec![];
                    attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| format!("with chunk {i}.{j} empty"));
                    bad[i].remove(j);
                    attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| format!("without chunk {i}.{j}"));
                    for (o, op) in ops.iter().enumerate() {
                        let mut bad = parsed.clone();
                        bad[i][j].remove(o);
                        attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| format!("without {i}.{j}.{o}"));
                        let (MOp::Push(node) | MOp::PushInverted(node)) = op else { continue };
                        for (what, f, free) in forgeries(node) {
                            if free {
                                continue;
                            }
                            let mut bad = parsed.clone();
                            bad[i][j][o] = MOp::Push(f);
                            attack(ctx, refs, st, src, name, batch, n, &reply(&bad), &|| {
                                format!("with {i}.{j}.{o} {what}")
                            });
                        }
                    }
                }
            }
        }
    }
}

/// Databases with data outside of merk trees, which chunks don't hold.
fn data_trees() -> Vec<(&'static str, Vec<Op>)> {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    vec![
        ("an mmr tree", vec![ins("", "a", Element::empty_mmr_tree()), Op::Mmr(vec![], k("a"), vec![1])]),
        ("a bulk append tree", vec![ins("", "a", Element::empty_bulk_append_tree(1).unwrap()), Op::Bulk(vec![], k("a"), vec![1])]),
        ("a dense tree", vec![ins("", "a", Element::empty_dense_tree(2)), Op::Dense(vec![], k("a"), vec![1])]),
    ]
}

/// Requests of every form are answered or refused.
fn requests(ctx: &Ctx, st: &State, src: &Db, name: &str) {
    let hash = st.audit.root_hash;
    let dest = Db::new();
    let mut ids = vec![hash.to_vec()];
    let mut s = dest.start_snapshot_syncing(hash, 64, SV, v()).unwrap();
    let mut at = 0;
    while at < ids.len() {
        let chunk = src.fetch_chunk(&ids[at], None, SV, v()).unwrap_or_default();
        ids.extend(s.apply_chunk(&ids[at], &chunk, SV, v()).unwrap_or_default());
        at += 1;
    }
    drop(s);
    for (n, id) in ids.iter().enumerate() {
        let mut bad: Vec<Vec<u8>> = vec![];
        for at in 0..id.len() {
            for x in [1u8, 2, 4, 8, 0x80, 0xff] {
                let mut b = id.clone();
                b[at] ^= x;
                bad.push(b);
            }
            bad.push(id[..at].to_vec());
        }
        let mut b = id.clone();
        b.push(0);
        bad.push(b);
        for b in bad {
            ctx.case(
                || format!("{name}: request {n} as {}", kit::hex(&b)),
                || {
                    ctx.step();
                    ctx.outcome(if src.fetch_chunk(&b, None, SV, v()).is_ok() { "answered" } else { "not answered" });
                    let mut s = dest.start_snapshot_syncing(hash, 64, SV, v()).map_err(|e| e.to_string())?;
                    let chunk = src.fetch_chunk(id, None, SV, v()).map_err(|e| e.to_string())?;
                    if n == 0 && b != hash {
                        let r = s.apply_chunk(&b, &chunk, SV, v());
                        let r = r.map(|_| s.is_sync_completed());
                        ensure!(!matches!(r, Ok(true)), "a chunk that wasn't asked for ends the session");
                    }
                    Ok(())
                },
            );
        }
    }
}
