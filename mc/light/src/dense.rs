//! C17, C18: the dense fixed-sized Merkle tree.
use std::collections::{BTreeMap, BTreeSet};

use grovedb_dense_fixed_sized_merkle_tree::{
    position_key, DenseFixedSizedMerkleTree, DenseMerkleError, DenseTreeProof,
};
use grovedb_costs::OperationCost;
use grovedb_query::{Query, QueryItem};
use kit::*;

use crate::mock::{put_cost, Mem, M};
use crate::query::show;

type H = [u8; 32];
type T<'a> = DenseFixedSizedMerkleTree<M<'a>>;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C17",
            level: "model_checking",
            run: c17,
        },
        Spec {
            id: "C18",
            level: "exploration",
            run: c18,
        },
    ]
}

pub fn hash3(v: &H, l: &H, r: &H) -> H {
    *blake3::hash(&[&v[..], l, r].concat()).as_bytes()
}

/// Hashes of all subtrees, children before parents, from the end.
pub fn subtree_hashes(vals: &[Vec<u8>]) -> Vec<H> {
    let n = vals.len();
    let mut h = vec![[0u8; 32]; n];
    for i in (0..n).rev() {
        let at = |c: usize| if c < n { h[c] } else { [0; 32] };
        h[i] = hash3(
            blake3::hash(&vals[i]).as_bytes(),
            &at(2 * i + 1),
            &at(2 * i + 2),
        );
    }
    h
}
pub fn root_of(vals: &[Vec<u8>]) -> H {
    subtree_hashes(vals).first().copied().unwrap_or([0; 32])
}

fn err<X, E: std::fmt::Display>(r: Result<X, E>, what: &str) -> Result<X, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

fn value(i: usize) -> Vec<u8> {
    match i % 4 {
        0 => vec![i as u8],
        1 => vec![],
        2 => vec![i as u8; 33],
        _ => format!("value {i}").into_bytes(),
    }
}

/// What hashing a tree costs: each value read once (out of the cache or not)
/// and hashed, and each node hashed.
fn price(vals: &[Vec<u8>]) -> OperationCost {
    OperationCost {
        seek_count: vals.len() as u32,
        storage_loaded_bytes: vals.iter().map(|v| v.len() as u64).sum(),
        hash_node_calls: 2 * vals.len() as u32,
        ..Default::default()
    }
}

fn compare(ctx: &Ctx, t: &T, h: u8, vals: &[Vec<u8>]) -> Res {
    ensure_eq!(t.count() as usize, vals.len(), "count");
    ensure_eq!(t.capacity() as u32, (1u32 << h) - 1, "capacity");
    ensure_eq!(t.height(), h, "height");
    let r = t.root_hash();
    ensure_eq!(err(r.value, "root_hash")?, root_of(vals), "root hash");
    ensure_eq!(r.cost, price(vals), "cost of the root hash");
    for (i, v) in vals.iter().enumerate() {
        let r = t.get(i as u16);
        ensure_eq!(err(r.value, "get")?, Some(v.clone()), "value at {i}");
        let want = OperationCost {
            hash_node_calls: 0,
            ..price(&vals[i..=i])
        };
        ensure_eq!(r.cost, want, "cost of value {i}");
    }
    for p in [vals.len() as u16, t.capacity(), u16::MAX] {
        if p as usize >= vals.len() {
            let r = t.get(p);
            ensure_eq!(err(r.value, "get")?, None, "value at {p}");
            ensure_eq!(r.cost, OperationCost::default(), "cost of no value");
        }
    }
    let mut s = vec![h];
    s.extend(root_of(vals));
    ctx.state(&s);
    Ok(())
}

// --------------------------------------------------------------------- C17

const OPS: [&str; 6] = ["insert a", "try b", "try c", "reset", "reopen", "flush"];

fn c17(ctx: &Ctx) {
    ctx.assume("blake3 is the specification of the hash, taken from the blake3 crate");
    let len = ctx.pick(6, 8);
    ctx.bound(format!("every history of up to {len} operations out of {OPS:?} on trees of height 1, 2 and 3, with immediate and with deferred writes; reopening is only done on flushed storage"));
    let mut all = vec![];
    sequences_upto(OPS.len(), len, |s| all.push(s.to_vec()));
    ctx.par(&all, |ops| {
        for h in 1..=3u8 {
            for deferred in [false, true] {
                ctx.case(
                    || {
                        format!(
                            "h={h} deferred={deferred} {}",
                            ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(",")
                        )
                    },
                    || history(ctx, h, deferred, ops),
                );
            }
        }
    });
    fill(ctx);
    faults(ctx);
    limits(ctx);
}

fn history(ctx: &Ctx, h: u8, deferred: bool, ops: &[usize]) -> Res {
    let mem = Mem::new();
    mem.deferred.set(deferred);
    let mut t = err(T::new(h, M(&mem)), "new")?;
    let cap = (1usize << h) - 1;
    let mut vals: Vec<Vec<u8>> = vec![];
    for (n, &o) in ops.iter().enumerate() {
        match OPS[o] {
            "reset" => {
                t.reset();
                vals.clear();
            }
            "reopen" => {
                mem.flush();
                t = err(T::from_state(h, vals.len() as u16, M(&mem)), "from_state")?;
            }
            "flush" => mem.flush(),
            op => {
                let v = [op.as_bytes(), &[n as u8; 3][..n % 4]].concat();
                let puts = mem.puts.get();
                let cost;
                let r = if op == "insert a" {
                    let r = t.insert(&v);
                    cost = r.cost;
                    match r.value {
                        Ok(r) => Some(r),
                        Err(DenseMerkleError::TreeFull { capacity, count }) => {
                            ensure!(
                                capacity as usize == cap && count as usize == vals.len(),
                                "TreeFull names {count} of {capacity}"
                            );
                            None
                        }
                        Err(e) => return Err(format!("insert: {e}")),
                    }
                } else {
                    let r = t.try_insert(&v);
                    cost = r.cost;
                    err(r.value, "try_insert")?
                };
                let at = vals.len();
                if vals.len() == cap {
                    ensure!(r.is_none(), "a full tree took a value");
                    ensure_eq!(mem.puts.get(), puts, "writes to a full tree");
                    ensure_eq!(cost, OperationCost::default(), "cost of {op} in a full tree");
                } else {
                    vals.push(v);
                    let mut want = price(&vals);
                    want += put_cost(2, vals[at].len());
                    ensure_eq!(cost, want, "cost of {op}");
                    ensure_eq!(
                        r,
                        Some((root_of(&vals), vals.len() as u16 - 1)),
                        "result of {op}"
                    );
                }
            }
        }
        ctx.step();
        compare(ctx, &t, h, &vals)?;
    }
    Ok(())
}

/// Filling trees of every height; the high ones only at their two ends.
fn fill(ctx: &Ctx) {
    let full = ctx.pick(8, 10);
    ctx.bound(format!("filling trees of height 1..={full} completely, of heights up to 16 at counts within 2 of every level boundary and of the end"));
    for h in 1..=full {
        ctx.case(
            || format!("fill h={h}"),
            || {
                let mem = Mem::new();
                let mut t = err(T::new(h, M(&mem)), "new")?;
                let mut vals = vec![];
                for i in 0..(1usize << h) - 1 {
                    vals.push(value(i));
                    let (r, p) = err(t.insert(&vals[i]).value, "insert")?;
                    ensure_eq!(p as usize, i, "position");
                    ensure_eq!(r, root_of(&vals), "root with {} values", i + 1);
                    ctx.step();
                }
                compare(ctx, &t, h, &vals)?;
                ensure!(t.insert(b"x").value.is_err(), "insert into a full tree");
                ensure_eq!(err(t.try_insert(b"x").value, "try")?, None, "full");
                compare(ctx, &t, h, &vals)
            },
        );
    }
    let mut jobs = vec![];
    for h in full + 1..=16u8 {
        let cap = (1u32 << h) - 1;
        for b in (h - 2)..=h {
            for d in 0..4u32 {
                let c = ((1u32 << b) - 1 + d).saturating_sub(2);
                if c <= cap && (ctx.thorough || h == 16 || d == 1) {
                    jobs.push((h, c as usize));
                }
            }
        }
    }
    ctx.par(&jobs, |&(h, c)| {
        ctx.case(
            || format!("h={h} with {c} values"),
            || {
                let mem = Mem::new();
                let mut vals: Vec<Vec<u8>> = (0..c).map(value).collect();
                for (i, v) in vals.iter().enumerate() {
                    let k = position_key(i as u16);
                    ensure_eq!(k, [(i >> 8) as u8, i as u8], "key of {i}");
                    mem.data.borrow_mut().insert(k.to_vec(), v.clone());
                }
                let mut t = err(T::from_state(h, c as u16, M(&mem)), "from_state")?;
                let r = err(t.try_insert(b"next").value, "try_insert")?;
                if c < (1 << h) - 1 {
                    vals.push(b"next".to_vec());
                    ensure_eq!(r, Some((root_of(&vals), c as u16)), "insert");
                } else {
                    ensure_eq!(r, None, "insert into a full tree");
                }
                compare(ctx, &t, h, &vals)
            },
        );
    });
}

fn faults(ctx: &Ctx) {
    let h = 3u8;
    ctx.bound("every single failed read or write during an insertion into a tree of height 3 with any count, reopened or not, and its retry");
    for count in 0..7usize {
        for reopened in [false, true] {
            for try_ in [false, true] {
                for op in ["read", "write"] {
                    for k in 0..10u64 {
                        ctx.case(
                            || format!("fault: count={count} reopened={reopened} try={try_} {op} {k} fails"),
                            || {
                                let mem = Mem::new();
                                let mut t = err(T::new(h, M(&mem)), "new")?;
                                let mut vals: Vec<Vec<u8>> = (0..count).map(value).collect();
                                for v in &vals {
                                    err(t.insert(v).value, "insert")?;
                                }
                                if reopened {
                                    t = err(T::from_state(h, count as u16, M(&mem)), "reopen")?;
                                }
                                let root = root_of(&vals);
                                let c = if op == "read" { &mem.fail_get } else { &mem.fail_put };
                                c.set(Some(k));
                                let mut ins = |t: &mut T, v: &[u8]| {
                                    if try_ {
                                        t.try_insert(v).value.map(|r| r.unwrap())
                                    } else {
                                        t.insert(v).value
                                    }
                                };
                                vals.push(b"new".to_vec());
                                match ins(&mut t, b"new") {
                                    Ok(r) => {
                                        ctx.outcome("not met");
                                        ensure_eq!(r, (root_of(&vals), count as u16), "insert");
                                        mem.heal();
                                    }
                                    Err(_) => {
                                        ctx.outcome("failed");
                                        mem.heal();
                                        ensure_eq!(t.count() as usize, count, "count after a failure");
                                        ensure_eq!(err(t.root_hash().value, "root")?, root, "root after a failure");
                                        ensure_eq!(err(t.get(count as u16).value, "get")?, None, "the value that was not inserted");
                                        // another value takes the place
                                        vals[count] = b"other".to_vec();
                                        ensure_eq!(err(ins(&mut t, b"other"), "retry")?, (root_of(&vals), count as u16), "retry");
                                    }
                                }
                                compare(ctx, &t, h, &vals)?;
                                // a lost value is an error, not another root
                                for i in 0..=count {
                                    let key = position_key(i as u16).to_vec();
                                    let t = err(T::from_state(h, count as u16 + 1, M(&mem)), "reopen")?;
                                    let v = mem.data.borrow_mut().remove(&key);
                                    ensure!(v.is_some(), "value {i} was not stored");
                                    ensure!(t.root_hash().value.is_err(), "root without value {i}");
                                    ensure!(t.get(i as u16).value.is_err(), "get of a lost value");
                                    mem.data.borrow_mut().insert(key, v.unwrap());
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}

fn limits(ctx: &Ctx) {
    ctx.bound("all heights 0..=255 with counts around their capacity");
    for h in 0..=255u8 {
        ctx.case(
            || format!("height {h}"),
            || {
                let mem = Mem::new();
                let ok = (1..=16).contains(&h);
                ensure_eq!(T::new(h, M(&mem)).is_ok(), ok, "new");
                let cap = if ok { (1u32 << h) - 1 } else { 0 };
                for c in [0, 1, 2, cap.saturating_sub(1), cap, cap + 1, 65535] {
                    let Ok(c) = u16::try_from(c) else { continue };
                    ensure_eq!(
                        T::from_state(h, c, M(&mem)).is_ok(),
                        ok && c as u32 <= cap,
                        "from_state with {c}"
                    );
                    // the verifier has the same limits
                    let p = DenseTreeProof {
                        entries: vec![],
                        node_value_hashes: vec![],
                        node_hashes: vec![(0, [1; 32])],
                    };
                    let r = p.verify_and_get_root::<Vec<_>>(h, c);
                    ensure_eq!(r.is_ok(), ok && c as u32 <= cap, "verifier with {c}");
                }
                Ok(())
            },
        );
    }
}

// --------------------------------------------------------------------- C18

fn c18(ctx: &Ctx) {
    ctx.assume("no two inputs of blake3 with the same hash are met");
    ctx.assume("height and count are those of the tree (the verifier's caller takes them from the authenticated element)");
    ctx.alloc_limit
        .store(1 << 28, std::sync::atomic::Ordering::Relaxed);
    complete(ctx);
    many(ctx);
    queries(ctx);
    cross(ctx);
    forge(ctx);
    large(ctx);
    bytes(ctx);
}

/// Proofs of large values.
fn large(ctx: &Ctx) {
    let mb = ctx.pick(16usize, 90);
    ctx.bound(format!("a value of {mb} MiB: proved, encoded, decoded, verified"));
    let before = ctx.alloc_limit.swap(1 << 32, std::sync::atomic::Ordering::Relaxed);
    ctx.case(
        || format!("value of {mb} MiB"),
        || {
            let mem = Mem::new();
            let mut t = err(T::new(2, M(&mem)), "new")?;
            let vals = vec![vec![1u8; mb << 20], vec![2u8; 3]];
            for v in &vals {
                err(t.insert(v).value, "insert")?;
            }
            let p = err(DenseTreeProof::generate(&t, &[0, 1]).value, "generate")?;
            let b = err(p.encode_to_vec(), "encode")?;
            let p = err(DenseTreeProof::decode_from_slice(&b), "decode")?;
            let (root, got): (H, Vec<(u16, Vec<u8>)>) = err(p.verify_and_get_root(2, 2), "verify")?;
            ensure!(root == root_of(&vals), "root");
            ensure!(got == vec![(0, vals[0].clone()), (1, vals[1].clone())], "values");
            Ok(())
        },
    );
    ctx.alloc_limit.store(before, std::sync::atomic::Ordering::Relaxed);
}

fn tree<'a>(mem: &'a Mem, h: u8, n: usize) -> T<'a> {
    let mut t = T::new(h, M(mem)).unwrap();
    for i in 0..n {
        t.insert(&dv(i)).unwrap().unwrap();
    }
    t
}
/// Values that differ.
fn dv(i: usize) -> Vec<u8> {
    vec![i as u8; 1 + i % 3]
}
fn dvs(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(dv).collect()
}

fn honest(ctx: &Ctx, t: &T, n: usize, pos: &[u16]) -> Result<DenseTreeProof, String> {
    let root = root_of(&dvs(n));
    let h = t.height();
    let p = err(DenseTreeProof::generate(t, pos).value, "generate")?;
    let want: BTreeMap<u16, Vec<u8>> = pos.iter().map(|p| (*p, dv(*p as usize))).collect();
    let got: Vec<(u16, Vec<u8>)> =
        err(p.verify_against_expected_root(&root, h, n as u16), "verify")?;
    ensure_eq!(
        got,
        want.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>(),
        "verified entries"
    );
    let (r, m): (H, BTreeMap<u16, Vec<u8>>) =
        err(p.verify_and_get_root(h, n as u16), "verify_and_get_root")?;
    ensure_eq!((r, &m), (root, &want), "verify_and_get_root");
    let mut other = root;
    other[0] ^= 128;
    ensure!(
        p.verify_against_expected_root::<Vec<_>>(&other, h, n as u16).is_err(),
        "verifies against another root"
    );
    let b = err(p.encode_to_vec(), "encode")?;
    let q = err(DenseTreeProof::decode_from_slice(&b), "decode")?;
    ensure_eq!(format!("{q:?}"), format!("{p:?}"), "decoded proof");
    // with a minimal number of hashes: one per missing child of the paths
    let mut path = BTreeSet::new();
    for p in pos {
        let mut p = *p;
        path.insert(p);
        while p > 0 {
            p = (p - 1) / 2;
            path.insert(p);
        }
    }
    ensure_eq!(
        p.entries.len() + p.node_value_hashes.len(),
        path.len(),
        "values and value hashes"
    );
    ctx.state(&b);
    Ok(p)
}

fn complete(ctx: &Ctx) {
    let h = 4u8;
    let full = ctx.pick(9, 15);
    ctx.bound(format!("every set of positions of trees with up to {full} values (heights 1..4), all singles and pairs of trees with up to 31 values; every position out of range; every lost value"));
    let mut jobs = vec![];
    for h in 1..=5u8 {
        for n in 0..(1usize << h) {
            jobs.push((h, n));
        }
    }
    let _ = h;
    ctx.par(&jobs, |&(h, n)| {
        let mem = Mem::new();
        let t = tree(&mem, h, n);
        if n <= full {
            for mask in 0..1u32 << n {
                let pos: Vec<u16> = (0..n as u16).filter(|i| mask >> i & 1 == 1).collect();
                ctx.case(
                    || format!("h={h} n={n} positions {pos:?}"),
                    || honest(ctx, &t, n, &pos).map(drop),
                );
            }
        }
        for a in 0..n as u16 {
            for b in 0..n as u16 {
                ctx.case(
                    || format!("h={h} n={n} positions [{a}, {b}]"),
                    || honest(ctx, &t, n, &[a, b]).map(drop),
                );
            }
        }
        for bad in [n as u16, (1u16 << h) - 1, u16::MAX] {
            if (bad as usize) < n {
                continue;
            }
            for with in [vec![bad], vec![0, bad]] {
                ctx.case(
                    || format!("h={h} n={n} impossible {with:?}"),
                    || {
                        ensure!(
                            DenseTreeProof::generate(&t, &with).value.is_err(),
                            "proof of a position past the end"
                        );
                        Ok(())
                    },
                );
            }
        }
        if n <= 15 {
            for gone in 0..n {
                ctx.case(
                    || format!("h={h} n={n} value {gone} lost"),
                    || {
                        let mem = Mem::new();
                        drop(tree(&mem, h, n));
                        mem.data.borrow_mut().remove(&position_key(gone as u16)[..]);
                        let t = T::from_state(h, n as u16, M(&mem)).unwrap();
                        for p in 0..n as u16 {
                            ensure!(
                                DenseTreeProof::generate(&t, &[p]).value.is_err(),
                                "proof of {p} without value {gone}"
                            );
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

/// Large sets of positions of large trees.
fn many(ctx: &Ctx) {
    let jobs: Vec<(u8, usize)> = ctx.pick(
        vec![(5, 31), (6, 40), (6, 63), (7, 100), (8, 255), (9, 300), (10, 700)],
        vec![
            (5, 17), (5, 30), (5, 31), (6, 33), (6, 40), (6, 62), (6, 63), (7, 64), (7, 100),
            (7, 127), (8, 128), (8, 200), (8, 255), (9, 256), (9, 300), (9, 511), (10, 513),
            (10, 700), (10, 1023), (11, 1100), (12, 2100),
        ],
    );
    ctx.bound(format!("large sets of positions (every k-th, runs, all) of large trees: (height, count) {jobs:?}"));
    ctx.par(&jobs, |&(h, n)| {
        let mem = Mem::new();
        let t = tree(&mem, h, n);
        for set in crate::mmr::big_sets(n) {
            let pos: Vec<u16> = set.iter().map(|x| *x as u16).collect();
            ctx.case(
                || format!("h={h} n={n} positions {pos:?}"),
                || honest(ctx, &t, n, &pos).map(drop),
            );
        }
    });
}

/// Bounds as one and two bytes.
fn ends(x: u32) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if x < 256 {
        v.push(vec![x as u8]);
    }
    if x < 65536 {
        v.push(vec![(x >> 8) as u8, x as u8]);
    }
    v
}

pub fn number_items(bounds: &[Vec<u8>]) -> Vec<QueryItem> {
    use QueryItem::*;
    let mut v = vec![RangeFull(..)];
    for a in bounds {
        let a = a.clone();
        v.push(Key(a.clone()));
        v.push(RangeFrom(a.clone()..));
        v.push(RangeTo(..a.clone()));
        v.push(RangeToInclusive(..=a.clone()));
        v.push(RangeAfter(a.clone()..));
        for b in bounds {
            let b = b.clone();
            v.push(Range(a.clone()..b.clone()));
            v.push(RangeInclusive(a.clone()..=b.clone()));
            v.push(RangeAfterTo(a.clone()..b.clone()));
            v.push(RangeAfterToInclusive(a.clone()..=b.clone()));
        }
    }
    v
}

/// Is position `p` selected, bounds read as big-endian numbers?
pub fn number_selected(i: &QueryItem, p: u128) -> bool {
    use QueryItem::*;
    let n = |b: &[u8]| b.iter().fold(0u128, |a, x| a << 8 | *x as u128);
    match i {
        Key(k) => n(k) == p,
        Range(r) => n(&r.start) <= p && p < n(&r.end),
        RangeInclusive(r) => n(r.start()) <= p && p <= n(r.end()),
        RangeFull(..) => true,
        RangeFrom(r) => n(&r.start) <= p,
        RangeTo(r) => p < n(&r.end),
        RangeToInclusive(r) => p <= n(&r.end),
        RangeAfter(r) => n(&r.start) < p,
        RangeAfterTo(r) => n(&r.start) < p && p < n(&r.end),
        RangeAfterToInclusive(r) => n(r.start()) < p && p <= n(r.end()),
    }
}

pub fn number_query(items: &[QueryItem]) -> Query {
    Query {
        items: items.to_vec(),
        ..Query::new()
    }
}

fn queries(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 0), (1, 1), (2, 0), (2, 2), (2, 3), (3, 4), (3, 7)],
        vec![(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (4, 9), (4, 15)],
    );
    ctx.bound(format!("queries of one item of every kind with one and two byte bounds in 0..=count+1, 255, 256, 65534, 65535, and of two items with bounds up to count: (height, count) {counts:?}; bounds of 0 and 3 bytes"));
    ctx.par(&counts, |&(h, n)| {
        let mem = Mem::new();
        let t = tree(&mem, h, n);
        let mut bs: Vec<Vec<u8>> = (0..=n as u32 + 1).flat_map(ends).collect();
        for x in [255, 256, 65534, 65535] {
            bs.extend(ends(x));
        }
        let items = number_items(&bs);
        let two: Vec<Vec<u8>> = (0..=n.min(4) as u32).map(|x| vec![x as u8]).collect();
        let two = number_items(&two);
        let mut qs: Vec<Vec<QueryItem>> = vec![vec![]];
        qs.extend(items.into_iter().map(|i| vec![i]));
        if n <= 4 || ctx.thorough {
            for a in &two {
                for b in &two {
                    qs.push(vec![a.clone(), b.clone()]);
                }
            }
        }
        let root = root_of(&dvs(n));
        for items in &qs {
            ctx.case(
                || {
                    format!(
                        "h={h} n={n} query {}",
                        items.iter().map(show).collect::<Vec<_>>().join(",")
                    )
                },
                || {
                    let q = number_query(items);
                    let want: Vec<(u16, Vec<u8>)> = (0..n)
                        .filter(|p| items.iter().any(|i| number_selected(i, *p as u128)))
                        .map(|p| (p as u16, dv(p)))
                        .collect();
                    let p = err(DenseTreeProof::generate_for_query(&t, &q).value, "generate")?;
                    let (r, got): (H, Vec<(u16, Vec<u8>)>) =
                        err(p.verify_for_query(&q, h, n as u16), "verify_for_query")?;
                    ensure_eq!(got, want, "proved entries");
                    ensure_eq!(r, root, "root");
                    // proofs of more or less are refused for this query
                    for other in 0..n as u16 {
                        let mut pos: BTreeSet<u16> = want.iter().map(|x| x.0).collect();
                        if !pos.remove(&other) {
                            pos.insert(other);
                        }
                        let pos: Vec<u16> = pos.into_iter().collect();
                        let p = err(DenseTreeProof::generate(&t, &pos).value, "generate")?;
                        ensure!(
                            p.verify_for_query::<Vec<_>>(&q, h, n as u16).is_err(),
                            "a proof of {pos:?} answers the query"
                        );
                    }
                    ctx.outcome(if want.is_empty() { "nothing selected" } else { "selected" });
                    Ok(())
                },
            );
        }
        for b in [vec![], vec![0, 0, 1]] {
            for i in number_items(&[b.clone()]) {
                if matches!(i, QueryItem::RangeFull(..)) {
                    continue;
                }
                ctx.case(
                    || format!("h={h} n={n} malformed {}", show(&i)),
                    || {
                        let q = number_query(&[i.clone()]);
                        ensure!(
                            DenseTreeProof::generate_for_query(&t, &q).value.is_err(),
                            "proof for a malformed position"
                        );
                        let p = err(DenseTreeProof::generate(&t, &[]).value, "generate")?;
                        ensure!(
                            p.verify_for_query::<Vec<_>>(&q, h, n as u16).is_err(),
                            "malformed position verified"
                        );
                        Ok(())
                    },
                );
            }
        }
        ctx.case(
            || format!("h={h} n={n} subquery"),
            || {
                let mut q = number_query(&[QueryItem::RangeFull(..)]);
                q.set_subquery(Query::new());
                ensure!(
                    DenseTreeProof::generate_for_query(&t, &q).value.is_err(),
                    "subquery accepted"
                );
                Ok(())
            },
        );
    });
}

/// Every honest proof against every query.
fn cross(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 1), (2, 3), (3, 5), (3, 6), (3, 7)],
        vec![(1, 1), (2, 2), (2, 3), (3, 4), (3, 5), (3, 6), (3, 7), (4, 8), (4, 9)],
    );
    let k = ctx.pick(2, 3);
    ctx.bound(format!("the proof of every set of positions of trees {counts:?} against every query of up to {k} ranges"));
    ctx.par(&counts, |&(h, n)| {
        let mem = Mem::new();
        let t = tree(&mem, h, n);
        let qs = crate::bulk::range_unions(n as u8, k);
        for set in 0u32..1 << n {
            let pos: Vec<u16> = (0..n as u16).filter(|i| set >> i & 1 == 1).collect();
            ctx.case(
                || format!("h={h} n={n} proof of {pos:?} against queries"),
                || {
                    let p = err(DenseTreeProof::generate(&t, &pos).value, "generate")?;
                    for u in &qs {
                        ctx.step();
                        let items: Vec<QueryItem> =
                            u.iter().map(|(a, b)| QueryItem::Range(vec![*a]..vec![*b])).collect();
                        let want: Vec<u16> = (0..n as u16)
                            .filter(|i| u.iter().any(|(a, b)| (*a as u16..*b as u16).contains(i)))
                            .collect();
                        let r = p.verify_for_query::<Vec<_>>(&number_query(&items), h, n as u16);
                        ensure_eq!(r.is_ok(), want == pos, "answers {u:?}: {r:?}");
                    }
                    Ok(())
                },
            );
        }
    });
}

/// All proofs an adversary with the tree's hashes can write for tiny trees.
fn forge(ctx: &Ctx) {
    ctx.bound(format!("forged proofs of trees of height 2 (counts 1..3){}: each position absent, or an entry with a true, a foreign or a forged value, or a value hash or a subtree hash out of the tree's; alone or two of them at once at one position", ctx.pick(" and of height 3 (count 4, 5)", " and of height 3 (count 4 to 6)")));
    let mut jobs = vec![];
    let small: &[(u8, usize)] = &[(1, 1), (2, 1), (2, 2), (2, 3), (3, 4), (3, 5), (3, 6)];
    for &(h, n) in &small[..ctx.pick(6, 7)] {
        let vals = dvs(n);
        let mut hs: Vec<H> = subtree_hashes(&vals);
        hs.extend(vals.iter().map(|v| *blake3::hash(v).as_bytes()));
        hs.push([0; 32]);
        if n > 3 {
            hs.truncate(n + 1);
        }
        // what can be said at one position
        let mut at: Vec<(u8, usize)> = vec![(0, 0)];
        for v in 0..n + 1 {
            if n <= 3 || v % 2 == 0 {
                at.push((1, v));
            }
        }
        for i in 0..hs.len() {
            at.push((2, i));
            at.push((3, i));
        }
        for first in 0..at.len() {
            jobs.push((h, n, hs.clone(), at.clone(), first));
        }
    }
    ctx.par(&jobs, |(h, n, hs, at, first)| {
        let (h, n) = (*h, *n);
        let vals = dvs(n);
        let root = root_of(&vals);
        ctx.case(
            || format!("forge h={h} n={n} first {:?}", at[*first]),
            || {
                let mut bad = None;
                let cells = if n > 3 { n - 1 } else { (1 << h) - 2 };
                sequences(at.len(), cells, |rest| {
                    if bad.is_some() {
                        return;
                    }
                    let mut p = DenseTreeProof {
                        entries: vec![],
                        node_value_hashes: vec![],
                        node_hashes: vec![],
                    };
                    for (pos, a) in std::iter::once(first).chain(rest).enumerate() {
                        let pos = pos as u16;
                        match at[*a] {
                            (0, _) => {}
                            (1, v) => p.entries.push((
                                pos,
                                vals.get(v).cloned().unwrap_or(b"forged".to_vec()),
                            )),
                            (2, i) => p.node_value_hashes.push((pos, hs[i])),
                            (_, i) => p.node_hashes.push((pos, hs[i])),
                        }
                    }
                    ctx.step();
                    let r = p.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(
                        &root, h, n as u16,
                    );
                    if let Ok(got) = r {
                        if got.iter().any(|(i, v)| vals.get(*i as usize) != Some(v)) {
                            bad = Some(format!("{p:?}"));
                        }
                        // whatever follows from it for a query is complete
                        let q = number_query(&[QueryItem::RangeFull(..)]);
                        if let Ok((r, got)) =
                            p.verify_for_query::<Vec<(u16, Vec<u8>)>>(&q, h, n as u16)
                        {
                            if r == root && got.len() != n {
                                bad = Some(format!("incomplete {p:?}"));
                            }
                        }
                    }
                });
                ensure!(bad.is_none(), "a false proof verifies: {}", bad.unwrap());
                Ok(())
            },
        );
    });
    // edits of honest proofs of larger trees
    let few = ctx.pick(9, 15);
    let jobs: Vec<(u8, usize)> = (1..=4u8)
        .flat_map(|h| (1..(1usize << h)).map(move |n| (h, n)))
        .filter(|x| x.1 <= few)
        .chain(ctx.pick(vec![(4, 15), (5, 21)], vec![(5, 16), (5, 21), (5, 31)]))
        .collect();
    ctx.bound("edited honest proofs of one and two positions of all trees with up to 9 (thorough 15) values, and of all, half and every second position of these and of some trees with up to 21 (thorough 31): any list entry removed, repeated, moved to another position or to another list, any value or hash exchanged or flipped, positions past the end");
    ctx.par(&jobs, |&(h, n)| {
        let mem = Mem::new();
        let t = tree(&mem, h, n);
        let vals = dvs(n);
        let root = root_of(&vals);
        let mut sets: Vec<Vec<u16>> = vec![];
        for a in 0..n as u16 {
            for b in a..n as u16 {
                sets.push(vec![a, b]);
            }
        }
        if n > few {
            sets.clear();
        }
        let all = 0..n as u16;
        sets.push(all.clone().collect());
        sets.push(all.clone().step_by(2).collect());
        sets.push(all.clone().skip(1).step_by(2).collect());
        sets.push(all.clone().skip(n / 2).collect());
        sets.push(all.clone().take(n / 2).collect());
        sets.push(all.skip(1).collect());
        {
            for set in &sets {
                ctx.case(
                    || format!("edits h={h} n={n} {set:?}"),
                    || {
                        let p = honest(ctx, &t, n, set)?;
                        let mut forms = vec![];
                        edits(&p, n as u16, &mut forms);
                        for f in forms {
                            ctx.step();
                            if let Ok(got) = f.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(
                                &root, h, n as u16,
                            ) {
                                let k: BTreeSet<u16> = got.iter().map(|x| x.0).collect();
                                ensure_eq!(k.len(), got.len(), "a position reported twice");
                                for (i, v) in got {
                                    ensure!(
                                        vals.get(i as usize) == Some(&v),
                                        "position {i} proved as {} by {f:?}",
                                        hex(&v)
                                    );
                                }
                            }
                            for q in 0..n as u16 {
                                let q2 = number_query(&[QueryItem::Key(vec![q as u8])]);
                                if let Ok((r, got)) = f.verify_for_query::<Vec<(u16, Vec<u8>)>>(
                                    &q2, h, n as u16,
                                ) {
                                    ensure!(
                                        r != root || got == vec![(q, vals[q as usize].clone())],
                                        "query for {q} answered {got:?} by {f:?}"
                                    );
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn edits(p: &DenseTreeProof, n: u16, out: &mut Vec<DenseTreeProof>) {
    let mut add = |f: &dyn Fn(&mut DenseTreeProof)| {
        let mut e = p.clone();
        f(&mut e);
        out.push(e);
    };
    let past = [n, n + 1, u16::MAX];
    for i in 0..p.entries.len() {
        add(&|e| {
            e.entries.remove(i);
        });
        add(&|e| e.entries.push(e.entries[i].clone()));
        add(&|e| e.entries.push((e.entries[i].0, b"forged".to_vec())));
        add(&|e| e.entries.insert(0, (e.entries[i].0, b"forged".to_vec())));
        add(&|e| {
            let (k, v) = e.entries.remove(i);
            e.node_value_hashes.push((k, *blake3::hash(&v).as_bytes()));
        });
        add(&|e| {
            let (k, v) = e.entries[i].clone();
            e.node_value_hashes.push((k, *blake3::hash(&v).as_bytes()));
        });
        add(&|e| {
            let (k, v) = e.entries[i].clone();
            e.entries[i].1 = b"forged".to_vec();
            e.node_value_hashes.push((k, *blake3::hash(&v).as_bytes()));
        });
        for to in (0..n).chain(past) {
            add(&|e| e.entries[i].0 = to);
            add(&|e| e.entries.push((to, e.entries[i].1.clone())));
            add(&|e| e.entries.push((to, b"forged".to_vec())));
        }
        for v in 0..n as usize + 1 {
            add(&|e| e.entries[i].1 = dv(v));
        }
    }
    for i in 0..p.node_value_hashes.len() {
        add(&|e| {
            e.node_value_hashes.remove(i);
        });
        add(&|e| e.node_value_hashes.push(e.node_value_hashes[i]));
        add(&|e| {
            let x = e.node_value_hashes.remove(i);
            e.node_hashes.push(x);
        });
        add(&|e| e.node_value_hashes[i].1[0] ^= 1);
        add(&|e| e.entries.push((e.node_value_hashes[i].0, b"forged".to_vec())));
        for to in (0..n).chain(past) {
            add(&|e| e.node_value_hashes[i].0 = to);
        }
    }
    for i in 0..p.node_hashes.len() {
        add(&|e| {
            e.node_hashes.remove(i);
        });
        add(&|e| e.node_hashes.push(e.node_hashes[i]));
        add(&|e| {
            let x = e.node_hashes.remove(i);
            e.node_value_hashes.push(x);
        });
        add(&|e| e.node_hashes[i].1[31] ^= 128);
        add(&|e| e.entries.push((e.node_hashes[i].0, b"forged".to_vec())));
        // an entry under a subtree that is given by its hash
        let c = 2 * e_pos(p, i) + 1;
        if c < n {
            add(&|e| e.entries.push((c, b"forged".to_vec())));
        }
        for to in (0..n).chain(past) {
            add(&|e| e.node_hashes[i].0 = to);
        }
    }
    // the root given away
    let root = root_of(&dvs(n as usize));
    add(&|e| e.node_hashes = vec![(0, root)]);
    add(&|e| {
        e.node_hashes = vec![(0, root)];
        e.node_value_hashes = vec![];
    });
}
fn e_pos(p: &DenseTreeProof, i: usize) -> u16 {
    p.node_hashes[i].0
}

fn bytes(ctx: &Ctx) {
    let mem = Mem::new();
    let t = tree(&mem, 3, 5);
    let p = DenseTreeProof::generate(&t, &[1, 4]).unwrap().unwrap();
    let b = p.encode_to_vec().unwrap();
    ctx.bound("decoding: all strings of up to 2 bytes, all truncations of an encoded proof, every byte of it changed to 16 values");
    let mut forms: BTreeSet<Vec<u8>> = BTreeSet::new();
    sequences_upto(256, 2, |s| {
        forms.insert(s.iter().map(|x| *x as u8).collect());
    });
    for i in 0..b.len() {
        forms.insert(b[..i].to_vec());
        for x in [0, 1, 2, 3, 5, 8, 31, 32, 33, 127, 250, 251, 252, 253, 254, 255] {
            let mut e = b.clone();
            e[i] = x;
            forms.insert(e);
        }
    }
    let vals = dvs(5);
    let root = root_of(&vals);
    for f in forms {
        ctx.case(
            || format!("decode {}", hex(&f)),
            || {
                if let Ok(q) = DenseTreeProof::decode_from_slice(&f) {
                    ctx.outcome("decoded");
                    let e = err(q.encode_to_vec(), "encode")?;
                    let q2 = err(DenseTreeProof::decode_from_slice(&e), "decode again")?;
                    ensure_eq!(format!("{q2:?}"), format!("{q:?}"), "round trip");
                    if let Ok(l) =
                        q.verify_against_expected_root::<Vec<(u16, Vec<u8>)>>(&root, 3, 5)
                    {
                        for (i, v) in l {
                            ensure!(vals.get(i as usize) == Some(&v), "position {i} forged");
                        }
                    }
                } else {
                    ctx.outcome("refused");
                }
                Ok(())
            },
        );
    }
}
