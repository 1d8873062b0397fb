//! C15, C16: the bulk append tree.
use std::collections::{BTreeMap, BTreeSet};

use grovedb_bulk_append_tree::{
    compute_state_root, deserialize_chunk_blob, leaf_count_to_mmr_size, serialize_chunk_blob,
    BulkAppendTree, BulkAppendTreeProof, DenseTreeProof,
};
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::{Query, QueryItem};
use kit::*;

use crate::{
    dense::{self, number_items, number_query, number_selected},
    mmr,
    mock::{Mem, M},
    query::show,
};

type H = [u8; 32];
type T<'a> = BulkAppendTree<M<'a>>;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C15",
            level: "model_checking",
            run: c15,
        },
        Spec {
            id: "C16",
            level: "exploration",
            run: c16,
        },
    ]
}

fn err<X, E: std::fmt::Display>(r: Result<X, E>, what: &str) -> Result<X, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

// ------------------------------------------------------------------- model

/// The documented chunk format.
fn blob(entries: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    if entries.is_empty() {
        return b;
    }
    let n = |x: usize| (x as u32).to_be_bytes();
    if entries.iter().all(|e| e.len() == entries[0].len()) {
        b.push(1);
        b.extend(n(entries.len()));
        b.extend(n(entries[0].len()));
        entries.iter().for_each(|e| b.extend(e));
    } else {
        b.push(0);
        for e in entries {
            b.extend(n(e.len()));
            b.extend(e);
        }
    }
    b
}

/// Independent reader of the two formats.
fn unblob(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = |b: &[u8]| Some(u32::from_be_bytes(b.get(..4)?.try_into().ok()?) as u64);
    match b.first() {
        None => Some(vec![]),
        Some(1) => {
            let (c, s) = (n(&b[1..])?, n(b.get(5..)?)?);
            let rest = &b[9..];
            if c > 1 << 20 || c * s != rest.len() as u64 {
                return None;
            }
            Some(
                (0..c as usize)
                    .map(|i| rest[i * s as usize..(i + 1) * s as usize].to_vec())
                    .collect(),
            )
        }
        Some(0) => {
            let (mut v, mut rest) = (vec![], &b[1..]);
            while !rest.is_empty() {
                let l = n(rest)? as usize;
                v.push(rest[4..].get(..l)?.to_vec());
                rest = &rest[4 + l..];
            }
            (v.len() <= 1 << 20).then_some(v)
        }
        _ => None,
    }
}

struct Model {
    h: u8,
    vals: Vec<Vec<u8>>,
}
impl Model {
    fn epoch(&self) -> usize {
        1 << self.h
    }
    fn chunks(&self) -> Vec<Vec<u8>> {
        self.vals.chunks_exact(self.epoch()).map(blob).collect()
    }
    fn buffer(&self) -> &[Vec<u8>] {
        &self.vals[self.vals.len() / self.epoch() * self.epoch()..]
    }
    fn mmr_root(&self) -> H {
        let l: Vec<H> = self.chunks().iter().map(|c| mmr::leaf_h(c)).collect();
        if l.is_empty() {
            [0; 32]
        } else {
            mmr::root_of(&l)
        }
    }
    fn root(&self) -> H {
        let m = self.mmr_root();
        let d = dense::root_of(self.buffer());
        *blake3::hash(&[b"bulk_state", &m[..], &d].concat()).as_bytes()
    }
}

/// The values of 1..2^height appends in a row have different lengths.
fn value(i: usize, same: bool) -> Vec<u8> {
    if same {
        vec![i as u8, (i >> 8) as u8]
    } else {
        vec![i as u8; [1, 0, 3, 1, 40][i % 5]]
    }
}

fn compare(ctx: &Ctx, t: &T, m: &Model) -> Res {
    let e = m.epoch() as u64;
    let n = m.vals.len() as u64;
    ensure_eq!(t.total_count, n, "total_count");
    ensure_eq!(t.height(), m.h, "height");
    ensure_eq!(t.capacity() as u64, e - 1, "capacity");
    ensure_eq!(t.epoch_size(), e, "epoch size");
    ensure_eq!(t.chunk_count(), n / e, "chunk count");
    ensure_eq!(t.buffer_count() as u64, n % e, "buffer count");
    ensure_eq!(t.mmr_size(), leaf_count_to_mmr_size(n / e), "mmr size");
    ensure_eq!(
        err(t.compute_current_state_root(), "state root")?,
        m.root(),
        "state root of {n} values"
    );
    let buf = m.buffer();
    for p in 0..e as u16 + 2 {
        ensure_eq!(
            err(t.get_buffer_value(p), "get_buffer_value")?,
            buf.get(p as usize).cloned(),
            "buffer value {p}"
        );
    }
    let chunks = m.chunks();
    for c in 0..n / e + 2 {
        ensure_eq!(
            err(t.get_chunk_value(c), "get_chunk_value")?,
            chunks.get(c as usize).cloned(),
            "chunk {c}"
        );
    }
    let q = number_query(&[QueryItem::RangeFull(..)]);
    let r = err(t.query_buffer(&q), "query_buffer")?;
    let want: Vec<(u16, Vec<u8>)> = (0u16..).zip(buf.iter().cloned()).collect();
    ensure_eq!(r.entries, want, "query_buffer");
    let (dr, de): (H, Vec<(u16, Vec<u8>)>) = err(
        r.proof.verify_for_query(&q, m.h, buf.len() as u16),
        "buffer proof",
    )?;
    ensure_eq!((dr, de), (dense::root_of(buf), want), "buffer proof");
    let idx: Vec<u64> = (0..n / e).collect();
    for set in [&idx[..], &idx[idx.len() / 2..], &idx[..idx.len().min(1)]] {
        let r = err(t.query_chunks(set), "query_chunks")?;
        let want: Vec<(u64, Vec<Vec<u8>>)> = set
            .iter()
            .map(|c| (*c, m.vals[(c * e) as usize..((c + 1) * e) as usize].to_vec()))
            .collect();
        ensure_eq!(r.chunks, want, "query_chunks");
        if !set.is_empty() {
            ensure_eq!(r.mmr_root, m.mmr_root(), "root of query_chunks");
            let p = MmrTreeProof::new(
                t.mmr_size(),
                set.iter().map(|c| (*c, chunks[*c as usize].clone())).collect(),
                r.mmr_proof_items,
            );
            err(p.verify(&m.mmr_root()), "proof of query_chunks")?;
        }
    }
    ensure!(t.query_chunks(&[n / e]).is_err(), "query of a chunk to come");
    let mut s = vec![m.h];
    s.extend(m.root());
    ctx.state(&s);
    Ok(())
}

// --------------------------------------------------------------------- C15

fn c15(ctx: &Ctx) {
    ctx.assume("blake3 is the specification of the hash, taken from the blake3 crate");
    ctx.assume("with deferred writes, commit_mmr is followed by the write of the batch");
    blobs(ctx);
    histories(ctx);
    schedules(ctx);
    faults(ctx);
    ctx.bound("construction: heights 0..=255, counts 0, 1, 2^16, 2^40; leaf_count_to_mmr_size below 2^16 and around powers of two");
    for h in 0..=255u8 {
        ctx.case(
            || format!("height {h}"),
            || {
                let mem = Mem::new();
                let ok = (1..=16).contains(&h);
                ensure_eq!(T::new(h, M(&mem)).is_ok(), ok, "new");
                for n in [0u64, 1, 1 << 16, (1 << 16) - 1, (1 << 40) + 3] {
                    let t = T::from_state(n, h, M(&mem));
                    ensure_eq!(t.is_ok(), ok, "from_state");
                    if let Ok(t) = t {
                        ensure_eq!(t.chunk_count(), n >> h, "chunks of {n}");
                        ensure_eq!(t.buffer_count() as u64, n % (1 << h), "buffer of {n}");
                    }
                }
                Ok(())
            },
        );
    }
    ctx.case(
        || "mmr sizes".into(),
        || {
            let mut ns: BTreeSet<u64> = (0..1 << 16).collect();
            for b in 16..63 {
                ns.extend((1u64 << b) - 3..(1u64 << b) + 3);
            }
            for n in ns {
                let want: u128 = (0..64)
                    .filter(|b| n >> b & 1 == 1)
                    .map(|b| (1u128 << (b + 1)) - 1)
                    .sum();
                ensure_eq!(leaf_count_to_mmr_size(n) as u128, want, "size of {n} leaves");
            }
            Ok(())
        },
    );
}

fn blobs(ctx: &Ctx) {
    let lens = [0usize, 1, 2, 5, 300];
    let k = ctx.pick(4, 5);
    ctx.bound(format!("chunk blobs: all lists of up to {k} entries with lengths {lens:?}, lists of 2^16 entries; decoding of all strings of up to 2 bytes, of headers with boundary counts and sizes, and of all truncations and one byte changes of blobs"));
    let mut forms: BTreeSet<Vec<u8>> = BTreeSet::new();
    sequences_upto(lens.len(), k, |s| {
        let es: Vec<Vec<u8>> = s
            .iter()
            .enumerate()
            .map(|(i, l)| vec![i as u8 + 1; lens[*l]])
            .collect();
        ctx.case(
            || format!("blob of lengths {:?}", s.iter().map(|l| lens[*l]).collect::<Vec<_>>()),
            || {
                let b = err(serialize_chunk_blob(&es), "serialize")?;
                ensure!(b == blob(&es), "blob {}", hex(&b[..b.len().min(60)]));
                ensure!(
                    err(deserialize_chunk_blob(&b), "deserialize")? == es,
                    "changed by a round trip"
                );
                Ok(())
            },
        );
        if s.len() <= 3 && s.iter().all(|l| *l < 3) {
            let b = blob(&es);
            for i in 0..=b.len() {
                forms.insert(b[..i].to_vec());
                if i < b.len() {
                    for x in [0, 1, 2, 3, 4, 16, 127, 128, 255] {
                        let mut e = b.clone();
                        e[i] = x;
                        forms.insert(e);
                    }
                }
                let mut e = b.clone();
                e.insert(i, 0);
                forms.insert(e);
            }
        }
    });
    let k = ctx.pick(9, 12);
    ctx.bound(format!("chunk blobs of up to {k} entries of one or two bytes, and of none or three"));
    for two in [[1usize, 2], [0, 3]] {
        sequences_upto(2, k, |s| {
            let es: Vec<Vec<u8>> = s.iter().map(|l| vec![9; two[*l]]).collect();
            ctx.case(
                || format!("blob of lengths {:?}", es.iter().map(Vec::len).collect::<Vec<_>>()),
                || {
                    let b = err(serialize_chunk_blob(&es), "serialize")?;
                    ensure!(b == blob(&es), "blob {}", hex(&b));
                    ensure_eq!(err(deserialize_chunk_blob(&b), "deserialize")?, es, "round trip");
                    Ok(())
                },
            );
        });
    }
    for (n, l) in [(65536usize, 0usize), (65536, 1), (65536, 33), (1 << 20, 0)] {
        for same in [true, false] {
            ctx.case(
                || format!("blob of {n} entries of {l} bytes, same={same}"),
                || {
                    let mut es = vec![vec![7; l]; n];
                    if !same {
                        es[n / 2].push(1);
                    }
                    let b = err(serialize_chunk_blob(&es), "serialize")?;
                    ensure!(b == blob(&es), "blob");
                    ensure!(err(deserialize_chunk_blob(&b), "read")? == es, "round trip");
                    Ok(())
                },
            );
        }
    }
    for same in [true, false] {
        ctx.case(
            || format!("blob of one entry too many, same={same}"),
            || {
                let mut b = if same {
                    [&[1u8][..], &((1u32 << 20) + 1).to_be_bytes(), &[0; 4]].concat()
                } else {
                    vec![0; 1 + (4 << 20) + 4]
                };
                ensure!(deserialize_chunk_blob(&b).is_err(), "2^20+1 entries are read");
                if !same {
                    b.truncate(1 + (4 << 20));
                    ensure_eq!(err(deserialize_chunk_blob(&b), "read")?.len(), 1 << 20, "entries");
                }
                Ok(())
            },
        );
    }
    sequences_upto(256, 2, |s| {
        forms.insert(s.iter().map(|x| *x as u8).collect());
    });
    let edge: Vec<u32> = vec![
        0, 1, 2, 3, 255, 256, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 31, u32::MAX,
    ];
    for a in &edge {
        for b in &edge {
            for tail in [0usize, 1, 2, 6] {
                let mut f = vec![1];
                f.extend(a.to_be_bytes());
                f.extend(b.to_be_bytes());
                f.extend(vec![5; tail]);
                forms.insert(f.clone());
                f[0] = 0;
                forms.insert(f);
            }
        }
    }
    ctx.alloc_limit
        .store(1 << 26, std::sync::atomic::Ordering::Relaxed);
    for f in forms {
        ctx.case(
            || format!("read blob {}", hex(&f)),
            || {
                let r = deserialize_chunk_blob(&f).ok();
                ctx.outcome(if r.is_some() { "blob read" } else { "blob refused" });
                ensure!(r == unblob(&f), "read as {r:?}");
                Ok(())
            },
        );
    }
    ctx.alloc_limit
        .store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
}

const OPS: [&str; 5] = ["append", "append4", "commit", "reopen", "append7"];

fn histories(ctx: &Ctx) {
    let len = ctx.pick(5, 7);
    ctx.bound(format!("every history of up to {len} operations out of {OPS:?} with heights 1, 2 and 3, immediate and deferred writes, values of equal and of different lengths"));
    let mut all = vec![];
    sequences_upto(OPS.len(), len, |s| all.push(s.to_vec()));
    ctx.par(&all, |ops| {
        for h in 1..=3u8 {
            for deferred in [false, true] {
                for same in [false, true] {
                    ctx.case(
                        || {
                            format!(
                                "h={h} deferred={deferred} same={same} {}",
                                ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(",")
                            )
                        },
                        || {
                            let mem = Mem::new();
                            mem.deferred.set(deferred);
                            let mut t = err(T::new(h, M(&mem)), "new")?;
                            let mut m = Model { h, vals: vec![] };
                            for &o in ops {
                                match OPS[o] {
                                    "commit" | "reopen" => {
                                        err(t.commit_mmr(), "commit_mmr")?;
                                        mem.flush();
                                        if OPS[o] == "reopen" {
                                            let n = m.vals.len() as u64;
                                            t = err(T::from_state(n, h, M(&mem)), "from_state")?;
                                        }
                                    }
                                    op => {
                                        let k = op.strip_prefix("append").unwrap();
                                        for _ in 0..k.parse().unwrap_or(1) {
                                            append(ctx, &mut t, &mut m, same)?;
                                        }
                                    }
                                }
                                compare(ctx, &t, &m)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn append(ctx: &Ctx, t: &mut T, m: &mut Model, same: bool) -> Res {
    let i = m.vals.len();
    let v = value(i, same);
    let r = err(t.append(&v), "append")?;
    m.vals.push(v);
    ctx.step();
    ensure_eq!(r.global_position, i as u64, "position");
    ensure_eq!(r.state_root, m.root(), "state root of append {i}");
    ensure_eq!(r.compacted, m.vals.len() % m.epoch() == 0, "compacted");
    let want = if r.compacted {
        // the leaf, its merges, the state root
        2 + (i / m.epoch()).trailing_ones()
    } else {
        2 * m.buffer().len() as u32 + 1
    };
    ensure_eq!(r.hash_count, want, "hash count of append {i}");
    Ok(())
}

/// Long runs with a commit after every k-th append.
fn schedules(ctx: &Ctx) {
    let n = ctx.pick(150, 700);
    ctx.bound(format!("{n} appends with heights 1..=5, committed and reopened after every 1, 2, 3, 5, 7, 8, 16 or no appends, immediate and deferred writes"));
    let mut jobs = vec![];
    for h in 1..=5u8 {
        for every in [1usize, 2, 3, 5, 7, 8, 16, 100000] {
            for deferred in [false, true] {
                jobs.push((h, every, deferred));
            }
        }
    }
    ctx.par(&jobs, |&(h, every, deferred)| {
        ctx.case(
            || format!("h={h} every={every} deferred={deferred}"),
            || {
                let mem = Mem::new();
                mem.deferred.set(deferred);
                let mut t = err(T::new(h, M(&mem)), "new")?;
                let mut m = Model { h, vals: vec![] };
                for i in 0..n {
                    append(ctx, &mut t, &mut m, i / 20 % 2 == 1)?;
                    if i % every == every - 1 {
                        err(t.commit_mmr(), "commit_mmr")?;
                        mem.flush();
                        if i % (2 * every) == every - 1 {
                            t = err(T::from_state(i as u64 + 1, h, M(&mem)), "from_state")?;
                        }
                    }
                }
                compare(ctx, &t, &m)
            },
        );
    });
}

/// One failing storage operation: an error, nothing changed, and it works
/// when repeated.
fn faults(ctx: &Ctx) {
    let total = ctx.pick(14usize, 22);
    ctx.bound(format!("every single failed read or write of an append at every count below {total} and of commit_mmr, heights 1 and 2, with the chunks committed up to any of them, then repeated"));
    let mut jobs = vec![];
    for h in 1..=2u8 {
        for n in 0..total {
            let e = 2usize << (h - 1);
            for at in (0..=n).filter(|at| *at == n || at % e == 0) {
                jobs.push((h, n, at));
            }
        }
    }
    ctx.par(&jobs, |&(h, n, at)| {
        for op in ["read", "write"] {
            for k in 0..40u64 {
                let mut hit = false;
                ctx.case(
                    || format!("fault: h={h} n={n} committed at {at} {op} {k} fails"),
                    || {
                        let mem = Mem::new();
                        let mut t = err(T::new(h, M(&mem)), "new")?;
                        let mut m = Model { h, vals: vec![] };
                        for i in 0..=n {
                            if i == at {
                                err(t.commit_mmr(), "commit")?;
                                t = err(T::from_state(i as u64, h, M(&mem)), "from_state")?;
                            }
                            if i < n {
                                append(ctx, &mut t, &mut m, false)?;
                            }
                        }
                        let c = if op == "read" { &mem.fail_get } else { &mem.fail_put };
                        c.set(Some(k));
                        let met = || {
                            let met = c.get() == Some(0);
                            mem.heal();
                            met
                        };
                        match t.append(&value(n, false)) {
                            Ok(r) => {
                                m.vals.push(value(n, false));
                                ensure_eq!(r.state_root, m.root(), "state root");
                            }
                            Err(_) => {
                                hit = met();
                                ensure!(hit, "append failed without a fault");
                                compare(ctx, &t, &m).map_err(|e| format!("after a failed append: {e}"))?;
                                append(ctx, &mut t, &mut m, false).map_err(|e| format!("repeated: {e}"))?;
                            }
                        }
                        if t.commit_mmr().is_err() {
                            hit = met();
                            ensure!(hit, "commit_mmr failed without a fault");
                            compare(ctx, &t, &m).map_err(|e| format!("after a failed commit: {e}"))?;
                            err(t.commit_mmr(), "commit_mmr repeated")?;
                        }
                        mem.heal();
                        let t = err(T::from_state(n as u64 + 1, h, M(&mem)), "from_state")?;
                        compare(ctx, &t, &m).map_err(|e| format!("reopened: {e}"))
                    },
                );
                ctx.outcome(if hit { "fault met" } else { "no fault" });
                if !hit {
                    break;
                }
            }
        }
        if at > 0 {
            return;
        }
        // a value or node that is lost is noticed
        ctx.case(
            || format!("lost: h={h} n={n}"),
            || {
                let mem = Mem::new();
                let mut t = err(T::new(h, M(&mem)), "new")?;
                let mut m = Model { h, vals: vec![] };
                for _ in 0..n {
                    append(ctx, &mut t, &mut m, false)?;
                }
                err(t.commit_mmr(), "commit")?;
                let t = err(T::from_state(n as u64, h, M(&mem)), "from_state")?;
                let keys: Vec<Vec<u8>> = mem.data.borrow().keys().cloned().collect();
                for k in keys {
                    let v = mem.data.borrow_mut().remove(&k).unwrap();
                    if let Ok(r) = t.compute_current_state_root() {
                        ensure_eq!(r, m.root(), "root without {}", hex(&k));
                    }
                    for c in 0..t.chunk_count() {
                        if let Ok(v) = t.get_chunk_value(c) {
                            ensure_eq!(v, m.chunks().get(c as usize).cloned(), "chunk {c}");
                        }
                    }
                    mem.data.borrow_mut().insert(k, v);
                }
                Ok(())
            },
        );
    });
}

// --------------------------------------------------------------------- C16

fn c16(ctx: &Ctx) {
    ctx.assume("no two inputs of blake3 with the same hash are met");
    ctx.assume("height and total count are those of the tree (the verifier's caller takes them from the authenticated element)");
    ctx.alloc_limit
        .store(1 << 28, std::sync::atomic::Ordering::Relaxed);
    ctx.case(
        || "state root".into(),
        || {
            let (a, b) = ([3; 32], [4; 32]);
            let want: H = *blake3::hash(&[b"bulk_state", &a[..], &b].concat()).as_bytes();
            ensure_eq!(compute_state_root(&a, &b), want, "state root");
            Ok(())
        },
    );
    queries(ctx);
    cross(ctx);
    many(ctx);
    forged(ctx);
    sizes(ctx);
    large(ctx);
    bytes(ctx);
}

fn tree<'a>(mem: &'a Mem, h: u8, n: usize, commit: bool) -> (T<'a>, Model) {
    let mut t = T::new(h, M(mem)).unwrap();
    let mut m = Model { h, vals: vec![] };
    for i in 0..n {
        // all values differ
        let v = [&[i as u8][..], &value(i, i / (2 << h) % 2 == 1)].concat();
        t.append(&v).unwrap();
        m.vals.push(v);
    }
    if commit {
        t.commit_mmr().unwrap();
        t = T::from_state(n as u64, h, M(mem)).unwrap();
    }
    (t, m)
}

fn truth(m: &Model, items: &[QueryItem]) -> Vec<(u64, Vec<u8>)> {
    m.vals
        .iter()
        .enumerate()
        .filter(|(i, _)| items.iter().any(|q| number_selected(q, *i as u128)))
        .map(|(i, v)| (i as u64, v.clone()))
        .collect()
}

fn ends(x: u64) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if x < 256 {
        v.push(vec![x as u8]);
    }
    v.push(x.to_be_bytes().to_vec());
    v
}

fn queries(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 0), (1, 1), (1, 2), (1, 3), (1, 7), (2, 0), (2, 3), (2, 4), (2, 6), (2, 13), (15, 3), (16, 0), (16, 3)],
        vec![(1, 0), (1, 1), (1, 2), (1, 3), (1, 5), (1, 7), (1, 14), (1, 15), (2, 0), (2, 1), (2, 3), (2, 4), (2, 6), (2, 12), (2, 13), (2, 31), (3, 7), (3, 8), (3, 30), (8, 9), (15, 3), (16, 0), (16, 7)],
    );
    ctx.bound(format!("queries of one item of every kind with bounds 0..=count+1, 255, 2^32, 2^64-1 in one and eight bytes, and of two items with bounds up to 4: (height, count) {counts:?}; every proof is also checked against every other short query"));
    let mut jobs = vec![];
    for (h, n) in counts {
        for commit in [false, true] {
            jobs.push((h, n, commit));
        }
    }
    ctx.par(&jobs, |&(h, n, commit)| {
        let mem = Mem::new();
        let (t, m) = tree(&mem, h, n, commit);
        let root = m.root();
        let mut bs: Vec<Vec<u8>> = (0..=n as u64 + 1).flat_map(ends).collect();
        if n > 7 {
            bs = (0..=n as u64 + 1).map(|x| vec![x as u8]).collect();
        }
        for x in [255u64, 1 << 32, u64::MAX] {
            bs.extend(ends(x));
        }
        bs.push(vec![0, 1]);
        let mut qs: Vec<Vec<QueryItem>> = vec![vec![]];
        qs.extend(number_items(&bs).into_iter().map(|i| vec![i]));
        let two: Vec<Vec<u8>> = [0, 1, 2, 4].iter().map(|x| vec![*x]).collect();
        let two = number_items(&two);
        for a in &two {
            for b in &two {
                qs.push(vec![a.clone(), b.clone()]);
            }
        }
        let mut proofs: BTreeMap<Vec<u8>, BulkAppendTreeProof> = BTreeMap::new();
        for items in &qs {
            ctx.case(
                || {
                    format!(
                        "h={h} n={n} commit={commit} query {}",
                        items.iter().map(show).collect::<Vec<_>>().join(",")
                    )
                },
                || {
                    let q = number_query(items);
                    let want = truth(&m, items);
                    let p = err(BulkAppendTreeProof::generate(&q, &t), "generate")?;
                    let got: Vec<(u64, Vec<u8>)> = err(
                        p.verify_against_query(&root, h, n as u64, &q),
                        "verify_against_query",
                    )?;
                    ensure_eq!(got, want, "proved values");
                    let b = err(p.encode_to_vec(), "encode")?;
                    let p2 = err(BulkAppendTreeProof::decode_from_slice(&b), "decode")?;
                    ensure_eq!(format!("{p2:?}"), format!("{p:?}"), "decoded proof");
                    let mut other = root;
                    other[7] ^= 4;
                    ensure!(
                        p.verify_against_query::<Vec<_>>(&other, h, n as u64, &q).is_err()
                            && p.verify(&other, h, n as u64).is_err(),
                        "verifies against another root"
                    );
                    let r = err(p.verify(&root, h, n as u64), "verify")?;
                    ensure_eq!(r.total_count, n as u64, "total count");
                    // all that is known lies in the chunks and positions proved
                    let e = m.epoch() as u64;
                    let all = err(r.values_in_range(0, u64::MAX), "values_in_range")?;
                    for (i, v) in &all {
                        ensure_eq!(m.vals.get(*i as usize), Some(v), "value {i}");
                    }
                    for (i, v) in &want {
                        ensure!(all.contains(&(*i, v.clone())), "value {i} is missing");
                    }
                    for s in [0, 1, e - 1, e, e + 1, n as u64] {
                        for to in [0, 1, e, e + 1, 2 * e, n as u64, n as u64 + 1] {
                            let want: Vec<_> = all
                                .iter()
                                .filter(|(i, _)| s <= *i && *i < to)
                                .cloned()
                                .collect();
                            ensure_eq!(
                                err(r.values_in_range(s, to), "values_in_range")?,
                                want,
                                "values in {s}..{to}"
                            );
                        }
                    }
                    ctx.state(&b);
                    ctx.outcome(if want.is_empty() { "nothing selected" } else { "selected" });
                    Ok(())
                },
            );
            if let Ok(p) = BulkAppendTreeProof::generate(&number_query(items), &t) {
                proofs.insert(p.encode_to_vec().unwrap(), p);
            }
        }
        // a proof made for another question answers rightly or not at all
        if commit {
            return;
        }
        let short = number_items(&(0..=(n as u64 + 1).min(9)).map(|x| vec![x as u8]).collect::<Vec<_>>());
        for (b, p) in &proofs {
            ctx.case(
                || format!("h={h} n={n} proof {:x} for other queries", fnv(b)),
                || {
                    for i in &short {
                        let q = number_query(&[i.clone()]);
                        let r = p.verify_against_query::<Vec<(u64, Vec<u8>)>>(
                            &root, h, n as u64, &q,
                        );
                        ctx.step();
                        if let Ok(got) = r {
                            ensure_eq!(got, truth(&m, &[i.clone()]), "answer to {}", show(i));
                        }
                    }
                    Ok(())
                },
            );
        }
        for b in [vec![], vec![0; 9]] {
            for i in number_items(&[b]) {
                if matches!(i, QueryItem::RangeFull(..)) {
                    continue;
                }
                let q = number_query(&[i.clone()]);
                ctx.case(
                    || format!("h={h} n={n} malformed {}", show(&i)),
                    || {
                        ensure!(
                            BulkAppendTreeProof::generate(&q, &t).is_err(),
                            "proof for a malformed position"
                        );
                        for p in proofs.values() {
                            ensure!(
                                p.verify_against_query::<Vec<_>>(&root, h, n as u64, &q)
                                    .is_err(),
                                "malformed position verified"
                            );
                        }
                        Ok(())
                    },
                );
            }
        }
        ctx.case(
            || format!("h={h} n={n} subquery"),
            || {
                let mut q = number_query(&[QueryItem::RangeFull(..)]);
                q.set_subquery(Query::new());
                ensure!(BulkAppendTreeProof::generate(&q, &t).is_err(), "subquery");
                Ok(())
            },
        );
    });
}

/// Queries of up to `k` disjoint nonadjacent or adjacent ranges below `n`.
pub fn range_unions(n: u8, k: usize) -> Vec<Vec<(u8, u8)>> {
    fn go(from: u8, n: u8, k: usize, cur: &mut Vec<(u8, u8)>, out: &mut Vec<Vec<(u8, u8)>>) {
        out.push(cur.clone());
        if k == 0 {
            return;
        }
        for a in from..n {
            for b in a + 1..=n {
                cur.push((a, b));
                go(b, n, k - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

/// Every honest proof of some chunks and buffer entries against every query.
fn cross(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 4), (1, 5), (1, 7), (2, 3), (2, 7), (2, 11), (3, 5)],
        vec![(1, 4), (1, 5), (1, 7), (1, 9), (1, 10), (2, 3), (2, 7), (2, 8), (2, 10), (2, 11), (3, 5), (3, 7), (3, 13)],
    );
    let k = ctx.pick(2, 3);
    ctx.bound(format!("the proof of every set of chunks and buffer entries of trees {counts:?} against every query of up to {k} ranges, both as ranges and as inclusive ranges and keys"));
    ctx.par(&counts, |&(h, n)| {
        let mem = Mem::new();
        let (t, m) = tree(&mem, h, n, false);
        let root = m.root();
        let (e, c, b) = (m.epoch(), m.chunks().len(), m.buffer().len());
        let qs: Vec<Vec<QueryItem>> = range_unions(n as u8, k)
            .into_iter()
            .flat_map(|u| {
                let a: Vec<_> = u.iter().map(|(a, b)| QueryItem::Range(vec![*a]..vec![*b])).collect();
                let i: Vec<_> = u
                    .iter()
                    .map(|(a, b)| match b - a {
                        1 => QueryItem::Key(vec![*a]),
                        _ => QueryItem::RangeInclusive(vec![*a]..=vec![*b - 1]),
                    })
                    .collect();
                [a, i]
            })
            .collect();
        for set in 0u32..1 << (c + b) {
            let shown: Vec<usize> = (0..n)
                .filter(|i| set >> (if i / e < c { i / e } else { c + i - c * e }) & 1 == 1)
                .collect();
            // one key per chunk is enough to ask for it
            let ask: Vec<QueryItem> = shown
                .iter()
                .filter(|i| **i >= c * e || **i % e == set as usize % e)
                .map(|i| QueryItem::Key(vec![*i as u8]))
                .collect();
            ctx.case(
                || format!("h={h} n={n} proof of {shown:?}"),
                || {
                    let p = err(BulkAppendTreeProof::generate(&number_query(&ask), &t), "generate")?;
                    for q in &qs {
                        ctx.step();
                        let want = truth(&m, q);
                        let there = want.iter().all(|(i, _)| shown.contains(&(*i as usize)));
                        let got = p.verify_against_query::<Vec<(u64, Vec<u8>)>>(&root, h, n as u64, &number_query(q));
                        match got {
                            Ok(g) => ensure_eq!(g, want, "answer to {:?}", q.iter().map(show).collect::<Vec<_>>()),
                            Err(e) => ensure!(!there, "{:?} refused: {e}", q.iter().map(show).collect::<Vec<_>>()),
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

/// Edits of honest proofs by somebody who knows the whole tree.
/// Large trees: queries that need many chunks and many buffer entries.
fn many(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 91), (2, 127), (3, 700), (5, 62), (6, 150), (8, 400), (9, 420), (9, 520)],
        vec![(1, 91), (1, 120), (1, 511), (2, 127), (2, 1000), (3, 119), (3, 700), (4, 65), (5, 62), (5, 1500), (6, 126), (6, 150), (7, 270), (8, 400), (8, 520), (9, 420), (9, 520), (10, 1500)],
    );
    ctx.bound(format!("large trees, the full query, halves, and every k-th value or run of values: (height, count) {counts:?}"));
    let mut jobs = vec![];
    for (h, n) in counts {
        for commit in [false, true] {
            jobs.push((h, n, commit));
        }
    }
    ctx.par(&jobs, |&(h, n, commit)| {
        let mem = Mem::new();
        let (t, m) = tree(&mem, h, n, commit);
        let root = m.root();
        let num = |x: usize| (x as u16).to_be_bytes().to_vec();
        let mut qs: Vec<Vec<QueryItem>> = vec![
            vec![QueryItem::RangeFull(..)],
            vec![QueryItem::RangeFrom(num(n / 2)..)],
            vec![QueryItem::RangeTo(..num(n / 2))],
            vec![QueryItem::RangeAfter(num(n / 3)..)],
            vec![QueryItem::RangeInclusive(num(n / 3)..=num(2 * n / 3))],
        ];
        for k in [2, 3, 5, m.epoch(), 2 * m.epoch()] {
            for o in [0, 1] {
                qs.push((o..n).step_by(k).map(|i| QueryItem::Key(num(i))).collect());
                qs.push(
                    (o..n).step_by(2 * k).map(|i| QueryItem::Range(num(i)..num(i + k))).collect(),
                );
            }
        }
        for (i, items) in qs.iter().enumerate() {
            ctx.case(
                || format!("h={h} n={n} commit={commit} large query {i}"),
                || {
                    let q = number_query(items);
                    let p = err(BulkAppendTreeProof::generate(&q, &t), "generate")?;
                    let b = err(p.encode_to_vec(), "encode")?;
                    let p = err(BulkAppendTreeProof::decode_from_slice(&b), "decode")?;
                    let want = truth(&m, items);
                    let got: Vec<(u64, Vec<u8>)> =
                        err(p.verify_against_query(&root, h, n as u64, &q), "verify_against_query")?;
                    ensure!(got == want, "{} values proved, not the {} asked for", got.len(), want.len());
                    let r = err(p.verify(&root, h, n as u64), "verify")?;
                    for (i, v) in &want {
                        let got = err(r.values_in_range(*i, *i + 1), "values_in_range")?;
                        ensure_eq!(got, vec![(*i, v.clone())], "value {i}");
                    }
                    let all = err(r.values_in_range(0, u64::MAX), "values_in_range")?;
                    for (i, v) in &all {
                        ensure!(m.vals.get(*i as usize) == Some(v), "value {i} is {}", hex(v));
                    }
                    // one value more is not answered
                    let known: BTreeMap<u64, &Vec<u8>> = all.iter().map(|(i, v)| (*i, v)).collect();
                    for i in (0..n).step_by(n / 40 + 1) {
                        let q = number_query(&[QueryItem::Key(num(i))]);
                        let g = p.verify_against_query::<Vec<(u64, Vec<u8>)>>(&root, h, n as u64, &q);
                        match g {
                            Ok(g) => ensure_eq!(g, vec![(i as u64, m.vals[i].clone())], "value {i}"),
                            Err(_) => ensure!(!known.contains_key(&(i as u64)), "value {i} refused"),
                        }
                    }
                    // values exchanged
                    let mut e = p.clone();
                    let k = e.buffer_proof.entries.len();
                    if k > 1 {
                        for j in [0, k / 2, k - 1] {
                            let was = e.buffer_proof.entries[j].1.clone();
                            e.buffer_proof.entries[j].1 = b"forged".to_vec();
                            ensure!(e.verify(&root, h, n as u64).is_err(), "a forged value verifies");
                            e.buffer_proof.entries[j].1 = was;
                            let (at, v) = e.buffer_proof.entries[j].clone();
                            e.buffer_proof.entries.push((at, b"forged".to_vec()));
                            ensure!(e.verify(&root, h, n as u64).is_err(), "a value given twice verifies");
                            e.buffer_proof.entries.pop();
                            e.buffer_proof.node_value_hashes.push((at, *blake3::hash(&v).as_bytes()));
                            e.buffer_proof.entries[j].1 = b"forged".to_vec();
                            ensure!(e.verify(&root, h, n as u64).is_err(), "a forged value verifies");
                            e.buffer_proof.node_value_hashes.pop();
                            e.buffer_proof.entries[j].1 = v;
                        }
                    }
                    let c = &p.chunk_proof;
                    let k = c.leaves().len();
                    for j in (0..k).step_by(k / 8 + 1) {
                        let mut l = c.leaves().to_vec();
                        l[j].1 = blob(&vec![b"forged".to_vec(); m.epoch()]);
                        let mut e = p.clone();
                        e.chunk_proof = MmrTreeProof::new(c.mmr_size(), l.clone(), c.proof_items().to_vec());
                        ensure!(e.verify(&root, h, n as u64).is_err(), "a forged chunk verifies");
                        let mut l2 = c.leaves().to_vec();
                        l2.push(l[j].clone());
                        e.chunk_proof = MmrTreeProof::new(c.mmr_size(), l2, c.proof_items().to_vec());
                        if let Ok(r) = e.verify(&root, h, n as u64) {
                            for (i, v) in err(r.values_in_range(0, u64::MAX), "values_in_range")? {
                                ensure!(m.vals.get(i as usize) == Some(&v), "value {i} is {}", hex(&v));
                            }
                        }
                    }
                    ctx.state(&b);
                    Ok(())
                },
            );
        }
    });
}

fn forged(ctx: &Ctx) {
    let counts: Vec<(u8, usize)> = ctx.pick(
        vec![(1, 1), (1, 2), (1, 3), (1, 6), (1, 7), (1, 15), (2, 3), (2, 6), (2, 14)],
        (1..=2u8).flat_map(|h| (1..20).map(move |n| (h, n))).chain([(1, 23), (2, 31), (3, 7), (3, 21), (3, 30)]).collect(),
    );
    ctx.bound(format!("edited proofs of every query for one position and of the full one, {counts:?}: chunk leaves and buffer entries removed, repeated, renumbered, replaced by every other chunk's or value's bytes and by a cut, extended or forged blob, hashes removed, repeated, replaced by any node; parts of proofs of other counts; wrong heights and counts"));
    ctx.par(&counts, |&(h, n)| {
        let mem = Mem::new();
        let (t, m) = tree(&mem, h, n, false);
        let root = m.root();
        let chunks = m.chunks();
        let leaf: Vec<H> = chunks.iter().map(|c| mmr::leaf_h(c)).collect();
        let mut pool: Vec<H> = mmr::model(&leaf).0;
        pool.push(m.mmr_root());
        pool.extend(dense::subtree_hashes(m.buffer()));
        let mut qs: Vec<Vec<QueryItem>> = (0..n as u8).map(|i| vec![QueryItem::Key(vec![i])]).collect();
        qs.push(vec![QueryItem::RangeFull(..)]);
        let ask: Vec<Vec<QueryItem>> = qs.clone();
        for items in &qs {
            ctx.case(
                || format!("edits h={h} n={n} {}", items.iter().map(show).collect::<Vec<_>>().join(",")),
                || {
                    let p = err(
                        BulkAppendTreeProof::generate(&number_query(items), &t),
                        "generate",
                    )?;
                    let mut forms: Vec<BulkAppendTreeProof> = vec![];
                    let c = &p.chunk_proof;
                    let mut chunk = |l: Vec<(u64, Vec<u8>)>, i: Vec<H>| {
                        let mut e = p.clone();
                        e.chunk_proof = MmrTreeProof::new(c.mmr_size(), l, i);
                        forms.push(e);
                    };
                    let (ls, is) = (c.leaves().to_vec(), c.proof_items().to_vec());
                    for k in 0..ls.len() {
                        let with = |x: (u64, Vec<u8>)| {
                            let mut l = ls.clone();
                            l[k] = x;
                            l
                        };
                        let mut l = ls.clone();
                        l.remove(k);
                        chunk(l, is.clone());
                        let b = &ls[k].1;
                        let mut forged = vec![
                            vec![],
                            b[..b.len() - 1].to_vec(),
                            [&b[..], &[0]].concat(),
                            blob(&vec![b"forged".to_vec(); m.epoch()]),
                            blob(&vec![b"forged".to_vec(); m.epoch() + 1]),
                        ];
                        forged.extend(chunks.iter().cloned());
                        for f in forged {
                            chunk(with((ls[k].0, f.clone())), is.clone());
                            let mut l = ls.clone();
                            l.push((ls[k].0, f.clone()));
                            chunk(l.clone(), is.clone());
                            l.rotate_right(1);
                            chunk(l, is.clone());
                            for j in 0..chunks.len() as u64 + 1 {
                                chunk(with((j, f.clone())), is.clone());
                                if !is.is_empty() {
                                    chunk(with((j, f.clone())), is[1..].to_vec());
                                    chunk(with((j, f.clone())), is[..is.len() - 1].to_vec());
                                }
                                for x in &pool {
                                    chunk(with((j, f.clone())), vec![*x]);
                                }
                            }
                        }
                    }
                    for k in 0..=is.len() {
                        for x in &pool {
                            let mut i = is.clone();
                            i.insert(k, *x);
                            chunk(ls.clone(), i.clone());
                            if k < is.len() {
                                i.remove(k + 1);
                                chunk(ls.clone(), i);
                            }
                        }
                    }
                    for s in [0, 1, 3, 4, 7, c.mmr_size() + 1, u64::MAX] {
                        let mut e = p.clone();
                        e.chunk_proof = MmrTreeProof::new(s, ls.clone(), is.clone());
                        forms.push(e);
                    }
                    let b = &p.buffer_proof;
                    for k in 0..b.entries.len() {
                        for v in 0..n + 1 {
                            let mut e = p.clone();
                            e.buffer_proof.entries[k].1 =
                                m.vals.get(v).cloned().unwrap_or(b"forged".to_vec());
                            forms.push(e.clone());
                            e.buffer_proof.entries[k].0 = v as u16;
                            forms.push(e);
                        }
                        let mut e = p.clone();
                        e.buffer_proof.entries.remove(k);
                        forms.push(e);
                    }
                    let mut e = p.clone();
                    e.buffer_proof = DenseTreeProof {
                        entries: vec![],
                        node_value_hashes: vec![],
                        node_hashes: vec![(0, dense::root_of(m.buffer()))],
                    };
                    forms.push(e.clone());
                    e.buffer_proof.entries.push((0, b"forged".to_vec()));
                    forms.push(e.clone());
                    e.buffer_proof.entries[0].0 = 1;
                    forms.push(e.clone());
                    e.buffer_proof.node_hashes.clear();
                    forms.push(e);
                    for f in &forms {
                        ctx.step();
                        if let Ok(r) = f.verify(&root, h, n as u64) {
                            let all = r.values_in_range(0, u64::MAX);
                            for (i, v) in err(all, "values_in_range")? {
                                ensure!(
                                    m.vals.get(i as usize) == Some(&v),
                                    "value {i} proved as {} by {f:?}",
                                    hex(&v)
                                );
                            }
                        }
                        for a in &ask {
                            if let Ok(got) = f.verify_against_query::<Vec<(u64, Vec<u8>)>>(
                                &root,
                                h,
                                n as u64,
                                &number_query(a),
                            ) {
                                ensure_eq!(got, truth(&m, a), "answer to {} by {f:?}", show(&a[0]));
                            }
                        }
                    }
                    // what the element does not say is refused or harmless
                    for h2 in [0u8, 1, 2, 3, 16, 17, 255] {
                        for n2 in [0u64, n as u64 - 1, n as u64 + 1, 1 << 40, u64::MAX] {
                            let r = p.verify(&root, h2, n2);
                            ensure!(r.is_err() || (1..=16).contains(&h2), "height {h2}");
                            let _ = p.verify_against_query::<Vec<_>>(&root, h2, n2, &number_query(items));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

/// Proofs that claim another number of chunks: the nodes of one MMR can be
/// those of a smaller or larger one.
fn sizes(ctx: &Ctx) {
    let (counts, items) = ctx.pick((vec![4usize, 5, 6, 7, 8, 9, 10], 2), (vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], 3));
    ctx.bound(format!("forged sizes: height 1, {counts:?} values, every claimed number of chunks up to two more, one claimed chunk with any index and the bytes of any chunk or two inner nodes, with every sequence of up to {items} hashes of the tree"));
    let mut jobs = vec![];
    for n in counts {
        for claim in 0..=n / 2 + 2 {
            jobs.push((n, claim));
        }
    }
    ctx.par(&jobs, |&(n, claim)| {
        let mem = Mem::new();
        let (t, m) = tree(&mem, 1, n, false);
        let root = m.root();
        let chunks = m.chunks();
        let leaf: Vec<H> = chunks.iter().map(|c| mmr::leaf_h(c)).collect();
        let (nodes, peaks) = mmr::model(&leaf);
        let mut pool: BTreeSet<H> = nodes.iter().copied().collect();
        for a in 0..peaks.len() {
            pool.insert(mmr::bag(&peaks[a..]));
            pool.insert(mmr::bag(&peaks[..=a]));
        }
        let pool: Vec<H> = pool.into_iter().collect();
        let full = BulkAppendTreeProof::generate(&number_query(&[QueryItem::RangeFull(..)]), &t).unwrap();
        let mut blobs = chunks.clone();
        blobs.push([&[1u8][..], &leaf[0], &leaf[leaf.len() - 1]].concat());
        let size = leaf_count_to_mmr_size(claim as u64);
        ctx.case(
            || format!("n={n} claiming {claim} chunks"),
            || {
                for (b, i) in blobs.iter().flat_map(|b| (0..=claim as u64).map(move |i| (b, i))) {
                    let mut bad = None;
                    mmr::each(pool.len(), items, &mut |s| {
                        let hs = s.iter().map(|x| pool[*x]).collect();
                        let mut p = full.clone();
                        p.chunk_proof = MmrTreeProof::new(size, vec![(i, b.clone())], hs);
                        ctx.step();
                        if p.verify(&root, 1, n as u64).is_ok() && chunks.get(i as usize) != Some(b) {
                            bad = Some(s.to_vec());
                        }
                        let q = number_query(&[QueryItem::Key(vec![2 * i as u8])]);
                        if let Ok(got) = p.verify_against_query::<Vec<(u64, Vec<u8>)>>(&root, 1, n as u64, &q) {
                            if got != truth(&m, &q.items) {
                                bad = Some(s.to_vec());
                            }
                        }
                    });
                    if let Some(s) = bad {
                        return Err(format!("chunk {i} is proved to be {} with the hashes {s:?}", hex(b)));
                    }
                }
                ctx.state(format!("{n} {claim}").as_bytes());
                Ok(())
            },
        );
    });
}

/// Proofs of large values.
fn large(ctx: &Ctx) {
    let mb = ctx.pick(12usize, 90);
    ctx.bound(format!("a value of {mb} MiB in a chunk and in the buffer, proved, encoded and decoded"));
    let before = ctx.alloc_limit.swap(1 << 33, std::sync::atomic::Ordering::Relaxed);
    for n in [1usize, 2, 3] {
        ctx.case(
            || format!("{n} values, the last but one of {mb} MiB"),
            || {
                let mem = Mem::new();
                let mut t = err(T::new(1, M(&mem)), "new")?;
                let mut m = Model { h: 1, vals: vec![] };
                for i in 0..n {
                    let v = vec![i as u8 + 1; if i + 2 >= n && i < 2 { (mb << 20) / 2 } else { 3 }];
                    err(t.append(&v), "append")?;
                    m.vals.push(v);
                }
                let q = number_query(&[QueryItem::RangeFull(..)]);
                let p = err(BulkAppendTreeProof::generate(&q, &t), "generate")?;
                let b = err(p.encode_to_vec(), "encode")?;
                let p = err(BulkAppendTreeProof::decode_from_slice(&b), "decode")?;
                let got: Vec<(u64, Vec<u8>)> =
                    err(p.verify_against_query(&m.root(), 1, n as u64, &q), "verify")?;
                ensure!(got == truth(&m, &q.items), "values");
                Ok(())
            },
        );
    }
    ctx.alloc_limit.store(before, std::sync::atomic::Ordering::Relaxed);
}

fn bytes(ctx: &Ctx) {
    ctx.bound("decoding: all strings of up to 2 bytes, all truncations of two encoded proofs, every byte of them changed to 16 values");
    for (h, n) in [(1u8, 5usize), (2, 7)] {
        let mem = Mem::new();
        let (t, m) = tree(&mem, h, n, false);
        let q = number_query(&[QueryItem::RangeFrom(vec![2]..)]);
        let b = BulkAppendTreeProof::generate(&q, &t).unwrap().encode_to_vec().unwrap();
        let mut forms: BTreeSet<Vec<u8>> = BTreeSet::new();
        if h == 1 {
            sequences_upto(256, 2, |s| {
                forms.insert(s.iter().map(|x| *x as u8).collect());
            });
        }
        for i in 0..b.len() {
            forms.insert(b[..i].to_vec());
            for x in [0, 1, 2, 3, 5, 8, 31, 32, 33, 127, 250, 251, 252, 253, 254, 255] {
                let mut e = b.clone();
                e[i] = x;
                forms.insert(e);
            }
        }
        let root = m.root();
        for f in forms {
            ctx.case(
                || format!("decode h={h} {}", hex(&f)),
                || {
                    let Ok(p) = BulkAppendTreeProof::decode_from_slice(&f) else {
                        ctx.outcome("refused");
                        return Ok(());
                    };
                    ctx.outcome("decoded");
                    let e = err(p.encode_to_vec(), "encode")?;
                    let p2 = err(BulkAppendTreeProof::decode_from_slice(&e), "decode again")?;
                    ensure_eq!(format!("{p2:?}"), format!("{p:?}"), "round trip");
                    if let Ok(got) =
                        p.verify_against_query::<Vec<(u64, Vec<u8>)>>(&root, h, n as u64, &q)
                    {
                        ensure_eq!(got, truth(&m, &q.items), "answer");
                    }
                    Ok(())
                },
            );
        }
    }
}
