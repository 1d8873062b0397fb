//! Batches: all or nothing, and what their operations say, in any order.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::{
    batch::{BatchApplyOptions, SubelementsDeletionBehavior as S},
    reference_path::ReferencePathType as R,
    Element,
};
use grovedb_merk::{element::tree_type::ElementTreeTypeExtensions, tree_type::TreeType};
use kit::{ensure, Ctx, Res};

use crate::{
    audit::{value_hash, Audit, Path},
    engine::{audit_model, initial, snap_bytes, Db, State},
    maps::{item, k, p, trees},
    model::{join, norm, resolve, v, Cell, Model, Op, B},
};

/// What has to come of a batch.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Verdict {
    Done,
    Refused,
    /// either
    May,
    /// the caller breaks a documented promise
    Scope,
}
use Verdict::*;

impl B {
    pub fn put(&self) -> Option<(&Path, &Vec<u8>, &Element)> {
        match self {
            B::Put(p, k, e) | B::PutNew(p, k, e) | B::PutSkip(p, k, e) | B::Replace(p, k, e) | B::Patch(p, k, e) | B::Known(p, k, e) => {
                Some((p, k, e))
            }
            _ => None,
        }
    }
    pub fn at(&self) -> Option<Path> {
        match self {
            B::Delete(p, k) | B::DeleteTree(p, k, ..) | B::Refresh(p, k, ..) => Some(join(p, k)),
            _ => self.put().map(|(p, k, _)| join(p, k)),
        }
    }
    pub fn append(&self) -> Option<(&Path, Op)> {
        let none = || (vec![], vec![]);
        Some(match self {
            B::Mmr(p, x) => (p, Op::Mmr(none().0, none().1, x.clone())),
            B::Bulk(p, x) => (p, Op::Bulk(none().0, none().1, x.clone())),
            B::Dense(p, x) => (p, Op::Dense(none().0, none().1, x.clone())),
            B::Commit(p, x) => (p, Op::Commit(none().0, none().1, x.clone())),
            _ => return None,
        })
    }
}

impl Model {
    /// Applies a batch to the model.
    pub fn batch(&mut self, before: &Audit, ops: &[B], mode: u8) -> Verdict {
        let mut may = false;
        // conflicts
        let mut at: BTreeSet<Path> = BTreeSet::new();
        for o in ops {
            if let Some(a) = o.at() {
                if a.last().unwrap().len() > 255 || !at.insert(a) {
                    return Refused;
                }
            }
        }
        for (i, o) in ops.iter().enumerate() {
            if o.append().is_some() && ops[..i].iter().any(|q| q.show() == o.show()) {
                return Refused;
            }
        }
        let removed: BTreeSet<Path> = ops
            .iter()
            .filter(|o| matches!(o, B::Delete(..) | B::DeleteTree(..)))
            .map(|o| o.at().unwrap())
            .collect();
        let below_removed = |path: &[Vec<u8>]| (1..=path.len()).any(|n| removed.contains(&path[..n]));
        for o in ops {
            if o.put().is_some_and(|(p, ..)| below_removed(p)) || o.append().is_some_and(|(p, _)| below_removed(p)) {
                return Refused;
            }
        }
        let was = self.clone();
        // deletions
        let mut gone: Vec<Path> = vec![];
        for o in ops {
            let full = match o.at() {
                Some(f) => f,
                None => continue,
            };
            match o {
                B::Delete(..) => {
                    // nothing to delete: refused, or nothing happens
                    if !was.map.contains_key(&full) {
                        may = true;
                        if was.tree_kind(&full[..full.len() - 1]).is_none() {
                            return Refused;
                        }
                        continue;
                    }
                    if was.is_empty_tree(&full) == Some(false) {
                        return Scope;
                    }
                    gone.push(full);
                }
                B::DeleteTree(_, _, t, b) => {
                    let Some(c) = was.map.get(&full) else {
                        may = true;
                        continue;
                    };
                    if c.el.tree_type() != Some(*t) {
                        return Scope;
                    }
                    let left = was.children(&full).iter().any(|(k, _)| {
                        let q = join(&full, k);
                        !ops.iter().any(|o| {
                            o.at().as_ref() == Some(&q)
                                && match o {
                                    B::Delete(..) => true,
                                    B::DeleteTree(_, _, _, b) => *b != S::Skip,
                                    _ => false,
                                }
                        })
                    });
                    let full_data = !c.data.is_empty();
                    if left || full_data {
                        match b {
                            S::Error => return Refused,
                            S::Skip => continue,
                            S::DontCheckWithNoCleanup => return Scope,
                            S::DeleteChildren => {
                                // something below is changed as well
                                may |= removed.iter().any(|r| r.len() > full.len() && r.starts_with(&full));
                            }
                        }
                    }
                    gone.push(full);
                }
                _ => {}
            }
        }
        for g in &gone {
            self.remove_deep(g);
        }
        // insertions, outer ones first
        let mut puts: Vec<&B> = ops.iter().filter(|o| o.put().is_some()).collect();
        puts.sort_by_key(|o| o.put().unwrap().0.len());
        let mut fresh: BTreeMap<Path, Element> = BTreeMap::new();
        for o in puts {
            let (path, key, e) = o.put().unwrap();
            let full = join(path, key);
            if let Some(c) = was.map.get(&full) {
                match o {
                    B::PutNew(..) => return Refused,
                    _ if mode == 2 => return Refused,
                    B::PutSkip(..) => {
                        if self.tree_kind(path).is_none() {
                            return Refused;
                        }
                        continue;
                    }
                    B::Known(..) => return Scope,
                    _ => {}
                }
                if c.el.is_any_tree() {
                    if mode == 1 {
                        return Refused;
                    }
                    if was.is_empty_tree(&full) == Some(false) {
                        return Scope;
                    }
                }
            }
            let Some(kind) = self.tree_kind(path) else { return Refused };
            if matches!(e, Element::SumItem(..) | Element::ItemWithSumItem(..)) && !kind.sums() {
                return Refused;
            }
            self.map.insert(full.clone(), Cell { el: norm(e), data: vec![], target: None });
            fresh.insert(full, e.clone());
        }
        for o in ops {
            if let B::Refresh(path, key, r, trust) = o {
                let full = join(path, key);
                match was.map.get(&full).map(|c| &c.el) {
                    Some(Element::Reference(..)) if !trust => {}
                    Some(Element::Reference(q, h, f)) if q == r => {
                        if h.is_some() || f.is_some() {
                            return Scope;
                        }
                    }
                    _ if *trust => return Scope,
                    _ => return Refused,
                }
                let Some(e) = self.map.get(&full).map(|c| c.el.clone()) else { return Refused };
                fresh.insert(full, e);
            }
        }
        // references see the outcome
        for (full, e) in &fresh {
            let Element::Reference(r, hops, _) = e else { continue };
            let Some(t) = resolve(r, full) else { return Refused };
            let Some((t, n)) = self.chain(&t) else { return Refused };
            if hops.is_some_and(|h| n > h as usize) {
                return Refused;
            }
            may |= self.map[&t].el.is_any_tree();
            let hash = match fresh.get(&t) {
                Some(e) => Some(value_hash(&e.serialize(v()).unwrap())),
                None => before.raw.get(&t).map(|b| value_hash(b)),
            };
            self.map.get_mut(full).unwrap().target = hash;
        }
        for o in ops {
            if let Some((full, op)) = o.append() {
                if fresh.contains_key(full) {
                    may = true;
                }
                // it is there before the batch
                if was.map.get(full).is_none_or(|c| !c.el.is_any_tree()) {
                    may = true;
                }
                if self.append(full, &match_op(&op), &op).is_err() {
                    return Refused;
                }
            }
        }
        if self.aggregates().is_none() {
            return Refused;
        }
        if may {
            May
        } else {
            Done
        }
    }

    /// The end of a chain of references and the number of reads to get there.
    pub fn chain(&self, at: &Path) -> Option<(Path, usize)> {
        let mut at = at.clone();
        for n in 1..=crate::model::MAX_HOPS {
            match &self.map.get(&at)?.el {
                Element::Reference(r, ..) => at = resolve(r, &at)?,
                _ => return Some((at, n)),
            }
        }
        None
    }
}
fn match_op(o: &Op) -> Vec<u8> {
    match o {
        Op::Mmr(_, _, x) | Op::Bulk(_, _, x) | Op::Dense(_, _, x) | Op::Commit(_, _, x) => x.clone(),
        _ => unreachable!(),
    }
}

fn options(mode: u8, pause: Option<u8>) -> Option<BatchApplyOptions> {
    Some(BatchApplyOptions {
        validate_insertion_does_not_override_tree: mode == 1,
        validate_insertion_does_not_override: mode == 2,
        batch_pause_height: pause,
        ..Default::default()
    })
}

pub fn check_batch(ctx: &Ctx, st: &State, ops: &[B], mode: u8) -> Res {
    let mut model = st.model.clone();
    let verdict = model.batch(&st.audit, ops, mode);
    if verdict == Scope {
        return Ok(());
    }
    let db = Db::at(&st.snap);
    let real: Vec<_> = ops.iter().map(B::real).collect();
    let got = db.apply_batch(real.clone(), options(mode, None), None, v()).unwrap();
    let after = db.snap();
    match &got {
        Err(e) => {
            ctx.outcome("refused");
            ensure!(after == st.snap, "failed ({e:?}) but changed what is stored");
            ensure!(verdict != Done || model.partial_overflow(), "refused: {e:?}");
        }
        Ok(()) => {
            ctx.outcome("done");
            ensure!(verdict != Refused, "done, but has to be refused");
            let a = audit_model(&after, &model).map_err(|e| format!("after the batch: {e}"))?;
            let root = db.root_hash(None, v()).unwrap().map_err(|e| format!("root_hash: {e:?}"))?;
            ensure!(root == a.root_hash, "root_hash is not that of the contents");
        }
    }
    // in a transaction
    let db = Db::at(&st.snap);
    let tx = db.start_transaction();
    let got2 = db.apply_batch(real.clone(), options(mode, None), Some(&tx), v()).unwrap();
    ensure!(got2.is_ok() == got.is_ok(), "in a transaction it gave {got2:?}, without {got:?}");
    ensure!(db.snap() == st.snap, "an open transaction changed what is stored");
    if got2.is_ok() {
        db.commit_transaction(tx).unwrap().map_err(|e| format!("commit: {e:?}"))?;
        ensure!(db.snap() == after, "committing the transaction gives something else");
    }
    // a whole batch is not paused
    let db = Db::at(&st.snap);
    let got3 = db.apply_batch(real.clone(), options(mode, Some(1)), None, v()).unwrap();
    ensure!(got3.is_ok() == got.is_ok() && db.snap() == after, "applied whole with a pause height it gave {got3:?} (not {got:?}) or something else");
    // in parts: with a pause, and with some of the operations added at the pause
    let n = ops.len();
    for mask in 0..(1u32 << n) - 1 {
        if n > 2 && mask.count_ones() > 1 && !ctx.thorough {
            continue;
        }
        let part = |b: u32| -> Vec<_> { (0..n).filter(|i| mask >> i & 1 == b).map(|i| real[i].clone()).collect() };
        let (first, later) = (part(0), part(1));
        // the appends stay in order
        let kept = |b: u32| ops.iter().enumerate().filter(move |(i, o)| mask >> i & 1 == b && o.append().is_some()).map(|(i, _)| i);
        // whether to skip a deletion is decided before the pause
        let skips = mask != 0 && ops.iter().any(|o| matches!(o, B::DeleteTree(_, _, _, S::Skip)));
        if skips || !kept(0).chain(kept(1)).is_sorted() {
            continue;
        }
        let mut alone = None;
        for pause in [1u8, 2, 3] {
            let db = Db::at(&st.snap);
            let mut calls = 0;
            let got4 = db
                .apply_partial_batch(
                    first.clone(),
                    options(mode, Some(pause)),
                    |_, _| {
                        calls += 1;
                        Ok(later.clone())
                    },
                    None,
                    v(),
                )
                .unwrap();
            let what = || format!("paused at height {pause}, operations {mask:b} added there");
            ensure!(calls <= 1, "{}: {calls} calls", what());
            if got.is_ok() && got4.is_err() {
                // the first part may be refused for itself
                let refused = *alone.get_or_insert_with(|| {
                    Db::at(&st.snap).apply_batch(first.clone(), options(mode, None), None, v()).unwrap().is_err()
                });
                if refused {
                    ensure!(db.snap() == st.snap, "{}: {got4:?}, but something changed", what());
                    continue;
                }
            }
            ensure!(got4.is_ok() == got.is_ok(), "{}: {got4:?}, whole: {got:?}", what());
            ensure!(db.snap() == after, "{}: gives something else", what());
        }
    }
    Ok(())
}

pub struct W {
    pub name: String,
    pub init: Vec<Op>,
    pub ops: Vec<B>,
}

fn r(t: &str) -> Element {
    Element::new_reference(R::AbsolutePathReference(p(t)))
}

pub fn batch_worlds(t: bool) -> Vec<W> {
    let mut out = vec![];
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let put = |path: &str, key: &str, e: Element| B::Put(p(path), k(key), e);
    let tree = Element::empty_tree;
    let del = |path: &str, key: &str| B::Delete(p(path), k(key));
    let delt = |path: &str, key: &str, b| B::DeleteTree(p(path), k(key), TreeType::NormalTree, b);
    let nested = vec![
        ins("", "t", tree()),
        ins("", "e", tree()),
        ins("t", "a", item("a")),
        ins("t", "u", tree()),
        ins("t/u", "x", item("x")),
        ins("", "r", r("t/a")),
    ];
    out.push(W {
        name: "nested".into(),
        init: nested.clone(),
        ops: vec![
            put("t", "a", item("A")),
            put("t", "b", item("b")),
            put("t", "u", item("u")),
            put("t", "u", r("t/a")),
            put("t/u", "y", item("y")),
            put("t", "n", tree()),
            put("t/n", "a", item("na")),
            put("t/n", "m", tree()),
            put("t/n/m", "a", item("nma")),
            put("e", "i", item("i")),
            put("", "e", item("e")),
            B::PutNew(p("t"), k("a"), item("A")),
            B::PutNew(p("t"), k("b"), item("b")),
            B::PutNew(p("t"), k("u"), tree()),
            B::PutSkip(p("t"), k("a"), item("A")),
            B::PutSkip(p("t"), k("u"), tree()),
            B::PutSkip(p("t"), k("n"), tree()),
            B::Replace(p("t"), k("a"), item("B")),
            del("t", "a"),
            del("t", "zz"),
            del("t/u", "x"),
            delt("t", "u", S::Error),
            delt("t", "u", S::DeleteChildren),
            delt("t", "u", S::Skip),
            delt("", "t", S::DeleteChildren),
            delt("", "t", S::Error),
            delt("", "e", S::Error),
            delt("", "e", S::DontCheckWithNoCleanup),
        ],
    });
    out.push(W {
        name: "levels".into(),
        init: nested.clone(),
        ops: vec![
            put("", "n", tree()),
            put("n", "a", item("a")),
            put("n", "m", tree()),
            put("n/m", "x", item("x")),
            put("n/m", "c", Element::empty_count_tree()),
            put("n/m/c", "y", item("y")),
            put("t", "a", item("A")),
            put("t/u", "z", item("z")),
            put("", "s", r("n/m/x")),
            put("n", "q", r("t/u/z")),
            put("t/u", "r", r("n/a")),
            B::PutSkip(vec![], k("n"), tree()),
            B::PutSkip(vec![], k("t"), tree()),
            B::PutNew(p("n"), k("m"), tree()),
            del("", "r"),
            delt("", "e", S::Error),
            delt("t", "u", S::DeleteChildren),
        ],
    });
    out.push(W {
        name: "references".into(),
        init: [nested, vec![ins("t", "q", r("t/u/x"))]].concat(),
        ops: vec![
            put("t", "a", item("A")),
            put("t", "a", Element::new_item_with_flags(k("A"), Some(vec![1]))),
            put("t", "b", item("b")),
            put("", "s", r("t/a")),
            put("", "s", r("t/q")),
            put("t", "q", r("t/a")),
            put("t", "q", r("s")),
            put("t", "a", r("t/b")),
            put("t", "n", tree()),
            put("t/n", "a", item("na")),
            put("t", "k", r("t/n/a")),
            put("t", "k", Element::Reference(R::AbsolutePathReference(p("t/q")), Some(1), None)),
            put("t", "k", Element::Reference(R::AbsolutePathReference(p("t/q")), Some(2), None)),
            put("t", "k", Element::Reference(R::AbsolutePathReference(p("t/a")), Some(1), None)),
            B::PutNew(p("t"), k("b"), r("t/q")),
            B::PutSkip(p("t"), k("a"), item("A")),
            B::PutSkip(p("t"), k("q"), r("t/b")),
            B::PutSkip(p("t"), k("b"), item("bb")),
            B::Replace(p("t/u"), k("x"), item("X")),
            B::Patch(p("t/u"), k("x"), item("XX")),
            del("t", "a"),
            del("t/u", "x"),
            del("t", "q"),
            delt("t", "u", S::DeleteChildren),
            B::Refresh(vec![], k("r"), R::AbsolutePathReference(p("t/a")), false),
            B::Refresh(vec![], k("r"), R::AbsolutePathReference(p("t/a")), true),
            B::Refresh(p("t"), k("q"), R::AbsolutePathReference(p("t/u/x")), false),
            B::Refresh(p("t"), k("a"), R::AbsolutePathReference(p("t/u/x")), false),
        ],
    });
    for (i, outer) in trees().into_iter().enumerate() {
        let kind = outer.tree_type().unwrap();
        let name = format!("aggregates {i}");
        out.push(W {
            name,
            init: vec![
                ins("", "t", outer.clone()),
                ins("t", "i", item("i")),
                ins("t", "r", r("t/i")),
                ins("t", "s", Element::empty_sum_tree()),
                ins("t/s", "a", Element::new_sum_item(7)),
                ins("t", "c", Element::empty_count_tree()),
            ],
            ops: vec![
                put("t", "i", item("j")),
                put("t", "k", Element::new_sum_item(-3)),
                put("t", "k", Element::new_item_with_sum_item(vec![1], 1 << 40)),
                put("t/s", "a", Element::new_sum_item(8)),
                put("t/s", "b", item("b")),
                put("t/c", "a", item("c")),
                put("t", "n", outer.clone()),
                put("t/n", "a", item("na")),
                put("t/n", "s", Element::new_sum_item(5)),
                put("t", "n", Element::empty_provable_count_sum_tree()),
                put("t", "c", Element::empty_big_sum_tree()),
                put("t/c", "s", Element::new_sum_item(2)),
                put("t", "q", r("t/k")),
                del("t", "i"),
                del("t/s", "a"),
                del("t", "r"),
                B::DeleteTree(p("t"), k("s"), TreeType::SumTree, S::DeleteChildren),
                B::DeleteTree(p("t"), k("s"), TreeType::SumTree, S::Error),
                B::DeleteTree(p("t"), k("c"), TreeType::CountTree, S::Skip),
                B::DeleteTree(vec![], k("t"), kind, S::DeleteChildren),
                B::Refresh(p("t"), k("r"), R::AbsolutePathReference(p("t/i")), false),
                B::PutSkip(p("t"), k("s"), Element::empty_sum_tree()),
            ],
        });
    }
    let _ = t;
    let mmr = Element::empty_mmr_tree;
    let bulk = || Element::empty_bulk_append_tree(1).unwrap();
    let dense = || Element::empty_dense_tree(2);
    let com = || Element::empty_commitment_tree(1).unwrap();
    for (name, outer) in [("data", tree()), ("data in count sum tree", Element::empty_count_sum_tree())] {
        let kind = outer.tree_type().unwrap();
        out.push(W {
            name: name.into(),
            init: vec![
                ins("", "t", outer),
                ins("t", "m", Element::new_mmr_tree(0, Some(vec![9]))),
                ins("t", "b", bulk()),
                ins("t", "d", dense()),
                ins("t", "c", com()),
                ins("t", "e", mmr()),
                Op::Mmr(p("t"), k("m"), k("0")),
                Op::Bulk(p("t"), k("b"), k("0")),
                Op::Dense(p("t"), k("d"), k("0")),
                ins("t", "g", Element::new_commitment_tree(0, 1, Some(vec![9]))),
                Op::Commit(p("t"), k("g"), k("0")),
            ],
            ops: vec![
                B::Mmr(p("t/m"), k("1")),
                B::Mmr(p("t/m"), k("2")),
                B::Mmr(p("t/e"), k("1")),
                B::Bulk(p("t/b"), k("1")),
                B::Bulk(p("t/b"), k("2")),
                B::Dense(p("t/d"), k("1")),
                B::Dense(p("t/d"), k("2")),
                B::Dense(p("t/d"), k("3")),
                B::Commit(p("t/g"), k("1")),
                B::Commit(p("t/g"), k("2")),
                B::Commit(p("t/c"), k("1")),
                B::Commit(p("t/g"), k("!")),
                B::Commit(p("t/g"), k("?2")),
                B::Commit(p("t/b"), k("1")),
                B::Mmr(p("t/b"), k("1")),
                B::Bulk(p("t/n"), k("1")),
                put("t", "n", bulk()),
                put("t", "n", com()),
                put("t", "e", mmr()),
                put("t", "e", tree()),
                put("t", "k", item("k")),
                put("t", "q", r("t/k")),
                B::PutNew(p("t"), k("m"), mmr()),
                B::PutNew(p("t"), k("c"), com()),
                B::PutNew(p("t"), k("d"), dense()),
                B::PutSkip(p("t"), k("m"), mmr()),
                B::PutSkip(p("t"), k("b"), bulk()),
                B::PutSkip(p("t"), k("d"), dense()),
                B::PutSkip(p("t"), k("c"), com()),
                B::DeleteTree(p("t"), k("m"), TreeType::MmrTree, S::Error),
                B::DeleteTree(p("t"), k("m"), TreeType::MmrTree, S::DeleteChildren),
                B::DeleteTree(p("t"), k("b"), TreeType::BulkAppendTree(1), S::Skip),
                B::DeleteTree(p("t"), k("e"), TreeType::MmrTree, S::Error),
                B::DeleteTree(p("t"), k("g"), TreeType::CommitmentTree(1), S::DeleteChildren),
                put("t", "g", com()),
                B::PutNew(p("t"), k("g"), com()),
                B::DeleteTree(p("t"), k("d"), TreeType::DenseAppendOnlyFixedSizeTree(2), S::DeleteChildren),
                B::DeleteTree(vec![], k("t"), kind, S::DeleteChildren),
            ],
        });
    }
    out
}

pub fn d04(ctx: &Ctx) {
    let len = ctx.pick(3, 4);
    for w in batch_worlds(ctx.thorough) {
        let st = initial(&w.init).unwrap_or_else(|e| panic!("{}: {e}", w.name));
        ctx.state(&snap_bytes(&st.snap));
        ctx.bound(format!("{}: every sequence of up to {len} of {} operations as a batch, without protection, with trees and with all elements protected; each of them also in a transaction, and in parts: paused at heights 1 to 3, any of its operations (of three, one) added at the pause", w.name, w.ops.len()));
        let n = w.ops.len();
        let firsts: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        ctx.par(&firsts, |&(i, j)| {
            let try_one = |ids: &[usize]| {
                let ops: Vec<B> = ids.iter().map(|i| w.ops[*i].clone()).collect();
                for mode in [1, 0, 2] {
                    ctx.step();
                    ctx.case(
                        || format!("{}; {}{}", w.name, ["", "safe; ", "strict; "][mode as usize], Op::Batch(ops.clone()).show()),
                        || check_batch(ctx, &st, &ops, mode),
                    );
                }
            };
            if j == 0 {
                try_one(&[i]);
            }
            try_one(&[i, j]);
            if i == j {
                return;
            }
            let mut rest = vec![vec![i, j]];
            for _ in 2..len {
                let mut next = vec![];
                for s in &rest {
                    for x in (0..n).filter(|x| !s.contains(x)) {
                        let t = [s.clone(), vec![x]].concat();
                        try_one(&t);
                        next.push(t);
                    }
                }
                rest = next;
            }
        });
    }
}
