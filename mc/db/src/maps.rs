//! D01-D03: the nested map, its authenticated structure, aggregates.
use grovedb::{reference_path::ReferencePathType as R, Element, GroveDb, TransactionArg};
use grovedb_path::SubtreePath;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

use crate::{
    audit::{show_path, Path},
    engine::{explore, Db, State, World},
    model::{join, no_root, v, Model, Op},
};

pub fn specs() -> Vec<Spec> {
    let s = |id, run| Spec {
        id,
        level: "model_checking",
        run,
    };
    vec![s("D01", d01), s("D02", d02), s("D03", d03), s("D07", d07), s("D17", d17)]
}

pub fn p(s: &str) -> Path {
    s.split('/')
        .filter(|s| !s.is_empty())
        .map(|s| s.as_bytes().to_vec())
        .collect()
}
pub fn k(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
pub fn item(s: &str) -> Element {
    Element::new_item(s.as_bytes().to_vec())
}

/// Every point read agrees with the model, for present and absent paths.
pub fn reads(st: &State) -> Res {
    let db = Db::at(&st.snap);
    reads_in(&db, &st.model, None)
}

/// The same, of a transaction.
pub fn reads_in(db: &GroveDb, m: &Model, tx: TransactionArg) -> Res {
    let vis = m.visible();
    let mut paths: Vec<Path> = vec![vec![]];
    paths.extend(vis.keys().cloned());
    let mut keys: Vec<Vec<u8>> = vis.keys().map(|p| p.last().unwrap().clone()).collect();
    keys.push(k("zz"));
    keys.sort();
    keys.dedup();
    for path in &paths {
        let is_tree = m.is_empty_tree(path);
        let e = db.is_empty_tree(path.as_slice(), tx, v()).unwrap();
        match (is_tree, &e) {
            (Some(a), Ok(b)) if a == *b => {}
            (None, Err(_)) => {}
            _ => return Err(format!("is_empty_tree({}) = {e:?}", show_path(path))),
        }
        let there = db.check_subtree_exists_invalid_path(path.as_slice().into(), tx, v()).unwrap();
        ensure!(
            there.is_ok() == is_tree.is_some(),
            "check_subtree_exists_invalid_path({}) = {there:?}",
            show_path(path)
        );
        for key in &keys {
            let full = join(path, key);
            if !path.is_empty() || vis.contains_key(&full) {
                data_reads(db, m, tx, &full)?;
            }
            let want = vis.get(&full);
            let raw = db
                .get_raw(path.as_slice().into(), key, tx, v())
                .unwrap()
                .map(|e| no_root(&e));
            ensure!(
                raw.as_ref().ok() == want,
                "get_raw({}) = {raw:?}, expected {want:?}",
                show_path(&full)
            );
            let want_get = match want {
                Some(Element::Reference(r, ..)) => crate::model::resolve(r, &full)
                    .and_then(|t| m.follow(&t))
                    .and_then(|t| vis.get(&t)),
                w => w,
            };
            for cache in [true, false] {
                let at: SubtreePath<_> = path.as_slice().into();
                let e = db
                    .get_raw_caching_optional(at.clone(), key, cache, tx, v())
                    .unwrap()
                    .map(|e| no_root(&e));
                ensure!(e.as_ref().ok() == raw.as_ref().ok(), "get_raw_caching_optional({}, {cache}) = {e:?}", show_path(&full));
                let e = db
                    .get_raw_optional_caching_optional(at.clone(), key, cache, tx, v())
                    .unwrap()
                    .map(|e| e.map(|e| no_root(&e)));
                ensure!(
                    e.as_ref().ok().and_then(|e| e.as_ref()) == want && (want.is_none() || e.is_ok()),
                    "get_raw_optional_caching_optional({}, {cache}) = {e:?}",
                    show_path(&full)
                );
                let end = m.follow(&full).and_then(|t| vis.get(&t));
                for (what, end, e) in [
                    ("get_caching_optional", want_get, db.get_caching_optional(at.clone(), key, cache, tx, v())),
                    ("follow_reference", end, db.follow_reference(full.as_slice().into(), cache, tx, v())),
                ] {
                    let e = e.unwrap().map(|e| no_root(&e));
                    ensure!(
                        e.as_ref().ok() == end,
                        "{what}({}, {cache}) = {e:?}, expected {end:?}",
                        show_path(&full)
                    );
                }
            }
            let opt = db
                .get_raw_optional(path.as_slice().into(), key, tx, v())
                .unwrap()
                .map(|e| e.map(|e| no_root(&e)));
            match (&opt, m.is_empty_tree(path)) {
                (Ok(o), Some(_)) => ensure_eq!(o.as_ref(), want, "get_raw_optional"),
                (Ok(Some(_)), None) => return Err(format!("get_raw_optional({}) found", show_path(&full))),
                (Err(e), Some(_)) => return Err(format!("get_raw_optional({}) = {e:?}", show_path(&full))),
                _ => {}
            }
            let got = db
                .get(path.as_slice(), key, tx, v())
                .unwrap()
                .map(|e| no_root(&e));
            ensure!(
                got.as_ref().ok() == want_get,
                "get({}) = {got:?}, expected {want_get:?}",
                show_path(&full)
            );
            if !m.map.get(path).is_some_and(|c| c.el.uses_non_merk_data_storage()) {
                let has = db.has_raw(path.as_slice(), key, tx, v()).unwrap();
                ensure!(
                    matches!(has, Ok(h) if h == want.is_some()),
                    "has_raw({}) = {has:?}",
                    show_path(&full)
                );
            }
        }
    }
    Ok(())
}


/// Reads of the data of one element.
fn data_reads(db: &GroveDb, m: &Model, tx: TransactionArg, full: &Path) -> Res {
    let g = v();
    let (key, front) = full.split_last().unwrap();
    let (path, key) = (front, key.as_slice());
    let cell = m.map.get(full);
    let d = cell.map(|c| c.data.as_slice()).unwrap_or(&[]);
    let n = d.len() as u64;
    let at = |i: u64| d.get(i as usize).cloned();
    let places = || (0..n + 3).chain([u16::MAX as u64, u64::MAX]);
    macro_rules! is {
        ($what:expr, $got:expr, $want:expr) => {
            let (got, want) = ($got.unwrap(), $want);
            ensure!(
                matches!(&got, Ok(g) if *g == want),
                "{} of {} gave {got:?}, expected {want:?}",
                $what,
                show_path(full)
            );
        };
    }
    let kind = cell.map(|c| &c.el);
    if let Some(e @ Element::MmrTree(..)) = kind {
        is!("mmr_tree_leaf_count", db.mmr_tree_leaf_count(path, key, tx, g), n);
        is!("mmr_tree_root_hash", db.mmr_tree_root_hash(path, key, tx, g), crate::model::root_of(e, d));
        for i in places() {
            is!(format!("mmr_tree_get_value {i}"), db.mmr_tree_get_value(path, key, i, tx, g), at(i));
        }
    } else {
        ensure!(
            db.mmr_tree_leaf_count(path, key, tx, g).unwrap().is_err()
                && db.mmr_tree_root_hash(path, key, tx, g).unwrap().is_err()
                && db.mmr_tree_get_value(path, key, 0, tx, g).unwrap().is_err(),
            "{} was read as an MMR",
            show_path(full)
        );
    }
    if let Some(Element::BulkAppendTree(_, power, _)) = kind {
        let size = 1usize << power;
        let chunks: Vec<&[Vec<u8>]> = d.chunks_exact(size).collect();
        is!("bulk_count", db.bulk_count(path, key, tx, g), n);
        is!("bulk_chunk_count", db.bulk_chunk_count(path, key, tx, g), chunks.len() as u64);
        is!("bulk_get_buffer", db.bulk_get_buffer(path, key, tx, g), d[chunks.len() * size..].to_vec());
        for i in places() {
            is!(format!("bulk_get_value {i}"), db.bulk_get_value(path, key, i, tx, g), at(i));
            let blob = chunks.get(i as usize).map(|c| crate::data::blob(c));
            is!(format!("bulk_get_chunk {i}"), db.bulk_get_chunk(path, key, i, tx, g), blob);
        }
    } else {
        ensure!(
            db.bulk_count(path, key, tx, g).unwrap().is_err()
                && db.bulk_chunk_count(path, key, tx, g).unwrap().is_err()
                && db.bulk_get_buffer(path, key, tx, g).unwrap().is_err()
                && db.bulk_get_value(path, key, 0, tx, g).unwrap().is_err()
                && db.bulk_get_chunk(path, key, 0, tx, g).unwrap().is_err(),
            "{} was read as a bulk append tree",
            show_path(full)
        );
    }
    if let Some(e @ Element::DenseAppendOnlyFixedSizeTree(..)) = kind {
        is!("dense_tree_count", db.dense_tree_count(path, key, tx, g), n as u16);
        is!("dense_tree_root_hash", db.dense_tree_root_hash(path, key, tx, g), crate::model::root_of(e, d));
        for i in (0..n as u16 + 3).chain([u16::MAX]) {
            is!(format!("dense_tree_get {i}"), db.dense_tree_get(path, key, i, tx, g), at(i as u64));
        }
    } else {
        ensure!(
            db.dense_tree_count(path, key, tx, g).unwrap().is_err()
                && db.dense_tree_root_hash(path, key, tx, g).unwrap().is_err()
                && db.dense_tree_get(path, key, 0, tx, g).unwrap().is_err(),
            "{} was read as a dense tree",
            show_path(full)
        );
    }
    if let Some(Element::CommitmentTree(..)) = kind {
        is!("commitment_tree_count", db.commitment_tree_count(path, key, tx, g), n);
        let anchor = db.commitment_tree_anchor(path, key, tx, g).map(|r| r.map(|a| a.to_bytes()));
        is!("commitment_tree_anchor", anchor, crate::model::anchor(d));
        for i in places() {
            is!(format!("commitment_tree_get_value {i}"), db.commitment_tree_get_value(path, key, i, tx, g), at(i));
        }
    } else {
        ensure!(
            db.commitment_tree_count(path, key, tx, g).unwrap().is_err()
                && db.commitment_tree_anchor(path, key, tx, g).unwrap().is_err()
                && db.commitment_tree_get_value(path, key, 0, tx, g).unwrap().is_err(),
            "{} was read as a commitment tree",
            show_path(full)
        );
    }
    Ok(())
}

fn go(ctx: &Ctx, name: &'static str, init: Vec<Op>, ops: Vec<Op>, depth: usize) {
    explore(
        ctx,
        &World {
            name,
            init,
            ops,
            depth,
            max_states: 200000,
        },
        &|s| reads(s),
    );
}

fn d01(ctx: &Ctx) {
    let mut ops = vec![];
    for path in ["", "a", "a/b"] {
        for key in ["a", "b"] {
            let (pp, kk) = (p(path), k(key));
            ops.push(Op::Insert(pp.clone(), kk.clone(), Element::empty_tree()));
            ops.push(Op::Insert(pp.clone(), kk.clone(), item("x")));
            ops.push(Op::InsertNew(pp.clone(), kk.clone(), item("y")));
            ops.push(Op::InsertIfNotExists(pp.clone(), kk.clone(), item("y")));
            ops.push(Op::InsertReturning(pp.clone(), kk.clone(), item("x")));
            ops.push(Op::InsertIfChanged(pp.clone(), kk.clone(), item("x")));
            ops.push(Op::Delete(pp.clone(), kk.clone()));
            ops.push(Op::DeleteDeep(pp.clone(), kk.clone()));
            ops.push(Op::DeleteIfEmpty(pp.clone(), kk.clone()));
            ops.push(Op::DeleteUp(pp.clone(), kk.clone(), None));
            ops.push(Op::DeleteUp(pp.clone(), kk.clone(), Some(0)));
            ops.push(Op::DeleteUp(pp.clone(), kk.clone(), Some(1)));
        }
        ops.push(Op::Clear(p(path)));
        ops.push(Op::ClearDeep(p(path)));
        ops.push(Op::ClearSoft(p(path)));
    }
    go(ctx, "nested", vec![], ops, ctx.pick(5, 7));
    // keys that are prefixes of each other, empty, long or full of 0xff
    let odd: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![0xff],
        vec![0xff; 255],
        vec![0xff; 256],
    ];
    let mut ops = vec![];
    for key in &odd {
        for path in [vec![], vec![odd[1].clone()], vec![vec![]]] {
            ops.push(Op::Insert(path.clone(), key.clone(), item("x")));
            ops.push(Op::Insert(path.clone(), key.clone(), Element::empty_tree()));
            ops.push(Op::InsertIfNotExists(path.clone(), key.clone(), item("x")));
            ops.push(Op::DeleteDeep(path.clone(), key.clone()));
        }
    }
    go(ctx, "odd keys", vec![], ops, ctx.pick(3, 4));
    // values of every length class and flags
    let mut ops = vec![];
    for key in ["a", "b"] {
        for len in [0usize, 1, 2, 250, 251, 252, 65536] {
            ops.push(Op::Insert(p("t"), k(key), Element::new_item(vec![7; len])));
            ops.push(Op::InsertIfChanged(
                p("t"),
                k(key),
                Element::new_item_with_flags(vec![7; len], Some(vec![1; len.min(3)])),
            ));
        }
        ops.push(Op::Delete(p("t"), k(key)));
    }
    ops.push(Op::Clear(p("t")));
    let init = vec![Op::Insert(
        vec![],
        k("t"),
        Element::empty_tree_with_flags(Some(vec![1, 2])),
    )];
    go(ctx, "values", init, ops, ctx.pick(3, 3));
}

fn d02(ctx: &Ctx) {
    // every shape that insertions and deletions can give a tree
    let names: Vec<String> = (0..ctx.pick(7, 9)).map(|i| format!("{i}")).collect();
    for (name, at) in [("shapes at the root", ""), ("shapes below", "t")] {
        let mut ops = vec![];
        for key in &names {
            ops.push(Op::Insert(p(at), k(key), item("x")));
            ops.push(Op::Delete(p(at), k(key)));
        }
        let init = if at.is_empty() {
            vec![]
        } else {
            vec![
                Op::Insert(vec![], k("t"), Element::empty_tree()),
                Op::Insert(vec![], k("u"), item("y")),
            ]
        };
        go(ctx, name, init, ops, 100);
    }
    // trees in trees: every path to the root is rehashed
    let mut ops = vec![];
    for (path, keys) in [("", ["s", "t"]), ("s", ["t", "u"]), ("s/t", ["u", "w"]), ("s/t/u", ["w", "x"]), ("t", ["s", "t"])] {
        for key in keys {
            ops.push(Op::Insert(p(path), k(key), Element::empty_tree()));
            ops.push(Op::Insert(p(path), k(key), item("1")));
            ops.push(Op::DeleteDeep(p(path), k(key)));
        }
    }
    go(ctx, "deep", vec![], ops, ctx.pick(5, 7));
}

pub fn trees() -> Vec<Element> {
    vec![
        Element::empty_tree(),
        Element::empty_sum_tree(),
        Element::empty_big_sum_tree(),
        Element::empty_count_tree(),
        Element::empty_count_sum_tree(),
        Element::empty_provable_count_tree(),
        Element::empty_provable_count_sum_tree(),
    ]
}

fn d03(ctx: &Ctx) {
    for (i, outer) in trees().into_iter().enumerate() {
        let mut ops = vec![];
        for inner in trees() {
            ops.push(Op::Insert(p("t"), k("b"), inner));
        }
        for (path, keys) in [("t", ["a", "c"]), ("t/b", ["a", "c"])] {
            for key in keys {
                ops.push(Op::Insert(p(path), k(key), item("x")));
                ops.push(Op::Insert(p(path), k(key), Element::new_sum_item(-3)));
                ops.push(Op::Insert(p(path), k(key), Element::new_item_with_sum_item(vec![1], 1 << 40)));
                ops.push(Op::Delete(p(path), k(key)));
            }
            ops.push(Op::Insert(p(path), k("r"), Element::new_reference(R::SiblingReference(k("a")))));
        }
        ops.push(Op::DeleteDeep(p("t"), k("b")));
        ops.push(Op::ClearDeep(p("t")));
        ops.push(Op::Clear(p("t/b")));
        let names = ["aggregates in tree", "aggregates in sum tree", "aggregates in big sum tree", "aggregates in count tree", "aggregates in count sum tree", "aggregates in provable count tree", "aggregates in provable count sum tree"];
        go(ctx, names[i], vec![Op::Insert(vec![], k("t"), outer)], ops, ctx.pick(4, 5));
    }
    // the extremes of the range
    for (name, outer) in [
        ("extreme sums", Element::empty_sum_tree()),
        ("extreme big sums", Element::empty_big_sum_tree()),
        ("extreme count sums", Element::empty_count_sum_tree()),
        ("extreme provable count sums", Element::empty_provable_count_sum_tree()),
    ] {
        let mut ops = vec![];
        for path in ["t", "t/b"] {
            for key in ["a", "c", "d"] {
                for s in [i64::MAX, i64::MIN, 1, -1] {
                    ops.push(Op::Insert(p(path), k(key), Element::new_sum_item(s)));
                }
                ops.push(Op::Delete(p(path), k(key)));
            }
        }
        ops.push(Op::Insert(p("t"), k("b"), Element::empty_sum_tree()));
        ops.push(Op::Insert(p("t"), k("b"), Element::empty_big_sum_tree()));
        ops.push(Op::DeleteDeep(p("t"), k("b")));
        go(ctx, name, vec![Op::Insert(vec![], k("t"), outer)], ops, ctx.pick(4, 5));
    }
}

fn d07(ctx: &Ctx) {
    let refs = vec![
        R::AbsolutePathReference(p("s/a")),
        R::AbsolutePathReference(p("t/b")),
        R::AbsolutePathReference(vec![]),
        R::UpstreamRootHeightReference(0, p("s/a")),
        R::UpstreamRootHeightReference(1, p("a")),
        R::UpstreamRootHeightReference(2, p("a")),
        R::UpstreamRootHeightWithParentPathAdditionReference(0, p("s")),
        R::UpstreamRootHeightWithParentPathAdditionReference(1, vec![]),
        R::UpstreamFromElementHeightReference(0, p("b")),
        R::UpstreamFromElementHeightReference(1, p("s/a")),
        R::UpstreamFromElementHeightReference(3, p("s/a")),
        R::CousinReference(k("s")),
        R::RemovedCousinReference(p("s")),
        R::RemovedCousinReference(p("t/t")),
        R::SiblingReference(k("a")),
        R::SiblingReference(k("b")),
        R::SiblingReference(k("c")),
    ];
    let mut ops = vec![];
    for (path, keys) in [("s", vec!["a"]), ("t", vec!["a", "b"]), ("t/t", vec!["a"])] {
        for key in keys {
            for r in &refs {
                ops.push(Op::Insert(p(path), k(key), Element::new_reference(r.clone())));
            }
            ops.push(Op::Insert(p(path), k(key), item("x")));
            ops.push(Op::Delete(p(path), k(key)));
        }
    }
    ops.push(Op::Insert(p("t"), k("b"), Element::empty_tree()));
    let init: Vec<Op> = vec![
        Op::Insert(vec![], k("s"), Element::empty_tree()),
        Op::Insert(vec![], k("t"), Element::empty_tree()),
        Op::Insert(p("t"), k("t"), Element::empty_tree()),
    ];
    go(ctx, "references", init, ops, ctx.pick(4, 5));
    // long chains
    let mut ops = vec![];
    for i in 0..12u8 {
        if i == 0 {
            ops.push(Op::Insert(p("s"), vec![0], item("x")));
        } else {
            ops.push(Op::Insert(
                p("s"),
                vec![i],
                Element::new_reference(R::SiblingReference(vec![i - 1])),
            ));
        }
    }
    ops.push(Op::Delete(p("s"), vec![0]));
    ops.push(Op::Delete(p("s"), vec![5]));
    ops.push(Op::Insert(p("s"), vec![5], item("y")));
    ops.push(Op::Insert(p("s"), vec![0], Element::new_reference(R::SiblingReference(vec![11]))));
    go(ctx, "chains", vec![Op::Insert(vec![], k("s"), Element::empty_tree())], ops, 100);
}

fn d17(ctx: &Ctx) {
    let mut ops = vec![];
    let kinds = [
        Element::empty_mmr_tree(),
        Element::empty_bulk_append_tree(1).unwrap(),
        Element::empty_dense_tree(2),
        Element::empty_commitment_tree(1).unwrap(),
        Element::empty_tree(),
    ];
    for (path, key) in [("t", "a"), ("t", "b"), ("", "c")] {
        for e in &kinds {
            ops.push(Op::Insert(p(path), k(key), e.clone()));
        }
        for x in ["1", "22"] {
            ops.push(Op::Mmr(p(path), k(key), k(x)));
            ops.push(Op::Bulk(p(path), k(key), k(x)));
            ops.push(Op::Dense(p(path), k(key), k(x)));
            ops.push(Op::Commit(p(path), k(key), k(x)));
        }
        ops.push(Op::Delete(p(path), k(key)));
        ops.push(Op::DeleteDeep(p(path), k(key)));
        ops.push(Op::Clear(join(&p(path), &k(key))));
    }
    ops.push(Op::Commit(vec![], k("c"), k("!")));
    ops.push(Op::Commit(vec![], k("c"), k("?")));
    ops.push(Op::DeleteDeep(vec![], k("t")));
    ops.push(Op::ClearDeep(p("t")));
    ops.push(Op::Clear(p("t")));
    go(ctx, "data trees", vec![Op::Insert(vec![], k("t"), Element::empty_tree())], ops, ctx.pick(6, 8));
}
