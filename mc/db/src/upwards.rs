//! Deletions upwards, planned against operations that are still pending.
use grovedb::{
    batch::{QualifiedGroveDbOp as Q, SubelementsDeletionBehavior as S},
    operations::delete::{DeleteOptions, DeleteUpTreeOptions},
    Element, Error, MaybeTree,
};
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use kit::{ensure, ensure_eq, Ctx, Res};

use crate::{
    audit::Path,
    engine::{audit_model, initial, snap_bytes, Db, State},
    maps::{item, k, p},
    model::{join, v, Model, Op, B},
};

/// What planning gives.
#[derive(Debug, Clone, PartialEq)]
enum Plan {
    Ops(Vec<B>),
    Missing,
    NotEmpty,
    Root,
    Unsupported,
}

fn is_empty(m: &Model, full: &Path, pending: &[B]) -> bool {
    let kept = m.children(full).iter().any(|(key, _)| {
        !pending.iter().any(|o| match o {
            B::Delete(p, k) | B::DeleteTree(p, k, ..) => p == full && k == key,
            _ => false,
        })
    });
    let added = pending.iter().any(|o| o.put().is_some_and(|(p, ..)| p == full) || o.append().is_some_and(|(p, _)| p == full));
    let data = m.map[full].data.len();
    !kept && !added && data == 0
}

/// One level.
fn level(m: &Model, path: &Path, key: &[u8], pending: &[B], allow: bool, complain: bool) -> Result<Option<B>, Plan> {
    if path.is_empty() {
        return Err(Plan::Root);
    }
    let full = join(path, key);
    let Some(c) = m.map.get(&full) else {
        return Err(Plan::Missing);
    };
    let Some(t) = c.el.tree_type() else {
        return Ok(Some(B::Delete(path.clone(), key.to_vec())));
    };
    if is_empty(m, &full, pending) {
        return Ok(Some(B::DeleteTree(path.clone(), key.to_vec(), t, S::DontCheckWithNoCleanup)));
    }
    match (allow, complain) {
        (true, _) => Err(Plan::Unsupported),
        (_, true) => Err(Plan::NotEmpty),
        _ => Ok(None),
    }
}

fn plan(m: &Model, at: (&Path, &[u8]), pending: &[B], stop: Option<u16>, allow: bool, complain: bool) -> Plan {
    let (mut path, mut key) = (at.0.clone(), at.1.to_vec());
    let (mut all, mut out) = (pending.to_vec(), vec![]);
    while stop != Some(path.len() as u16) {
        let first = out.is_empty();
        match level(m, &path, &key, &all, allow && first, complain && first) {
            Err(e) => return e,
            Ok(None) => break,
            Ok(Some(o)) => {
                all.push(o.clone());
                out.push(o);
            }
        }
        key = path.pop().unwrap();
    }
    Plan::Ops(out)
}

fn class(e: &Error) -> Option<Plan> {
    Some(match e {
        Error::InvalidPath(_) => Plan::Root,
        Error::PathKeyNotFound(_) | Error::PathNotFound(_) | Error::PathParentLayerNotFound(_) => Plan::Missing,
        Error::DeletingNonEmptyTree(_) => Plan::NotEmpty,
        Error::NotSupported(_) => Plan::Unsupported,
        _ => return None,
    })
}

fn check(ctx: &Ctx, st: &State, db: &Db, tx: grovedb::TransactionArg, pending: &[B], path: &Path, key: &[u8]) -> Res {
    let m = &st.model;
    let real: Vec<Q> = pending.iter().map(B::real).collect();
    let known = m.map.get(&join(path, key)).map(|c| match c.el.tree_type() {
        Some(t) => MaybeTree::Tree(t),
        None => MaybeTree::NotTree,
    });
    for (allow, complain) in [(false, true), (false, false), (true, true), (true, false)] {
        let stops = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)];
        for stop in stops {
            let want = plan(m, (path, key), pending, stop, allow, complain);
            for (known, validate) in [(None, false), (None, true), (known, false)] {
                if known.is_some() && want == Plan::Missing {
                    continue;
                }
                ctx.step();
                let options = DeleteUpTreeOptions {
                    allow_deleting_non_empty_trees: allow,
                    deleting_non_empty_trees_returns_error: complain,
                    base_root_storage_is_free: true,
                    validate_tree_at_path_exists: validate,
                    stop_path_height: stop,
                };
                let got = db
                    .delete_operations_for_delete_up_tree_while_empty(
                        path.as_slice().into(),
                        key,
                        &options,
                        known,
                        real.clone(),
                        tx,
                        v(),
                    )
                    .unwrap();
                let what = || format!("stop {stop:?}, allow {allow}, complain {complain}, known {known:?}, validate {validate}");
                match (&got, &want) {
                    (Ok(g), Plan::Ops(w)) => {
                        let w: Vec<Q> = w.iter().map(B::real).collect();
                        ensure!(*g == w, "{}: {g:?}, not {w:?}", what());
                    }
                    (Err(e), w) => ensure!(class(e).as_ref() == Some(w), "{}: {e:?}, not {w:?}", what()),
                    (Ok(g), w) => ensure!(false, "{}: {g:?}, not {w:?}", what()),
                }
                // one level of it
                let options = DeleteOptions {
                    allow_deleting_non_empty_trees: allow,
                    deleting_non_empty_trees_returns_error: complain,
                    base_root_storage_is_free: true,
                    validate_tree_at_path_exists: validate,
                };
                if stop.is_none() {
                    let got = db
                        .delete_operation_for_delete_internal(path.as_slice().into(), key, &options, known, &real, tx, v())
                        .unwrap();
                    let want = level(m, path, key, pending, allow, complain);
                    match (&got, &want) {
                        (Ok(g), Ok(w)) => ensure_eq!(g, &w.as_ref().map(B::real), "one level, {}", what()),
                        (Err(e), Err(w)) => ensure!(class(e).as_ref() == Some(w), "one level, {}: {e:?}, not {w:?}", what()),
                        _ => ensure!(false, "one level, {}: {got:?}, not {want:?}", what()),
                    }
                }
            }
            match want {
                Plan::Ops(w) => ctx.outcome(["nothing", "one", "two", "three", "four"][w.len().min(4)]),
                _ => ctx.outcome("refused"),
            }
        }
    }
    Ok(())
}

/// Applying what was planned along with what was pending.
fn applied(st: &State, pending: &[B], planned: &[B]) -> Res {
    let mut m = st.model.clone();
    let all = [pending, planned].concat();
    let twice = planned.iter().any(|o| pending.iter().any(|q| q.at() == o.at()));
    // nothing is done inside a tree that goes
    let inside = |o: &B| {
        let at = o.at().unwrap_or_default();
        pending.iter().any(|q| matches!(q, B::DeleteTree(..)) && q.at().is_some_and(|q| q.len() < at.len() && at.starts_with(&q)))
    };
    if twice || planned.iter().any(inside) || m.batch(&st.audit, pending, 0) != crate::batches::Verdict::Done {
        return Ok(());
    }
    let gone: Vec<Path> = planned.iter().filter_map(B::at).collect();
    for g in &gone {
        if m.map.contains_key(g) {
            m.remove_deep(g);
        }
    }
    let db = Db::at(&st.snap);
    let first = Db::at(&st.snap).apply_batch(pending.iter().map(B::real).collect(), None, None, v()).unwrap();
    if pending.is_empty() || first.is_ok() {
        db.apply_batch(all.iter().map(B::real).collect(), None, None, v()).unwrap().map_err(|e| format!("applying the plan: {e:?}"))?;
        audit_model(&db.snap(), &m).map_err(|e| format!("after applying the plan: {e}"))?;
    }
    Ok(())
}

pub fn d22(ctx: &Ctx) {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let put = |path: &str, key: &str, e: Element| B::Put(p(path), k(key), e);
    let kinds = ctx.pick(4, 11);
    let mut covered = 0;
    for (i, outer) in crate::maps::trees().into_iter().enumerate().take(kinds) {
        let kind = outer.tree_type().unwrap();
        let m = || p("t/s/m");
        let (data, append) = match i % 4 {
            0 => (Element::empty_mmr_tree(), B::Mmr(m(), k("0"))),
            1 => (Element::empty_bulk_append_tree(1).unwrap(), B::Bulk(m(), k("0"))),
            2 => (Element::empty_dense_tree(2), B::Dense(m(), k("0"))),
            _ => (Element::empty_commitment_tree(1).unwrap(), B::Commit(m(), k("0"))),
        };
        let init = vec![
            ins("", "t", Element::empty_tree()),
            ins("t", "u", outer.clone()),
            ins("t/u", "x", item("x")),
            ins("t/u", "w", outer.clone()),
            ins("t/u/w", "y", item("y")),
            ins("t/u/w", "z", item("z")),
            ins("t", "s", outer.clone()),
            ins("t/s", "m", data.clone()),
            ins("t/s", "e", outer.clone()),
        ];
        let pending = vec![
            B::Delete(p("t/u"), k("x")),
            B::DeleteTree(p("t/u"), k("w"), kind, S::DeleteChildren),
            B::Delete(p("t/u/w"), k("z")),
            B::Delete(p("t/u/w"), k("y")),
            put("t/u", "n", item("n")),
            B::Replace(p("t/u/w"), k("z"), item("Z")),
            B::PutNew(p("t/s/e"), k("n"), item("n")),
            B::PutSkip(p("t/u/w"), k("i"), item("i")),
            append,
            B::DeleteTree(p("t/s"), k("m"), data.tree_type().unwrap(), S::Error),
            B::DeleteTree(p("t/s"), k("e"), kind, S::Error),
            B::DeleteTree(p("t"), k("u"), kind, S::DeleteChildren),
        ];
        let at: Vec<(&str, &str)> = vec![
            ("", "t"),
            ("t", "u"),
            ("t", "s"),
            ("t", "q"),
            ("t/u", "x"),
            ("t/u", "w"),
            ("t/u/w", "y"),
            ("t/u/w", "z"),
            ("t/s", "m"),
            ("t/s", "e"),
        ];
        let st = initial(&init).unwrap();
        ctx.state(&snap_bytes(&st.snap));
        let most = ctx.pick(4, 6);
        let masks: Vec<u32> = (0..1u32 << pending.len()).filter(|m| m.count_ones() <= most).collect();
        covered += masks.len();
        ctx.par(&masks, |mask| {
            let ops: Vec<B> = (0..pending.len()).filter(|i| mask >> i & 1 == 1).map(|i| pending[i].clone()).collect();
            let name = || format!("kind {i}; pending {}", Op::Batch(ops.clone()).show());
            let db = Db::at(&st.snap);
            let tx = db.start_transaction();
            let mut seen = vec![];
            for (path, key) in &at {
                for stop in (0..6).map(Some).chain([None]) {
                    match plan(&st.model, (&p(path), &k(key)), &ops, stop, false, true) {
                        Plan::Ops(w) if !w.is_empty() && !seen.contains(&w) => seen.push(w),
                        _ => {}
                    }
                }
                for t in [None, Some(&tx)] {
                    if t.is_none() && mask.count_ones() > 2 {
                        continue;
                    }
                    ctx.case(
                        || format!("{}; {path}/{key}, transaction {}", name(), t.is_some()),
                        || check(ctx, &st, &db, t, &ops, &p(path), &k(key)),
                    );
                }
            }
            ctx.case(
                || format!("{}; planning changed something", name()),
                || {
                    ensure!(db.snap() == st.snap, "planning changed what is stored");
                    Ok(())
                },
            );
            for w in &seen {
                ctx.state(format!("{mask} {w:?}").as_bytes());
                ctx.case(|| format!("{}; apply {}", name(), Op::Batch(w.clone()).show()), || applied(&st, &ops, w));
            }
        });
    }
    ctx.bound(format!("{covered} sets of up to {} of 12 pending operations over {kinds} kinds of trees; 10 keys; each stop height; every option", ctx.pick(4, 6)));
}
