//! D14: the other ways of verifying a proof.
use std::{cell::RefCell, collections::BTreeSet};

use grovedb::{operations::proof::GroveDBProof, query_result_type::PathKeyOptionalElementTrio, Element, GroveDb, PathQuery, SizedQuery};
use grovedb_merk::{
    proofs::{query::QueryItem, Query},
    TreeFeatureType,
};
use grovedb_version::version::{v2::GROVE_V2, GroveVersion};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

use crate::{
    audit::{show_path, Hash, Path},
    engine::{initial, snap_bytes, Db, State},
    maps::k,
    model::{join, no_root, resolve, v},
    proofs::{expect, opt_rows, truth, Vis},
    queries::{self, bases, contains, item_sets, key, leaves, nested, query, show_rows, Eval, Flags, Row},
};

pub fn spec() -> Spec {
    Spec {
        id: "D14",
        level: "model_checking",
        run,
    }
}

fn versions() -> [(&'static str, &'static GroveVersion); 2] {
    [("v1", v()), ("v0", &GROVE_V2)]
}

struct W<'a> {
    st: &'a State,
    vis: &'a Vis,
    root: Hash,
}

fn sized(path: &Path, q: &Query, limit: Option<u16>) -> PathQuery {
    PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, None))
}

// ---------------------------------------------------------------- absence

/// What a key has to show: the element, references resolved, empty trees not.
fn shown(w: &W, path: &Path, key: &[u8]) -> Option<Element> {
    let at = join(path, key);
    let e = w.vis.get(&at)?;
    let e = match e {
        Element::Reference(r, ..) => {
            let at = resolve(r, &at).and_then(|t| w.st.model.follow(&t))?;
            w.vis[&at].clone()
        }
        e => e.clone(),
    };
    let own = w.vis.get(&at).unwrap();
    if matches!(own, Element::Tree(..)) && w.st.model.children(&at).is_empty() {
        return None;
    }
    Some(no_root(&e))
}

fn absence(w: &W, db: &Db, path: &Path, q: &Query, gv: &'static GroveVersion) -> Res {
    let mut keys = vec![];
    q.terminal_keys(path.clone(), 1000, &mut keys).map_err(|e| format!("terminal keys: {e}"))?;
    let n = keys.len() as u16;
    let want: Vec<_> = keys.iter().map(|(p, k)| (p.clone(), k.clone(), shown(w, p, k))).collect();
    for limit in [n - 1, n, n + 1] {
        if limit == 0 {
            continue;
        }
        let pq = sized(path, q, Some(limit));
        let proof = db.prove_query(&pq, None, gv).unwrap().map_err(|e| format!("prove_query: {e:?}"))?;
        for subset in [false, true] {
            let r = if subset {
                GroveDb::verify_subset_query_with_absence_proof(&proof, &pq, gv)
            } else {
                GroveDb::verify_query_with_absence_proof(&proof, &pq, gv)
            };
            let what = format!("subset {subset} limit {limit}");
            if limit < n {
                ensure!(r.is_err(), "{what}: fewer results than terminal keys were accepted");
                continue;
            }
            let (h, r) = r.map_err(|e| format!("{what}: {e:?}"))?;
            ensure!(h == w.root, "{what}: another root hash");
            let r: Vec<_> = r.into_iter().map(|(p, k, e)| (p, k, e.map(|e| no_root(&e)))).collect();
            ensure!(r == want, "{what}: got {}, expected {}", opts(&r), opts(&want));
        }
        // the proof also tells without a limit in the way of verifying
        let mut none = pq.clone();
        none.query.limit = None;
        ensure!(
            GroveDb::verify_query_with_absence_proof(&proof, &none, gv).is_err(),
            "verified for absence without a limit"
        );
    }
    Ok(())
}

fn opts(r: &[PathKeyOptionalElementTrio]) -> String {
    r.iter()
        .map(|(p, k, e)| {
            format!(
                "{}/{}={} ",
                show_path(p),
                String::from_utf8_lossy(k),
                e.as_ref().map_or("none".into(), crate::model::show_el)
            )
        })
        .collect()
}

fn finite(q: &Query) -> bool {
    let ok = |i: &QueryItem| matches!(i, QueryItem::Key(_) | QueryItem::Range(_) | QueryItem::RangeInclusive(_));
    let b = |s: &grovedb_merk::proofs::query::SubqueryBranch| s.subquery.as_ref().is_none_or(|q| finite(q));
    q.items.iter().all(ok)
        && b(&q.default_subquery_branch)
        && q.conditional_subquery_branches.iter().flatten().all(|(i, s)| {
            ok(i) && b(s)
        })
}

/// Queries that name finitely many keys.
fn finite_queries(thorough: bool) -> Vec<Query> {
    let sets = |n: usize| -> Vec<Vec<QueryItem>> {
        let mut out = vec![
            vec![key("a")],
            vec![key("b")],
            vec![key("z")],
            vec![key("a"), key("b")],
            vec![key("a"), key("c"), key("z")],
            vec![key("b"), key("c"), key("d"), key("e")],
            vec![QueryItem::Range(k("a")..k("c"))],
            vec![QueryItem::RangeInclusive(k("b")..=k("d"))],
            vec![key("a"), QueryItem::RangeInclusive(k("c")..=k("e"))],
        ];
        out.truncate(n);
        out
    };
    let mut out = vec![];
    for s in sets(9) {
        for l in [true, false] {
            out.push(query(s.clone(), l));
        }
    }
    let leaves = out.clone();
    let mut subs = vec![];
    for s in if thorough { sets(9) } else { sets(5) } {
        let q = query(s, true);
        subs.push(queries::sub(None, Some(q.clone())));
        subs.push(queries::sub(Some(&["b"]), Some(q.clone())));
        subs.push(queries::sub(Some(&["z"]), Some(q.clone())));
        let mut deep = query(vec![key("a"), key("b")], false);
        deep.default_subquery_branch = queries::sub(None, Some(q));
        subs.push(queries::sub(None, Some(deep)));
    }
    for p in [&["a"][..], &["b"], &["b", "a"], &["z"]] {
        subs.push(queries::sub(Some(p), None));
    }
    for q in leaves {
        for s in &subs {
            let mut q = q.clone();
            q.default_subquery_branch = s.clone();
            out.push(q.clone());
            for (n, c) in subs.iter().chain([&queries::sub(None, None)]).enumerate() {
                if c == s || (!thorough && n % 3 != 0 && n != subs.len()) {
                    continue;
                }
                for on in [key("a"), key("c"), QueryItem::RangeInclusive(k("b")..=k("d"))] {
                    let mut q = q.clone();
                    q.conditional_subquery_branches = Some([(on, c.clone())].into_iter().collect());
                    out.push(q);
                }
            }
        }
    }
    out.retain(finite);
    out
}

// ----------------------------------------------------------------- parents

/// The feature type that tells of a tree.
fn feature(e: &Element) -> Option<TreeFeatureType> {
    use TreeFeatureType as F;
    Some(match e {
        Element::Tree(..) => F::BasicMerkNode,
        Element::SumTree(_, s, _) => F::SummedMerkNode(*s),
        Element::BigSumTree(_, s, _) => F::BigSummedMerkNode(*s),
        Element::CountTree(_, c, _) => F::CountedMerkNode(*c),
        Element::CountSumTree(_, c, s, _) => F::CountedSummedMerkNode(*c, *s),
        Element::ProvableCountTree(_, c, _) => F::ProvableCountedMerkNode(*c),
        Element::ProvableCountSumTree(_, c, s, _) => F::ProvableCountedSummedMerkNode(*c, *s),
        _ => return None,
    })
}

fn parent(w: &W, db: &Db, path: &Path, q: &Query, limit: Option<u16>, gv: &'static GroveVersion) -> Res {
    let pq = sized(path, q, limit);
    let proof = db.prove_query(&pq, None, gv).unwrap().map_err(|e| format!("prove_query: {e:?}"))?;
    let plain = GroveDb::verify_query(&proof, &pq, gv).map_err(|e| format!("verify_query: {e:?}"))?;
    for subset in [false, true] {
        let r = if subset {
            GroveDb::verify_subset_query_get_parent_tree_info(&proof, &pq, gv)
        } else {
            GroveDb::verify_query_get_parent_tree_info(&proof, &pq, gv)
        };
        let tree = w.vis.get(path).filter(|_| !w.st.model.children(path).is_empty());
        match (r, tree.and_then(feature)) {
            (Ok((h, f, r)), Some(t)) => {
                ensure!(h == w.root, "another root hash");
                ensure!((h, r) == plain, "other results than verify_query");
                ensure_eq!(f, t, "the parent tree");
            }
            (Err(_), None) => {}
            (Ok((_, f, _)), None) => return Err(format!("there is no such tree, got {f:?}")),
            (Err(e), Some(_)) => return Err(format!("parent tree info: {e:?}")),
        }
    }
    Ok(())
}

// -------------------------------------------------------------- boundaries

fn boundaries(w: &W, db: &Db, path: &Path, q: &Query, gv: &'static GroveVersion) -> Res {
    let pq = sized(path, q, None);
    let proof = db.prove_query_non_serialized(&pq, None, gv).unwrap().map_err(|e| format!("prove_query: {e:?}"))?;
    let slices: Vec<&[u8]> = path.iter().map(|s| s.as_slice()).collect();
    let there: BTreeSet<Vec<u8>> = match w.st.model.tree_kind(path) {
        Some(_) => w.st.model.children(path).into_iter().map(|(k, _)| k).collect(),
        None => BTreeSet::new(),
    };
    let got = match proof.boundaries(&slices) {
        Ok(b) => b,
        Err(e) => {
            ensure!(there.is_empty(), "boundaries: {e:?}");
            return Ok(());
        }
    };
    for b in &got {
        ensure!(there.contains(b), "boundary {} is no key of the tree", String::from_utf8_lossy(b));
    }
    let probes: BTreeSet<Vec<u8>> = there.iter().cloned().chain(["a", "z", "", "c0"].map(k)).collect();
    for x in &probes {
        let r = proof.key_exists_as_boundary(&slices, x).map_err(|e| format!("{e:?}"))?;
        ensure_eq!(r, got.contains(x), "key_exists_as_boundary {}", String::from_utf8_lossy(x));
        let selected = q.items.iter().any(|i| contains(i, x));
        ensure!(!r || !selected, "the selected key {} is a boundary", String::from_utf8_lossy(x));
        // the exclusive end of a range is there without being selected
        let end = q.items.iter().any(|i| match i {
            QueryItem::RangeAfter(r) => &r.start == x,
            QueryItem::RangeAfterTo(r) => &r.start == x,
            QueryItem::RangeAfterToInclusive(r) => r.start() == x,
            _ => false,
        });
        if end && !selected && there.contains(x) {
            ensure!(r, "the start {} of a range is in the tree, but not a boundary", String::from_utf8_lossy(x));
        }
    }
    // and it is said of the same proof after it was sent
    let conf = bincode::config::standard().with_big_endian().with_no_limit();
    let bytes = bincode::encode_to_vec(&proof, conf).unwrap();
    let (back, _): (GroveDBProof, usize) = bincode::decode_from_slice(&bytes, conf).map_err(|e| e.to_string())?;
    ensure_eq!(back.boundaries(&slices).map_err(|e| format!("{e:?}"))?, got, "boundaries of the decoded proof");
    let mut far = slices.clone();
    far.push(b"nowhere");
    ensure!(proof.boundaries(&far).is_err(), "boundaries of a layer that is not there");
    Ok(())
}

// ------------------------------------------------------------------ parts

fn rows(w: &W, path: &Path, q: &Query) -> Vec<Row> {
    truth(&w.st.model, w.vis, path, q).0
}

fn parts(w: &W, db: &Db, a: (&Path, &Query), b: (&Path, &Query), gv: &'static GroveVersion) -> Res {
    let (pa, pb) = (sized(a.0, a.1, None), sized(b.0, b.1, None));
    let merged = PathQuery::merge(vec![&pa, &pb], gv).map_err(|e| format!("merge: {e:?}"))?;
    let proof = match db.prove_query_many(vec![&pa, &pb], None, gv).unwrap() {
        Ok(p) => p,
        Err(e) => return Err(format!("prove_query_many: {e:?}")),
    };
    let all = expect(&w.st.model, &rows(w, &merged.path, &merged.query.query));
    let (h, r) = GroveDb::verify_query(&proof, &merged, gv).map_err(|e| format!("verify the whole: {e:?}"))?;
    ensure!(h == w.root, "whole: another root hash");
    let r = opt_rows(r);
    ensure!(r == all, "whole: got [{}], expected [{}]", show_rows(&r), show_rows(&all));
    let mut wants = vec![];
    for (x, pq) in [(a, &pa), (b, &pb)] {
        let part = rows(w, x.0, x.1);
        let want = expect(&w.st.model, &part);
        let kept = part.iter().all(|r| rows(w, &merged.path, &merged.query.query).contains(r));
        match GroveDb::verify_subset_query(&proof, pq, gv) {
            // an element that the whole goes below is not bound in old proofs
            Ok(_) if !kept && std::ptr::eq(gv, &GROVE_V2) => {}
            Err(e) => ensure!(!kept, "part {} {}: {e:?}", show_path(x.0), sq(x.1)),
            Ok((h, r)) => {
                ensure!(h == w.root, "part: another root hash");
                let r = opt_rows(r);
                ensure!(r == want, "part {} {}: got [{}], expected [{}]", show_path(x.0), sq(x.1), show_rows(&r), show_rows(&want));
            }
        }
        wants.push((kept, want));
    }
    if !wants.iter().all(|w| w.0) {
        return Ok(());
    }
    // one after the other
    let seen = RefCell::new(vec![]);
    let next = |r: Vec<PathKeyOptionalElementTrio>| {
        seen.borrow_mut().push(opt_rows(r));
        Some(pb.clone())
    };
    let (h, r) = GroveDb::verify_query_with_chained_path_queries(&proof, &pa, vec![&next], gv).map_err(|e| format!("chained: {e:?}"))?;
    ensure!(h == w.root, "chained: another root hash");
    let r: Vec<Vec<Row>> = r.into_iter().map(opt_rows).collect();
    ensure!(r == [wants[0].1.clone(), wants[1].1.clone()], "chained: got other results");
    ensure!(seen.borrow()[..] == [wants[0].1.clone()], "chained: the second query was made from other results");
    let none = |_: Vec<PathKeyOptionalElementTrio>| None::<PathQuery>;
    ensure!(
        GroveDb::verify_query_with_chained_path_queries(&proof, &pa, vec![none], gv).is_err(),
        "chained: no second query was accepted"
    );
    Ok(())
}

// ------------------------------------------------- the trees above results

fn with_parents(w: &W, db: &Db, path: &Path, q: &Query, gv: &'static GroveVersion) -> Res {
    let pq = sized(path, q, None);
    let proof = db.prove_query(&pq, None, gv).unwrap().map_err(|e| format!("prove_query: {e:?}"))?;
    let mut e = Eval::new(&w.st.model, w.vis, Flags { decrease: true, strict: false });
    e.plain = true;
    e.lenient = true;
    e.parents = true;
    e.run(path, q).expect("lenient");
    let want: Vec<Row> = e
        .rows
        .into_iter()
        .map(|(p, k, e)| match &e {
            Element::Reference(r, ..) => {
                let at = resolve(r, &join(&p, &k)).and_then(|t| w.st.model.follow(&t)).unwrap();
                let e = no_root(&w.vis[&at]);
                (p, k, e)
            }
            _ => (p, k, no_root(&e)),
        })
        .collect();
    // parents are never empty
    let want: Vec<Row> = want
        .into_iter()
        .filter(|(p, k, e)| w.vis.get(p).is_some_and(|t| p.last() == Some(k) && &no_root(t) == e && e.is_any_tree()) || !expect(&w.st.model, &[(p.clone(), k.clone(), e.clone())]).is_empty())
        .collect();
    for succinct in [true, false] {
        let (h, r) = if succinct { GroveDb::verify_query(&proof, &pq, gv) } else { GroveDb::verify_subset_query(&proof, &pq, gv) }
            .map_err(|e| format!("verify: {e:?}"))?;
        ensure!(h == w.root, "another root hash");
        let r = opt_rows(r);
        ensure!(r == want, "got [{}], expected [{}]", show_rows(&r), show_rows(&want));
    }
    Ok(())
}

// -------------------------------------------------------------------- run

fn run(ctx: &Ctx) {
    for (name, ops) in queries::worlds() {
        let st = initial(&ops).unwrap_or_else(|e| panic!("{name}: {e}"));
        ctx.state(&snap_bytes(&st.snap));
        let vis = st.model.visible();
        let w = W { st: &st, vis: &vis, root: st.audit.root_hash };
        let t = ctx.thorough;

        let qs = finite_queries(t);
        ctx.bound(format!("{name}: {} queries of finitely many keys x {} paths, absence proofs with limits around the number of keys", qs.len(), bases().len()));
        each(ctx, &st, &qs, &bases(), |db, b, q| {
            for (vn, gv) in versions() {
                ctx.step();
                ctx.case(|| format!("{name}: absence {} {} {vn}", show_path(b), sq(q)), || absence(&w, db, b, q, gv));
            }
        });

        let mut qs = leaves(&["a", "b", "c", "e"], true);
        if t {
            qs.extend(leaves(&["a", "aa", "b", "d"], true));
        }
        ctx.bound(format!("{name}: {} queries without subqueries x {} paths, parent tree info and boundaries", qs.len(), bases().len()));
        each(ctx, &st, &qs, &bases(), |db, b, q| {
            for (vn, gv) in versions() {
                for limit in [None, Some(1), Some(2)] {
                    ctx.step();
                    ctx.case(|| format!("{name}: parent {} {} limit {limit:?} {vn}", show_path(b), sq(q)), || parent(&w, db, b, q, limit, gv));
                }
                ctx.step();
                ctx.case(|| format!("{name}: boundaries {} {} {vn}", show_path(b), sq(q)), || boundaries(&w, db, b, q, gv));
            }
        });

        let mut ps: Vec<(Path, Query)> = vec![];
        for b in bases() {
            for q in pieces(t) {
                ps.push((b.clone(), q));
            }
        }
        let pairs: Vec<(usize, usize)> = (0..ps.len())
            .flat_map(|i| (0..ps.len()).map(move |j| (i, j)))
            .filter(|(i, j)| {
                let (a, b) = (&ps[*i], &ps[*j]);
                // paths are read upwards
                let whole = |q: &Query| q.default_subquery_branch.subquery_path.is_none() && q.conditional_subquery_branches.is_none();
                a.1.left_to_right == b.1.left_to_right
                    && (a.1.left_to_right || a.0 == b.0 && whole(&a.1) && whole(&b.1))
            })
            .collect();
        ctx.bound(format!("{name}: {} pairs of path queries proved together", pairs.len()));
        let chunks: Vec<&[(usize, usize)]> = pairs.chunks(256).collect();
        ctx.par(&chunks, |c| {
            let db = Db::at(&st.snap);
            for (i, j) in c.iter() {
                let (a, b) = (&ps[*i], &ps[*j]);
                for (vn, gv) in versions() {
                    ctx.step();
                    ctx.case(
                        || format!("{name}: together {} {} and {} {} {vn}", show_path(&a.0), sq(&a.1), show_path(&b.0), sq(&b.1)),
                        || parts(&w, &db, (&a.0, &a.1), (&b.0, &b.1), gv),
                    );
                }
            }
        });

        let mut qs: Vec<Query> = vec![];
        for q in nested(&queries::shapes(), true, true) {
            for mask in 1..4 {
                let mut q = q.clone();
                q.add_parent_tree_on_subquery = mask & 1 != 0;
                let mut any = false;
                if mask & 2 != 0 {
                    if let Some(s) = &mut q.default_subquery_branch.subquery {
                        s.add_parent_tree_on_subquery = true;
                        any = true;
                    }
                    for (_, b) in q.conditional_subquery_branches.iter_mut().flatten() {
                        if let Some(s) = &mut b.subquery {
                            s.add_parent_tree_on_subquery = true;
                            any = true;
                        }
                    }
                    if !any {
                        continue;
                    }
                }
                qs.push(q);
            }
        }
        if name == "plain" {
            let mut q = query(vec![QueryItem::RangeFull(..)], true);
            q.set_subquery(Query::new_range_full());
            q.add_parent_tree_on_subquery = true;
            ctx.step();
            ctx.case(
                || "a query that adds the parent trees, run without proof".into(),
                || {
                    use grovedb::query_result_type::QueryResultType::QueryPathKeyElementTrioResultType as T;
                    let db = Db::at(&st.snap);
                    let pq = sized(&vec![], &q, None);
                    let (r, _) = db.query_raw(&pq, true, true, true, T, None, v()).unwrap().map_err(|e| format!("{e:?}"))?;
                    let n = r.to_path_key_elements().len();
                    let proof = db.prove_query(&pq, None, v()).unwrap().map_err(|e| format!("{e:?}"))?;
                    let (_, r) = GroveDb::verify_query_raw(&proof, &pq, v()).map_err(|e| format!("{e:?}"))?;
                    ensure_eq!(n, r.len(), "results of the query, and of its proof");
                    Ok(())
                },
            );
        }
        ctx.bound(format!("{name}: {} queries for the trees above results", qs.len()));
        each(ctx, &st, &qs, &bases(), |db, b, q| {
            for (vn, gv) in versions() {
                ctx.step();
                ctx.case(|| format!("{name}: with parents {} {} {vn}", show_path(b), sq(q)), || with_parents(&w, db, b, q, gv));
            }
        });
    }
}

/// Queries that are proved together.
fn pieces(thorough: bool) -> Vec<Query> {
    let mut out: Vec<Query> = vec![];
    for l in [true, false] {
        for i in item_sets(&["b"], false) {
            out.push(query(i, l));
        }
        let mut q = query(vec![key("a"), key("c")], l);
        out.push(q.clone());
        q.default_subquery_branch = queries::sub(None, Some(query(vec![QueryItem::RangeFull(..)], l)));
        out.push(q);
        let mut q = query(vec![QueryItem::RangeFull(..)], l);
        q.default_subquery_branch = queries::sub(Some(&["b"]), Some(query(vec![QueryItem::RangeFull(..)], l)));
        out.push(q.clone());
        if thorough {
            q.conditional_subquery_branches =
                Some([(key("a"), queries::sub(None, Some(query(vec![key("a"), key("b")], l))))].into_iter().collect());
            out.push(q);
        }
    }
    out
}

fn sq(q: &Query) -> String {
    let mut s: String = q.items.iter().map(|i| format!("{i} ")).collect();
    let b = |b: &grovedb_merk::proofs::query::SubqueryBranch| {
        let p: String = b.subquery_path.iter().flatten().map(|p| format!("/{}", String::from_utf8_lossy(p))).collect();
        format!("->{p}{}", b.subquery.as_ref().map_or(String::new(), |q| format!("({})", sq(q))))
    };
    if q.default_subquery_branch.subquery.is_some() || q.default_subquery_branch.subquery_path.is_some() {
        s += &b(&q.default_subquery_branch);
    }
    for (i, c) in q.conditional_subquery_branches.iter().flatten() {
        s += &format!(" {i}{}", b(c));
    }
    if !q.left_to_right {
        s += " down";
    }
    if q.add_parent_tree_on_subquery {
        s += " +parents";
    }
    s
}

fn each(ctx: &Ctx, st: &State, qs: &[Query], bs: &[Path], f: impl Fn(&Db, &Path, &Query) + Sync) {
    let jobs: Vec<(&Query, &Path)> = qs.iter().flat_map(|q| bs.iter().map(move |b| (q, b))).collect();
    let chunks: Vec<&[(&Query, &Path)]> = jobs.chunks(64).collect();
    ctx.par(&chunks, |c| {
        let db = Db::at(&st.snap);
        for (q, b) in c.iter() {
            f(&db, b, q);
        }
    });
}
