//! Proofs of path queries: honest ones verify to exactly what is stored,
//! forged ones never to anything else.
use std::collections::BTreeMap;

use grovedb::{operations::proof::{GroveDBProof, ProveOptions}, VerifyOptions, Element, GroveDb, PathQuery, SizedQuery};
use grovedb_merk::proofs::Query;
use grovedb_version::version::GroveVersion;
use kit::{ensure, Ctx, Res};

use crate::{
    audit::{Hash, Path},
    engine::{initial, snap_bytes, Db, State},
    model::{join, no_root, resolve, v, Model},
    queries::{self, bases, leaves, nested, shapes, show_rows, Eval, Flags, Row},
};

pub type Vis = BTreeMap<Path, Element>;

/// Rows that the query selects, references replaced by what they lead to.
pub fn truth(m: &Model, vis: &Vis, path: &Path, q: &Query) -> (Vec<Row>, usize) {
    let mut e = Eval::new(m, vis, Flags { decrease: true, strict: false });
    e.plain = true;
    e.lenient = true;
    e.run(path, q).expect("lenient");
    let (rows, empties) = (e.rows, e.empties);
    let rows = rows
        .into_iter()
        .map(|(p, k, e)| match &e {
            Element::Reference(r, ..) => {
                let at = resolve(r, &join(&p, &k)).and_then(|t| m.follow(&t)).unwrap();
                let e = no_root(&vis[&at]);
                (p, k, e)
            }
            _ => (p, k, no_root(&e)),
        })
        .collect();
    (rows, empties)
}

pub fn raw_rows(r: grovedb::operations::proof::util::ProvedPathKeyValues) -> Result<Vec<Row>, String> {
    r.into_iter()
        .map(|x| {
            let e = Element::deserialize(&x.value, v()).map_err(|e| format!("result value: {e}"))?;
            Ok((x.path, x.key, no_root(&e)))
        })
        .collect()
}
pub fn opt_rows(r: Vec<grovedb::query_result_type::PathKeyOptionalElementTrio>) -> Vec<Row> {
    r.into_iter()
        .filter_map(|(p, k, e)| e.map(|e| (p, k, no_root(&e))))
        .collect()
}

fn empty_tree(e: &Element, m: &Model, at: &Path) -> bool {
    matches!(e, Element::Tree(..)) && m.children(at).is_empty()
}

/// What the three ways of verifying have to give for the rows of a query.
pub fn expect(m: &Model, rows: &[Row]) -> Vec<Row> {
    rows.iter()
        .filter(|(p, k, e)| !empty_tree(e, m, &join(p, k)))
        .cloned()
        .collect()
}

pub fn agree(got: &[Row], want: &[Row], limit: Option<u16>, empties: usize, what: &str) -> Res {
    match limit {
        None => ensure!(
            got == want,
            "{what} gave [{}], expected [{}]",
            show_rows(got),
            show_rows(want)
        ),
        Some(l) => {
            ensure!(
                want.starts_with(got),
                "{what} gave [{}], not the first of [{}]",
                show_rows(got),
                show_rows(want)
            );
            ensure!(got.len() <= l as usize, "{what} gave {} results for limit {l}", got.len());
            ensure!(
                got.len() == want.len() || got.len() + empties >= l as usize,
                "{what} gave only [{}] of [{}] for limit {l}",
                show_rows(got),
                show_rows(want)
            );
        }
    }
    Ok(())
}

pub fn check_proof(db: &Db, st: &State, vis: &Vis, path: &Path, q: &Query, limit: Option<u16>, gv: &GroveVersion) -> Res {
    check_proof_with(db, st, vis, path, q, limit, gv, true)
}
fn check_proof_with(
    db: &Db,
    st: &State,
    vis: &Vis,
    path: &Path,
    q: &Query,
    limit: Option<u16>,
    gv: &GroveVersion,
    decrease: bool,
) -> Res {
    let options = ProveOptions { decrease_limit_on_empty_sub_query_result: decrease };
    let root: Hash = st.audit.root_hash;
    let pq = PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, None));
    let proof = match db.prove_query(&pq, if decrease { None } else { Some(options) }, gv).unwrap() {
        Ok(p) => {
            ensure!(limit != Some(0), "limit 0 was proved");
            p
        }
        Err(e) => {
            ensure!(limit == Some(0), "prove_query: {e:?}");
            return Ok(());
        }
    };
    let (want, empties) = truth(&st.model, vis, path, q);
    // newer proofs do not carry the option: their verifier always counts
    let old = std::ptr::eq(gv, &grovedb_version::version::v2::GROVE_V2);
    let empties = if !decrease && old { 0 } else { empties };
    // an empty tree that is a result counts for the limit, but is not given
    let shown = expect(&st.model, &want);
    let hidden = want.len() - shown.len();
    let (h, r) = GroveDb::verify_query_raw(&proof, &pq, gv)
        .map_err(|e| format!("verify_query_raw: {e:?}"))?;
    ensure!(h == root, "verify_query_raw: another root hash");
    let r = raw_rows(r)?;
    agree(&r, &want, limit, empties, "verify_query_raw")?;
    for (succinct, name) in [(true, "verify_query"), (false, "verify_subset_query")] {
        let (h, r) = if succinct {
            GroveDb::verify_query(&proof, &pq, gv)
        } else {
            GroveDb::verify_subset_query(&proof, &pq, gv)
        }
        .map_err(|e| format!("{name}: {e:?}"))?;
        ensure!(h == root, "{name}: another root hash");
        agree(&opt_rows(r), &shown, limit, empties + hidden, name)?;
    }
    Ok(())
}

/// All options of verifying, of the bytes and of the decoded proof.
fn all_ways(proof: &[u8], pq: &PathQuery, gv: &GroveVersion, rows: impl Fn(bool, Vec<Row>) -> Res) -> Res {
    use std::collections::BTreeMap;
    type Out = Result<(Hash, Vec<grovedb::query_result_type::PathKeyOptionalElementTrio>), grovedb::Error>;
    let conf = bincode::config::standard().with_big_endian().with_no_limit();
    let (object, _): (GroveDBProof, usize) = bincode::decode_from_slice(proof, conf).map_err(|e| e.to_string())?;
    let same = |what: &str, a: Out, b: &Out| -> Res {
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(a == *b, "{what} gave other results than the options"),
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return Err(format!("{what} verified, the options did not: {e:?}")),
            (Err(e), Ok(_)) => return Err(format!("{what} did not verify, the options did: {e:?}")),
        }
        Ok(())
    };
    for succinct in [false, true] {
        for empty in [false, true] {
            let options = |absence: bool| VerifyOptions {
                absence_proofs_for_non_existing_searched_keys: absence,
                verify_proof_succinctness: succinct,
                include_empty_trees_in_result: empty,
            };
            let what = |absence: bool| format!("absence {absence} succinct {succinct} empty trees {empty}");
            let plain = GroveDb::verify_query_with_options(proof, pq, options(false), gv).map_err(|e| format!("{}: {e:?}", what(false)))?;
            rows(empty, opt_rows(plain.1.clone()))?;
            // with absence proofs it is what was found of the keys that are named
            let with = GroveDb::verify_query_with_options(proof, pq, options(true), gv);
            let keys = pq.query.limit.and_then(|l| pq.terminal_keys(l as usize, gv).ok());
            match (&with, keys) {
                (Ok(with), Some(keys)) => {
                    let mut found: BTreeMap<_, _> = plain.1.iter().map(|(p, k, e)| ((p, k), e)).collect();
                    let want: Vec<_> = keys
                        .iter()
                        .map(|(p, k)| (p.clone(), k.clone(), found.remove(&(p, k)).cloned().flatten()))
                        .collect();
                    ensure!(with.0 == plain.0 && with.1 == want, "{}: other than what was found", what(true));
                }
                (Err(_), None) => {}
                (Ok(_), None) => return Err(format!("{}: without a limit or keys that are named", what(true))),
                (Err(e), Some(_)) => return Err(format!("{}: {e:?}", what(true))),
            }
            let plain = Ok(plain);
            same("verify_with_options", object.verify_with_options(pq, options(false), gv), &plain)?;
            same("verify_with_options for absence", object.verify_with_options(pq, options(true), gv), &with)?;
            if let Ok((h, _, r)) = GroveDb::verify_query_get_parent_tree_info_with_options(proof, pq, options(false), gv) {
                same("verify_query_get_parent_tree_info_with_options", Ok((h, r)), &plain)?;
            }
            if !empty {
                let (a, b) = if succinct {
                    (object.verify(pq, gv), object.verify_with_absence_proof(pq, gv))
                } else {
                    (object.verify_subset(pq, gv), object.verify_subset_with_absence_proof(pq, gv))
                };
                same("verifying the decoded proof", a, &plain)?;
                same("verifying the decoded proof for absence", b, &with)?;
            } else if !succinct {
                let (h, r) = object.verify_raw(pq, gv).map_err(|e| format!("decoded verify_raw: {e:?}"))?;
                let (h2, r2) = GroveDb::verify_query_raw(proof, pq, gv).map_err(|e| format!("verify_query_raw: {e:?}"))?;
                ensure!(h == h2 && raw_rows(r)? == raw_rows(r2)?, "verify_raw of the decoded proof gave other results");
            }
        }
    }
    Ok(())
}

/// A proof over many subtrees.
fn wide(ctx: &Ctx) {
    use crate::{maps::item, model::Op};
    for n in [127usize, 128, 129] {
        let name = |i: usize| format!("{i:03}").into_bytes();
        let mut ops = vec![];
        for i in 0..n {
            ops.push(Op::Insert(vec![], name(i), Element::empty_tree()));
            ops.push(Op::Insert(vec![name(i)], b"x".to_vec(), item("x")));
        }
        let st = initial(&ops).unwrap();
        ctx.state(&snap_bytes(&st.snap));
        let vis = st.model.visible();
        let db = Db::at(&st.snap);
        let mut q = Query::new_range_full();
        q.set_subquery(Query::new_range_full());
        for left in [true, false] {
            q.left_to_right = left;
            for limit in [None, Some(5), Some(128), Some(129)] {
                for (vn, gv) in [("v1", v()), ("v0", &grovedb_version::version::v2::GROVE_V2)] {
                    ctx.step();
                    ctx.case(
                        || {
                            let (to, l) = (if left { "up" } else { "down" }, limit.map_or("none".into(), |l| l.to_string()));
                            format!("{n} subtrees read {to}, limit {l}, {vn}")
                        },
                        || check_proof(&db, &st, &vis, &vec![], &q, limit, gv),
                    );
                }
            }
        }
    }
}

fn deep(ctx: &Ctx) {
    let st = initial(&queries::deep_world()).unwrap_or_else(|e| panic!("deep: {e}"));
    ctx.state(&snap_bytes(&st.snap));
    let vis = st.model.visible();
    let qs = queries::deep_queries(ctx.pick(2, 3));
    ctx.bound(format!("seven layers: {} queries x {} paths x limits x proof versions", qs.len(), queries::deep_bases().len()));
    let chunks: Vec<&[Query]> = qs.chunks(16).collect();
    ctx.par(&chunks, |chunk| {
        let db = Db::at(&st.snap);
        for q in chunk.iter() {
            for base in queries::deep_bases() {
                for limit in [None, Some(2)] {
                    for (vn, gv) in [("v1", v()), ("v0", &grovedb_version::version::v2::GROVE_V2)] {
                        if ctx.out_of_time() {
                            return;
                        }
                        ctx.step();
                        ctx.case(
                            || format!("deep; {} {q} limit {limit:?} {vn}", crate::audit::show_path(&base)),
                            || check_proof(&db, &st, &vis, &base, q, limit, gv),
                        );
                    }
                }
            }
        }
    });
}

/// Old proofs tell whether subtrees without results count for the limit.
fn uncounted(ctx: &Ctx) {
    use crate::{
        maps::{item, p},
        model::Op,
    };
    let mut ops = vec![];
    for (path, key) in [("", "a"), ("", "b"), ("a", "b")] {
        ops.push(Op::Insert(p(path), key.into(), Element::empty_tree()));
    }
    for (path, key) in [("a", "a"), ("a", "c"), ("b", "a"), ("a/b", "x")] {
        ops.push(Op::Insert(p(path), key.into(), item(key)));
    }
    let st = initial(&ops).unwrap();
    ctx.state(&snap_bytes(&st.snap));
    let vis = st.model.visible();
    let db = Db::at(&st.snap);
    let mut q = Query::new_single_key(b"z".to_vec());
    for _ in 0..2 {
        let mut over = Query::new_range_full();
        over.set_subquery(q);
        q = over;
    }
    for limit in [1, 2, 3] {
        ctx.step();
        ctx.case(
            || format!("empty subtrees are not counted, limit {limit}, v0"),
            || {
                check_proof_with(&db, &st, &vis, &vec![], &q, Some(limit), &grovedb_version::version::v2::GROVE_V2, false)
            },
        );
    }
}

pub fn d09(ctx: &Ctx) {
    wide(ctx);
    deep(ctx);
    uncounted(ctx);
    for (name, ops) in queries::worlds() {
        let st = initial(&ops).unwrap_or_else(|e| panic!("{name}: {e}"));
        ctx.state(&snap_bytes(&st.snap));
        let vis = st.model.visible();
        let mut qs = leaves(&["a", "b", "c", "e"], true);
        qs.extend(nested(&shapes(), true, true));
        if ctx.thorough {
            qs.extend(nested(&queries::item_sets(&["a", "b", "d"], true), true, false));
        }
        ctx.bound(format!("world {name}: {} queries x {} paths x limits x proof versions", qs.len(), bases().len()));
        let jobs: Vec<(usize, Path)> = (0..qs.len())
            .flat_map(|i| bases().into_iter().map(move |b| (i, b)))
            .collect();
        let chunks: Vec<&[(usize, Path)]> = jobs.chunks(64).collect();
        ctx.par(&chunks, |chunk| {
            let db = Db::at(&st.snap);
            for (i, base) in chunk.iter() {
                let q = &qs[*i];
                for limit in queries::limits(ctx.thorough) {
                    for (vn, gv) in [("v1", v()), ("v0", &grovedb_version::version::v2::GROVE_V2)] {
                        ctx.step();
                        ctx.case(
                            || format!("{name}; {} {q} limit {limit:?} {vn}", crate::audit::show_path(base)),
                            || check_proof(&db, &st, &vis, base, q, limit, gv),
                        );
                    }
                }
            }
        });
    }
}

pub fn debug() {
    use grovedb_merk::proofs::query::QueryItem;
    let (_, ops) = queries::worlds().remove(0);
    let st = initial(&ops).unwrap();
    let db = Db::at(&st.snap);
    let q = queries::query(vec![QueryItem::RangeAfterTo(b"b".to_vec()..b"e".to_vec())], false);
    let pq = PathQuery::new(vec![], SizedQuery::new(q, Some(1), None));
    let pr = db.prove_query_non_serialized(&pq, None, v()).unwrap().unwrap();
    println!("{pr}");
}
