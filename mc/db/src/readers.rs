//! D18: what the readers over a query make of its rows.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::{
    query_result_type::{
        BTreeMapLevelResult, BTreeMapLevelResultOrItem, QueryResultElement as Q, QueryResultElements,
        QueryResultType as T,
    },
    reference_path::ReferencePathType as R,
    AggregateSumPathQuery, AggregateSumQueryOptions, Element, Error, GroveDb, PathQuery, SizedQuery, TransactionArg,
};
use grovedb_merk::proofs::{query::{AggregateSumQuery, QueryItem}, Query};
use grovedb_version::version::GroveVersion;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

use crate::{
    audit::{show_path, Path},
    engine::{initial, snap_bytes, Db, State},
    maps::{item, k, p, reads_in},
    model::{join, no_root, run as act, v, Key, Model, Op, Out},
    queries::{bases, item_sets, key, leaves, nested, query, shapes, show_rows, Eval, Flags, Row},
};

pub fn spec() -> Spec {
    Spec {
        id: "D18",
        level: "model_checking",
        run,
    }
}

type Vis = BTreeMap<Path, Element>;

/// Every kind of element, and references to each of them.
fn kinds() -> Vec<Op> {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let abs = |s: &str| Element::new_reference(R::AbsolutePathReference(p(s)));
    let mut w = vec![
        ins("", "a", Element::empty_sum_tree()),
        ins("", "b", Element::empty_tree()),
        ins("", "c", Element::empty_tree()),
        ins("", "d", Element::empty_big_sum_tree()),
        ins("", "e", item("e")),
        ins("a", "a", Element::new_sum_item(5)),
        ins("a", "b", Element::new_item_with_sum_item(b"ab".to_vec(), -3)),
        ins("a", "c", item("ac")),
        ins("a", "d", Element::new_reference(R::SiblingReference(k("a")))),
        ins("a", "e", Element::empty_sum_tree()),
        ins("a/e", "a", Element::new_sum_item(300)),
        ins("a/e", "b", abs("a/b")),
        ins("d", "a", Element::new_sum_item(i64::MAX)),
        ins("d", "b", Element::new_sum_item(i64::MAX)),
    ];
    let kinds = [
        Element::empty_tree(),
        Element::empty_sum_tree(),
        Element::empty_big_sum_tree(),
        Element::empty_count_tree(),
        Element::empty_count_sum_tree(),
        Element::empty_provable_count_tree(),
        Element::empty_provable_count_sum_tree(),
        Element::empty_mmr_tree(),
        Element::empty_bulk_append_tree(2).unwrap(),
        Element::empty_dense_tree(2),
    ];
    for (n, e) in kinds.into_iter().enumerate() {
        let name = format!("{n}");
        let sub = format!("b/{name}");
        let full = e.clone();
        w.push(ins("b", &name, e));
        match full {
            Element::MmrTree(..) => w.push(Op::Mmr(p("b"), k(&name), b"x".to_vec())),
            Element::BulkAppendTree(..) => w.push(Op::Bulk(p("b"), k(&name), b"x".to_vec())),
            Element::DenseAppendOnlyFixedSizeTree(..) => w.push(Op::Dense(p("b"), k(&name), b"x".to_vec())),
            _ => {
                if matches!(n, 1 | 2 | 4 | 6) {
                    w.push(ins(&sub, "a", Element::new_sum_item(7)));
                    w.push(ins(&sub, "b", Element::new_item_with_sum_item(b"it".to_vec(), 11)));
                } else {
                    w.push(ins(&sub, "a", item("7")));
                }
                w.push(ins(&sub, "c", abs("a/a")));
            }
        }
        w.push(ins("c", &name, abs(&sub)));
    }
    w.push(ins("c", "a", abs("a/a")));
    w.push(ins("c", "b", abs("a/b")));
    w.push(ins("c", "c", abs("a/c")));
    w.push(ins("c", "d", abs("c/a")));
    w.push(ins("c", "e", abs("d/a")));
    w
}

/// Sums only, and references to them.
fn sums() -> Vec<Op> {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let sib = |s: &str| Element::new_reference(R::SiblingReference(k(s)));
    let mut w = vec![ins("", "a", Element::empty_sum_tree()), ins("", "b", Element::empty_sum_tree()), ins("", "e", item("e"))];
    for (key, n) in [("a", 5), ("b", 2), ("c", -4), ("d", 0), ("e", 9)] {
        w.push(ins("a", key, Element::new_sum_item(n)));
    }
    w.push(ins("a", "ab", Element::new_item_with_sum_item(b"x".to_vec(), 3)));
    w.push(ins("a", "f", sib("b")));
    w.push(ins("a", "g", sib("ab")));
    w.push(ins("a", "h", sib("f")));
    // a mix
    for (key, e) in [
        ("a", Element::new_sum_item(4)),
        ("b", item("x")),
        ("c", Element::empty_sum_tree()),
        ("d", Element::new_sum_item(6)),
        ("e", Element::new_reference(R::AbsolutePathReference(p("a/e")))),
        ("f", Element::new_reference(R::AbsolutePathReference(p("a/g")))),
        ("g", sib("b")),
        ("h", sib("c")),
        ("i", Element::new_sum_item(1)),
    ] {
        w.push(ins("b", key, e));
    }
    w
}

struct W<'a> {
    m: &'a Model,
    vis: &'a Vis,
}

/// How a reader is asked.
#[derive(Clone, Copy)]
struct How<'a: 'db, 'db> {
    cache: bool,
    decrease: bool,
    strict: bool,
    tx: TransactionArg<'a, 'db>,
}

/// Where a row leads to.
fn end(w: &W, e: &Element) -> Result<(bool, Element), ()> {
    match e {
        Element::Reference(R::AbsolutePathReference(t), ..) => {
            let at = w.m.follow(t).ok_or(())?;
            Ok((true, w.vis[&at].clone()))
        }
        Element::Reference(..) => panic!("a relative reference"),
        e => Ok((false, e.clone())),
    }
}

fn followed(w: &W, e: &Element) -> Result<Element, ()> {
    let (by, e) = end(w, e)?;
    match &e {
        Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..) => Ok(e),
        _ if by => Err(()),
        Element::Tree(..)
        | Element::CommitmentTree(..)
        | Element::MmrTree(..)
        | Element::BulkAppendTree(..)
        | Element::DenseAppendOnlyFixedSizeTree(..) => Err(()),
        _ => Ok(e),
    }
}

fn value(w: &W, e: &Element) -> Result<Vec<u8>, ()> {
    match end(w, e)?.1 {
        Element::Item(x, _) | Element::ItemWithSumItem(x, ..) => Ok(x),
        Element::SumItem(n, _) => Ok(var_int(n)),
        _ => Err(()),
    }
}

/// Zigzag, seven bits at a time.
fn var_int(n: i64) -> Vec<u8> {
    let mut z = ((n << 1) ^ (n >> 63)) as u64;
    let mut out = vec![];
    loop {
        let low = (z & 127) as u8;
        z >>= 7;
        if z == 0 {
            out.push(low);
            return out;
        }
        out.push(low | 128);
    }
}

/// The type has no public name; it is compared as it is written.
fn value_or_sum(w: &W, e: &Element) -> Result<String, ()> {
    Ok(match end(w, e)?.1 {
        Element::Item(x, _) => format!("ItemData({x:?})"),
        Element::ItemWithSumItem(x, n, _) => format!("ItemDataWithSumValue({x:?}, {n})"),
        Element::SumItem(n, _) | Element::SumTree(_, n, _) => format!("SumValue({n})"),
        Element::BigSumTree(_, n, _) => format!("BigSumValue({n})"),
        Element::CountTree(_, n, _) | Element::ProvableCountTree(_, n, _) => format!("CountValue({n})"),
        Element::CountSumTree(_, n, s, _) | Element::ProvableCountSumTree(_, n, s, _) => {
            format!("CountSumValue({n}, {s})")
        }
        _ => return Err(()),
    })
}

/// None: it is not said whether the value of an item with a sum is given
/// through a reference.
fn sum(w: &W, e: &Element) -> Option<Result<i64, ()>> {
    Some(match end(w, e) {
        Ok((_, Element::SumItem(n, _))) | Ok((false, Element::ItemWithSumItem(_, n, _))) => Ok(n),
        Ok((true, Element::ItemWithSumItem(..))) => return None,
        _ => Err(()),
    })
}

/// Same as expected, or refused as expected.
fn agree<A: PartialEq + std::fmt::Debug>(what: &str, got: Result<A, Error>, want: &Result<A, ()>) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ensure!(g == *w, "{what} gave {g:?}, expected {w:?}");
            Ok(())
        }
        (Err(_), Err(())) => Ok(()),
        (Ok(g), Err(())) => Err(format!("{what} gave {g:?}, expected an error")),
        (Err(e), Ok(w)) => Err(format!("{what}: {e:?}, expected {w:?}")),
    }
}

fn clean(r: QueryResultElements) -> Vec<Q> {
    r.elements
        .into_iter()
        .map(|e| match e {
            Q::ElementResultItem(e) => Q::ElementResultItem(no_root(&e)),
            Q::KeyElementPairResultItem((k, e)) => Q::KeyElementPairResultItem((k, no_root(&e))),
            Q::PathKeyElementTrioResultItem((p, k, e)) => Q::PathKeyElementTrioResultItem((p, k, no_root(&e))),
        })
        .collect()
}

fn typed(t: T, rows: &[Row]) -> Vec<Q> {
    rows.iter()
        .cloned()
        .map(|(p, k, e)| match t {
            T::QueryElementResultType => Q::ElementResultItem(e),
            T::QueryKeyElementPairResultType => Q::KeyElementPairResultItem((k, e)),
            T::QueryPathKeyElementTrioResultType => Q::PathKeyElementTrioResultItem((p, k, e)),
        })
        .collect()
}

const TYPES: [T; 3] = [
    T::QueryElementResultType,
    T::QueryKeyElementPairResultType,
    T::QueryPathKeyElementTrioResultType,
];

/// The rows of a query, and how many were skipped.
fn expected(w: &W, path: &Path, q: &Query, limit: Option<u16>, offset: Option<u16>, h: &How) -> Result<(Vec<Row>, u16), ()> {
    let mut e = Eval::new(w.m, w.vis, Flags { decrease: h.decrease, strict: h.strict });
    e.limit = limit;
    e.offset = offset.unwrap_or(0);
    e.run(path, q).map_err(|_| ())?;
    Ok((e.rows, offset.unwrap_or(0) - e.offset))
}

/// What is below a tree of data can't be asked for by queries.
fn into_data(w: &W, path: &Path, q: &Query) -> bool {
    let mut e = Eval::new(w.m, w.vis, Flags { decrease: false, strict: false });
    e.lenient = true;
    let _ = e.run(path, q);
    e.into_data
}

fn map_rows<A>(r: &Result<(Vec<Row>, u16), ()>, f: impl Fn(&Row) -> Result<A, ()>) -> Result<(Vec<A>, u16), ()> {
    let (rows, s) = r.as_ref().map_err(|_| ())?;
    Ok((rows.iter().map(f).collect::<Result<_, _>>()?, *s))
}

fn readers(w: &W, db: &GroveDb, path: &Path, q: &Query, limit: Option<u16>, offset: Option<u16>, h: How) -> Res {
    let gv = v();
    let pq = PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, offset));
    let want = expected(w, path, q, limit, offset, &h);
    for t in TYPES {
        let raw = db
            .query_raw(&pq, h.cache, h.decrease, h.strict, t, h.tx, gv)
            .unwrap()
            .map(|(r, s)| (clean(r), s));
        agree(&format!("query_raw as {t}"), raw, &want.clone().map(|(r, s)| (typed(t, &r), s)))?;
        let full = map_rows(&want, |r| Ok((r.0.clone(), r.1.clone(), followed(w, &r.2)?)));
        let r = db
            .query(&pq, h.cache, h.decrease, h.strict, t, h.tx, gv)
            .unwrap()
            .map(|(r, s)| (clean(r), s));
        agree(&format!("query as {t}"), r, &full.map(|(r, s)| (typed(t, &r), s)))?;
    }
    agree(
        "query_item_value",
        db.query_item_value(&pq, h.cache, h.decrease, h.strict, h.tx, gv).unwrap(),
        &map_rows(&want, |r| value(w, &r.2)),
    )?;
    agree(
        "query_item_value_or_sum",
        db.query_item_value_or_sum(&pq, h.cache, h.decrease, h.strict, h.tx, gv)
            .unwrap()
            .map(|(r, s)| (r.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), s)),
        &map_rows(&want, |r| value_or_sum(w, &r.2)),
    )?;
    if want.as_ref().is_ok_and(|(r, _)| r.iter().all(|r| sum(w, &r.2).is_some())) || want.is_err() {
        agree(
            "query_sums",
            db.query_sums(&pq, h.cache, h.decrease, h.strict, h.tx, gv).unwrap(),
            &map_rows(&want, |r| sum(w, &r.2).unwrap()),
        )?;
    }
    optional(w, db, &pq, &want, h)?;
    let proved = db.get_proved_path_query(&pq, None, h.tx, gv).unwrap();
    if h.tx.is_some() {
        ensure!(proved.is_err(), "a proof was made inside of a transaction");
    } else {
        let direct = db.prove_query(&pq, None, gv).unwrap();
        match (proved, direct) {
            (Ok(a), Ok(b)) => ensure!(a == b, "get_proved_path_query gave another proof"),
            (Err(_), Err(_)) => {}
            (a, _) => return Err(format!("get_proved_path_query: {:?}", a.map(|_| ()))),
        }
    }
    Ok(())
}

fn optional(w: &W, db: &GroveDb, pq: &PathQuery, want: &Result<(Vec<Row>, u16), ()>, h: How) -> Res {
    let gv = v();
    let limit = pq.query.limit;
    let keys = limit.filter(|_| pq.query.offset.is_none()).and_then(|l| {
        let mut keys = vec![];
        pq.query.query.terminal_keys(pq.path.clone(), l as usize, &mut keys).ok()?;
        Some(keys)
    });
    for raw in [true, false] {
        let rows = if raw {
            want.clone().map(|w| w.0)
        } else {
            map_rows(want, |r| Ok((r.0.clone(), r.1.clone(), followed(w, &r.2)?))).map(|w| w.0)
        };
        let want: Result<Vec<(Path, Key, Option<Element>)>, ()> = match (&keys, rows) {
            (Some(keys), Ok(rows)) => {
                let mut left: BTreeMap<(Path, Key), Element> = rows.into_iter().map(|(p, k, e)| ((p, k), e)).collect();
                Ok(keys
                    .iter()
                    .map(|(p, k)| (p.clone(), k.clone(), left.remove(&(p.clone(), k.clone()))))
                    .collect())
            }
            _ => Err(()),
        };
        let got = if raw {
            db.query_raw_keys_optional(pq, h.cache, h.decrease, h.strict, h.tx, gv)
        } else {
            db.query_keys_optional(pq, h.cache, h.decrease, h.strict, h.tx, gv)
        }
        .unwrap()
        .map(|r| r.into_iter().map(|(p, k, e)| (p, k, e.map(|e| no_root(&e)))).collect::<Vec<_>>());
        agree(if raw { "query_raw_keys_optional" } else { "query_keys_optional" }, got, &want)?;
    }
    Ok(())
}

/// Two queries at once.
fn many(w: &W, db: &GroveDb, a: &PathQuery, b: &PathQuery, h: How) -> Res {
    let gv = v();
    let merged = PathQuery::merge(vec![a, b], gv);
    let want = match &merged {
        Ok(m) if into_data(w, &m.path, &m.query.query) => return Ok(()),
        Ok(m) => expected(w, &m.path, &m.query.query, m.query.limit, m.query.offset, &h),
        Err(_) => Err(()),
    };
    for t in TYPES {
        let got = db
            .query_many_raw(&[a, b], h.cache, h.decrease, h.strict, t, h.tx, gv)
            .unwrap()
            .map(clean);
        agree(&format!("query_many_raw as {t}"), got, &want.clone().map(|(r, _)| typed(t, &r)))?;
    }
    #[allow(deprecated)]
    let got = db.query_encoded_many(&[a, b], h.cache, h.decrease, h.strict, h.tx, gv).unwrap();
    let values = map_rows(&want, |r| match &r.2 {
        Element::Reference(..) => value(w, &r.2),
        _ => Err(()),
    });
    agree("query_encoded_many", got, &values.map(|v| v.0))
}

// ------------------------------------------------------------ conversions

fn level(l: &BTreeMapLevelResult, at: &Path, out: &mut Vec<(Path, Element)>, levels: &mut BTreeMap<Path, usize>) {
    levels.insert(at.clone(), l.key_values.len());
    for (key, x) in &l.key_values {
        match x {
            BTreeMapLevelResultOrItem::ResultItem(e) => out.push((join(at, key), e.clone())),
            BTreeMapLevelResultOrItem::BTreeMapLevelResult(l) => level(l, &join(at, key), out, levels),
        }
    }
}

fn convert(rows: &[Row]) -> Res {
    for t in TYPES {
        let r = || QueryResultElements::from_elements(typed(t, rows));
        let (keyed, pathed) = match t {
            T::QueryElementResultType => (false, false),
            T::QueryKeyElementPairResultType => (true, false),
            T::QueryPathKeyElementTrioResultType => (true, true),
        };
        let kr: &[Row] = if keyed { rows } else { &[] };
        let pr: &[Row] = if pathed { rows } else { &[] };
        ensure_eq!(r().len(), rows.len(), "len");
        ensure_eq!(r().is_empty(), rows.is_empty(), "is_empty");
        ensure!(r().into_iterator().collect::<Vec<_>>() == typed(t, rows), "into_iterator");
        ensure!(r().to_elements() == rows.iter().map(|r| r.2.clone()).collect::<Vec<_>>(), "to_elements");
        ensure!(
            r().to_key_elements() == kr.iter().map(|r| (r.1.clone(), r.2.clone())).collect::<Vec<_>>(),
            "to_key_elements"
        );
        ensure!(r().to_keys() == kr.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), "to_keys");
        let by_key: BTreeMap<Key, Element> = kr.iter().map(|r| (r.1.clone(), r.2.clone())).collect();
        ensure!(r().to_key_elements_btree_map() == by_key, "to_key_elements_btree_map");
        ensure!(
            r().to_key_elements_hash_map().into_iter().collect::<BTreeMap<_, _>>() == by_key,
            "to_key_elements_hash_map"
        );
        ensure!(r().to_path_key_elements() == pr, "to_path_key_elements");
        ensure!(
            r().to_path_key_elements_btree_map()
                == pr.iter().map(|r| ((r.0.clone(), r.1.clone()), r.2.clone())).collect::<BTreeMap<_, _>>(),
            "to_path_key_elements_btree_map"
        );
        let mut keys: BTreeMap<Key, Vec<Key>> = BTreeMap::new();
        let mut prev: BTreeMap<Key, Vec<Key>> = BTreeMap::new();
        let mut els: BTreeMap<Key, Vec<Element>> = BTreeMap::new();
        let mut maps: BTreeMap<Key, BTreeMap<Key, Element>> = BTreeMap::new();
        let mut paths: BTreeMap<Path, BTreeMap<Key, Element>> = BTreeMap::new();
        for (p, k, e) in pr {
            paths.entry(p.clone()).or_default().insert(k.clone(), e.clone());
            if let Some(last) = p.last() {
                keys.entry(last.clone()).or_default().push(k.clone());
                els.entry(last.clone()).or_default().push(e.clone());
                maps.entry(last.clone()).or_default().insert(k.clone(), e.clone());
            }
            if p.len() > 1 {
                prev.entry(p[p.len() - 2].clone()).or_default().push(k.clone());
            }
        }
        ensure!(r().to_last_path_to_keys_btree_map() == keys, "to_last_path_to_keys_btree_map");
        ensure!(r().to_previous_of_last_path_to_keys_btree_map() == prev, "to_previous_of_last_path_to_keys_btree_map");
        ensure!(r().to_last_path_to_elements_btree_map() == els, "to_last_path_to_elements_btree_map");
        ensure!(r().to_last_path_to_key_elements_btree_map() == maps, "to_last_path_to_key_elements_btree_map");
        ensure!(r().to_path_to_key_elements_btree_map() == paths, "to_path_to_key_elements_btree_map");
        // the hierarchy: no row lies below another
        let full: BTreeMap<Path, Element> = pr.iter().map(|r| (join(&r.0, &r.1), r.2.clone())).collect();
        let l = r().to_btree_map_level_results();
        let (mut flat, mut levels) = (vec![], BTreeMap::new());
        level(&l, &vec![], &mut flat, &mut levels);
        ensure!(
            flat == full.iter().map(|(p, e)| (p.clone(), e.clone())).collect::<Vec<_>>(),
            "to_btree_map_level_results"
        );
        let mut asks: BTreeSet<Path> = pr.iter().flat_map(|r| (0..=r.0.len()).map(|n| r.0[..n].to_vec())).collect();
        asks.extend(full.keys().cloned());
        asks.insert(p("zz"));
        asks.insert(p("a/zz"));
        asks.insert(vec![]);
        for a in asks {
            let s: Vec<&[u8]> = a.iter().map(|s| s.as_slice()).collect();
            ensure_eq!(
                l.len_of_values_at_path(&s),
                levels.get(&a).copied().unwrap_or(0),
                "len_of_values_at_path {}",
                show_path(&a)
            );
        }
    }
    Ok(())
}

// -------------------------------------------------------------- aggregates

struct Opts {
    non_sum: bool,
    ignore: bool,
    strict: bool,
    most: u16,
}

/// What an aggregate sum query gives; None: not said.
fn added(w: &W, path: &Path, q: &AggregateSumQuery, o: &Opts) -> Option<Result<(Vec<(Key, i64)>, bool), ()>> {
    let Ok(mut budget) = i64::try_from(q.sum_limit) else {
        return Some(Err(()));
    };
    let mut left = q.limit_of_items_to_check;
    let mut out = vec![];
    let mut seen = 0;
    if budget <= 0 || left == Some(0) {
        return Some(Ok((out, false)));
    }
    let tree = w.m.tree_kind(path).is_some();
    let kids = if tree { w.m.children(path) } else { vec![] };
    let mut items: Vec<&QueryItem> = q.items.iter().collect();
    if !q.left_to_right {
        items.reverse();
    }
    for i in items {
        if matches!(i, QueryItem::Key(_)) && !tree {
            if w.m.map.contains_key(path) {
                // something that is no tree
                return None;
            }
            if o.strict {
                return Some(Err(()));
            }
            continue;
        }
        let mut sel: Vec<Key> = kids.iter().map(|c| c.0.clone()).filter(|k| crate::queries::contains(i, k)).collect();
        if !q.left_to_right {
            sel.reverse();
        }
        for key in sel {
            if budget <= 0 || left == Some(0) {
                return Some(Ok((out, false)));
            }
            seen += 1;
            if seen > o.most {
                return Some(Ok((out, true)));
            }
            let at = join(path, &key);
            let e = &w.vis[&at];
            if e.is_reference() && o.ignore {
                continue;
            }
            let end = w.m.follow(&at).map(|p| &w.vis[&p]);
            let n = match end {
                Some(Element::SumItem(n, _) | Element::ItemWithSumItem(_, n, _)) => *n,
                // a reference to something that is gone
                None => return if o.strict { Some(Err(())) } else { None },
                _ if o.non_sum => return Some(Err(())),
                _ => continue,
            };
            out.push((key, n));
            left = left.map(|l| l - 1);
            budget = budget.saturating_sub(n);
        }
    }
    Some(Ok((out, false)))
}

fn scanning(most: u16) -> &'static GroveVersion {
    static V: std::sync::Mutex<BTreeMap<u16, &'static GroveVersion>> = std::sync::Mutex::new(BTreeMap::new());
    V.lock().unwrap().entry(most).or_insert_with(|| {
        let mut g = v().clone();
        g.grovedb_versions.query_limits.max_aggregate_sum_query_elements_scanned = most;
        Box::leak(Box::new(g))
    })
}

fn aggregate(w: &W, db: &GroveDb, path: &Path, q: &AggregateSumQuery, tx: TransactionArg) -> Res {
    let pq = AggregateSumPathQuery::new(path.clone(), q.clone());
    for most in [1024, 0, 1, 3, 5] {
        let gv = scanning(most);
        for n in 0..16 {
            let o = Opts { non_sum: n & 1 > 0, ignore: n & 2 > 0, strict: n & 4 > 0, most };
            let Some(want) = added(w, path, q, &o) else {
                continue;
            };
            let got = db
                .query_aggregate_sums_with_options(
                    &pq,
                    AggregateSumQueryOptions {
                        allow_cache: n & 8 > 0,
                        error_if_intermediate_path_tree_not_present: o.strict,
                        error_if_non_sum_item_found: o.non_sum,
                        ignore_references: o.ignore,
                    },
                    tx,
                    gv,
                )
                .unwrap()
                .map(|r| (r.results, r.hard_limit_reached));
            let what = format!("query_aggregate_sums_with_options non-sum {} ignore {} strict {} most {most}", o.non_sum, o.ignore, o.strict);
            agree(&what, got, &want)?;
            if o.non_sum && !o.ignore {
                let got = db
                    .query_aggregate_sums(&pq, n & 8 > 0, o.strict, tx, gv)
                    .unwrap()
                    .map(|r| (r.results, r.hard_limit_reached));
                agree("query_aggregate_sums", got, &want)?;
            }
        }
    }
    Ok(())
}

fn aggregates(thorough: bool) -> Vec<AggregateSumQuery> {
    let mut out = vec![];
    let ks: &[&str] = if thorough { &["a", "c", "f", "h"] } else { &["a", "c", "f"] };
    let budgets: &[u64] = if thorough {
        &[0, 1, 5, 6, 7, 8, 9, 12, 20, 1000, i64::MAX as u64, i64::MAX as u64 + 1]
    } else {
        &[0, 1, 6, 7, 1000, i64::MAX as u64 + 1]
    };
    let limits: &[Option<u16>] = if thorough {
        &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(9)]
    } else {
        &[None, Some(0), Some(1), Some(3)]
    };
    for items in item_sets(ks, true) {
        for ltr in [true, false] {
            for b in budgets {
                for l in limits {
                    let mut q = if ltr { AggregateSumQuery::new(*b, *l) } else { AggregateSumQuery::new_descending(*b, *l) };
                    q.items = items.clone();
                    out.push(q);
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------- runs

fn asked(thorough: bool) -> Vec<Query> {
    let mut qs = leaves(&["a", "b", "d"], thorough);
    qs.extend(nested(&shapes()[..if thorough { 8 } else { 4 }], false, thorough));
    // only the keys of one kind
    for n in 0..10 {
        qs.push(query(vec![key(&n.to_string())], true));
        qs.push(query(vec![QueryItem::RangeInclusive(k(&n.to_string())..=k(&(n + 1).to_string()))], false));
    }
    qs.push(query(vec![QueryItem::RangeInclusive(k("1")..=k("6"))], true));
    qs
}

/// Readers over a state, outside and inside of a transaction.
fn over(ctx: &Ctx, name: &str, ops: &[Op], from: usize, more: &[Op], qs: &[Query], aggs: &[AggregateSumQuery]) {
    let Ok(below) = initial(&ops[..from]) else {
        panic!("{name}: the first {from} operations");
    };
    let whole: Vec<Op> = ops.iter().chain(more).cloned().collect();
    let above = initial(&whole).unwrap_or_else(|e| panic!("{name}: {e}"));
    ctx.state(&snap_bytes(&above.snap));
    ctx.state(&snap_bytes(&below.snap));
    let vis: [Vis; 2] = [below.model.visible(), above.model.visible()];
    let sides: [(&State, &Vis); 2] = [(&below, &vis[0]), (&above, &vis[1])];
    let mut paths = bases();
    paths.extend([p("c"), p("a/e")]);
    enum J<'a> {
        Q(&'a Path, &'a Query),
        A(&'a Path, &'a AggregateSumQuery),
    }
    let mut jobs: Vec<J> = vec![];
    for path in &paths {
        jobs.extend(qs.iter().map(|q| J::Q(path, q)));
    }
    let adds = [p("a"), p("b"), p("z"), p("e"), p("a/e")];
    for path in &adds {
        jobs.extend(aggs.iter().map(|q| J::A(path, q)));
    }
    ctx.bound(format!(
        "{name}: {} queries x {} paths, {} aggregate sums x {} paths, in and outside of a transaction",
        qs.len(),
        paths.len(),
        aggs.len(),
        adds.len()
    ));
    let chunks: Vec<&[J]> = jobs.chunks(64).collect();
    let limits: &[(Option<u16>, Option<u16>)] = &[
        (None, None),
        (Some(1), None),
        (Some(3), None),
        (Some(20), None),
        (Some(2), Some(1)),
        (None, Some(1)),
    ];
    ctx.par(&chunks, |chunk| {
        let db = Db::at(&below.snap);
        let tx = db.start_transaction();
        for op in whole[from..].iter() {
            let (out, e) = act(&db, op, Some(&tx));
            assert!(out != Out::Err, "{name} {}: {e:?}", op.show());
        }
        for job in chunk.iter() {
            for (side, (st, vis)) in sides.iter().enumerate() {
                let w = W { m: &st.model, vis };
                let t = (side == 1).then_some(&tx);
                let inside = side == 1;
                match job {
                    J::Q(path, q) => {
                        if into_data(&w, path, q) {
                            continue;
                        }
                        for (limit, offset) in limits {
                            for (n, (decrease, strict)) in [(true, true), (false, false), (true, false), (false, true)].into_iter().enumerate() {
                                if !ctx.thorough && n > 1 {
                                    continue;
                                }
                                for cache in [true, false] {
                                    ctx.step();
                                    ctx.case(
                                        || format!("{name}; {} {q} limit {limit:?} offset {offset:?} decrease {decrease} strict {strict} cache {cache} inside {inside}", show_path(path)),
                                        || readers(&w, &db, path, q, *limit, *offset, How { cache, decrease, strict, tx: t }),
                                    );
                                }
                            }
                        }
                        if let Ok((rows, _)) = expected(&w, path, q, None, None, &How { cache: true, decrease: true, strict: false, tx: None }) {
                            ctx.case(
                                || format!("{name}; conversions of {} {q}: {}", show_path(path), show_rows(&rows)),
                                || convert(&rows),
                            );
                        }
                    }
                    J::A(path, q) => {
                        ctx.step();
                        ctx.case(
                            || format!("{name}; aggregate {} {q} inside {inside}", show_path(path)),
                            || aggregate(&w, &db, path, q, t),
                        );
                    }
                }
            }
        }
    });
    // pairs
    let some: Vec<(Path, Query)> = pairs();
    ctx.bound(format!("{name}: all pairs of {} queries", some.len()));
    ctx.par(&some, |(pa, qa)| {
        let db = Db::at(&below.snap);
        let tx = db.start_transaction();
        for op in whole[from..].iter() {
            let _ = act(&db, op, Some(&tx));
        }
        for (pb, qb) in pairs() {
            for limit in [None, Some(2)] {
                for (side, (st, vis)) in sides.iter().enumerate() {
                    let w = W { m: &st.model, vis };
                    ctx.step();
                    let a = PathQuery::new(pa.clone(), SizedQuery::new(qa.clone(), limit, None));
                    let b = PathQuery::new(pb.clone(), SizedQuery::new(qb.clone(), None, None));
                    ctx.case(
                        || format!("{name}; both {} {qa} and {} {qb} limit {limit:?} inside {}", show_path(pa), show_path(&pb), side == 1),
                        || many(&w, &db, &a, &b, How { cache: true, decrease: true, strict: false, tx: (side == 1).then_some(&tx) }),
                    );
                }
            }
        }
    });
}

fn pairs() -> Vec<(Path, Query)> {
    let mut out = vec![];
    for path in ["", "a", "b", "c", "a/e", "b/1"] {
        for q in [
            query(vec![QueryItem::RangeFull(..)], true),
            query(vec![key("a")], true),
            query(vec![key("c"), key("d")], true),
            query(vec![QueryItem::RangeTo(..k("c"))], false),
        ] {
            out.push((p(path), q));
        }
    }
    out
}

/// Point reads after each operation, inside and outside of a transaction.
fn points(ctx: &Ctx, name: &str, ops: &[Op]) {
    let states: Vec<State> = (0..=ops.len()).map(|n| initial(&ops[..n]).unwrap()).collect();
    ctx.bound(format!("{name}: point reads in and outside of a transaction at every two of {} states", states.len()));
    let from: Vec<usize> = (0..ops.len()).collect();
    ctx.par(&from, |from| {
        let db = Db::at(&states[*from].snap);
        let tx = db.start_transaction();
        for n in *from..ops.len() {
            ctx.step();
            ctx.state(&snap_bytes(&states[n].snap));
            let _ = act(&db, &ops[n], Some(&tx));
            ctx.case(
                || format!("{name}; operations {from} to {n} in a transaction"),
                || {
                    reads_in(&db, &states[n + 1].model, Some(&tx)).map_err(|e| format!("inside: {e}"))?;
                    reads_in(&db, &states[*from].model, None).map_err(|e| format!("outside: {e}"))
                },
            );
        }
    });
}

fn run(ctx: &Ctx) {
    let qs = asked(ctx.thorough);
    let none = vec![];
    let more = |x: &[(&str, &str, Element)]| -> Vec<Op> { x.iter().map(|(a, b, e)| Op::Insert(p(a), k(b), e.clone())).collect() };
    let kinds = kinds();
    over(
        ctx,
        "kinds",
        &kinds,
        20,
        &[
            more(&[("a", "a", Element::new_sum_item(-9)), ("b/3", "z", item("z"))]),
            vec![Op::Delete(p("a"), k("c"))],
        ]
        .concat(),
        &qs,
        &none,
    );
    points(ctx, "kinds", &kinds);
    let sums = sums();
    over(
        ctx,
        "sums",
        &sums,
        sums.len() - 12,
        &more(&[("a", "b", Element::new_sum_item(6))]),
        &qs[..if ctx.thorough { qs.len() } else { 20 }],
        &aggregates(ctx.thorough),
    );
    points(ctx, "sums", &sums);
    if ctx.thorough {
        for (name, ops) in crate::queries::worlds() {
            over(ctx, name, &ops, ops.len() / 2, &[], &qs, &none);
            points(ctx, name, &ops);
        }
    }
}
