//! D13: proofs of entries of append-only trees.
use grovedb::{Element, GroveDb, PathQuery, SizedQuery};
use grovedb_merk::proofs::{query::QueryItem, Query};
use grovedb_version::version::GroveVersion;
use kit::{ensure, Ctx, Res, Spec};

use crate::{
    audit::{show_path, Hash, Path},
    engine::{initial, snap_bytes, Db, State},
    maps::{item, k, p},
    model::{join, v, Key, Op},
    proofs::{agree, expect, opt_rows, raw_rows, truth, Vis},
    queries::{contains, query, Row},
};

pub fn spec() -> Spec {
    Spec {
        id: "D13",
        level: "model_checking",
        run: d13,
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Mmr,
    Bulk(u8),
    Dense(u8),
}
impl Kind {
    fn empty(self) -> Element {
        match self {
            Kind::Mmr => Element::empty_mmr_tree(),
            Kind::Bulk(c) => Element::empty_bulk_append_tree(c).expect("bulk"),
            Kind::Dense(h) => Element::empty_dense_tree(h),
        }
    }
    fn append(self, path: &Path, key: &str, val: Vec<u8>) -> Op {
        match self {
            Kind::Mmr => Op::Mmr(path.clone(), k(key), val),
            Kind::Bulk(_) => Op::Bulk(path.clone(), k(key), val),
            Kind::Dense(_) => Op::Dense(path.clone(), k(key), val),
        }
    }
    pub fn key(self, i: u64) -> Key {
        match self {
            Kind::Dense(_) => (i as u16).to_be_bytes().to_vec(),
            _ => i.to_be_bytes().to_vec(),
        }
    }
    fn top(self) -> u64 {
        match self {
            Kind::Dense(_) => u16::MAX as u64,
            _ => u64::MAX,
        }
    }
    pub fn name(self) -> String {
        match self {
            Kind::Mmr => "mmr".into(),
            Kind::Bulk(c) => format!("bulk{c}"),
            Kind::Dense(h) => format!("dense{h}"),
        }
    }
}

fn val(i: u64) -> Vec<u8> {
    vec![b'v'; i as usize % 4].into_iter().chain([i as u8]).collect()
}

/// The real operations, and the same with plain trees.
pub fn worlds(kind: Kind, n: u64) -> (Vec<Op>, Vec<Op>) {
    let (mut a, mut b) = (vec![], vec![]);
    let both = |a: &mut Vec<Op>, b: &mut Vec<Op>, o: Op| {
        a.push(o.clone());
        b.push(o);
    };
    both(&mut a, &mut b, Op::Insert(vec![], k("a"), item("A")));
    both(&mut a, &mut b, Op::Insert(vec![], k("t"), Element::empty_sum_tree()));
    both(&mut a, &mut b, Op::Insert(p("t"), k("u"), Element::new_sum_item(9)));
    both(&mut a, &mut b, Op::Insert(vec![], k("z"), item("Z")));
    for (path, key, n) in [("", "m", n), ("t", "m", n / 2), ("", "o", 1)] {
        let path = p(path);
        a.push(Op::Insert(path.clone(), k(key), kind.empty()));
        b.push(Op::Insert(path.clone(), k(key), Element::empty_tree()));
        for i in 0..n {
            a.push(kind.append(&path, key, val(i)));
            b.push(Op::Insert(
                join(&path, &k(key)),
                kind.key(i),
                Element::new_item(val(i)),
            ));
        }
    }
    (a, b)
}

fn items(kind: Kind, n: u64) -> Vec<QueryItem> {
    let mut at: Vec<u64> = (0..n + 2).collect();
    at.push(kind.top());
    let key = |i: u64| kind.key(i);
    let mut out = vec![QueryItem::RangeFull(..)];
    for a in &at {
        out.push(QueryItem::Key(key(*a)));
        out.push(QueryItem::RangeFrom(key(*a)..));
        out.push(QueryItem::RangeTo(..key(*a)));
        out.push(QueryItem::RangeToInclusive(..=key(*a)));
        out.push(QueryItem::RangeAfter(key(*a)..));
        for b in &at {
            if a < b {
                out.push(QueryItem::Range(key(*a)..key(*b)));
                out.push(QueryItem::RangeInclusive(key(*a)..=key(*b)));
                out.push(QueryItem::RangeAfterTo(key(*a)..key(*b)));
                out.push(QueryItem::RangeAfterToInclusive(key(*a)..=key(*b)));
            }
        }
    }
    out
}

fn sets(kind: Kind, n: u64) -> Vec<Vec<QueryItem>> {
    let all = items(kind, n);
    let mut out: Vec<Vec<QueryItem>> = all.iter().map(|i| vec![i.clone()]).collect();
    let probes: Vec<Key> = (0..n + 3)
        .chain([kind.top() - 1, kind.top()])
        .map(|i| kind.key(i))
        .collect();
    for (x, a) in all.iter().enumerate() {
        for b in &all[..x] {
            let hits = |i: &QueryItem| probes.iter().filter(|q| contains(i, q)).count();
            if hits(a) == 0 || hits(b) == 0 || probes.iter().any(|q| contains(a, q) && contains(b, q)) {
                continue;
            }
            let mut q = Query::new();
            q.insert_items(vec![a.clone(), b.clone()]);
            if q.items.len() == 2 {
                out.push(q.items);
            }
        }
    }
    out
}

pub fn queries(leaf: &Query) -> Vec<(Path, Query)> {
    let mut out = vec![(p("m"), leaf.clone()), (p("t/m"), leaf.clone())];
    for (path, items) in [
        ("", vec![QueryItem::Key(k("m"))]),
        ("", vec![QueryItem::RangeFull(..)]),
        ("t", vec![QueryItem::RangeFull(..)]),
    ] {
        let mut q = query(items, leaf.left_to_right);
        q.default_subquery_branch.subquery = Some(Box::new(leaf.clone()));
        out.push((p(path), q));
    }
    let mut q = query(vec![QueryItem::Key(k("t"))], leaf.left_to_right);
    q.default_subquery_branch.subquery = Some(Box::new(leaf.clone()));
    q.default_subquery_branch.subquery_path = Some(vec![k("m")]);
    out.push((vec![], q));
    out
}

struct Truth {
    kind: Kind,
    st: State,
    vis: Vis,
    data: Vec<Path>,
    real: Vis,
}

impl Truth {
    /// Is there a non-empty data tree below the query that gives no rows?
    fn selects_none(&self, rows: &[Row], path: &Path, q: &Query) -> bool {
        self.data.iter().any(|d| {
            let (front, key) = (&d[..d.len() - 1], &d[d.len() - 1]);
            let asked = path == d
                || path.as_slice() == front && q.items.iter().any(|i| contains(i, key))
                || d.len() == path.len() + 2; // below the tree t
            let full = matches!(self.real[d], Element::MmrTree(n, _) if n > 0);
            asked && full && !rows.iter().any(|(p, ..)| p == d)
        })
    }
    fn rows(&self, path: &Path, q: &Query) -> (Vec<Row>, usize) {
        let (rows, empties) = truth(&self.st.model, &self.vis, path, q);
        let rows = rows
            .into_iter()
            .map(|(p, k, e)| {
                let at = join(&p, &k);
                let e = if self.data.contains(&at) { self.real[&at].clone() } else { e };
                (p, k, e)
            })
            .collect();
        (rows, empties)
    }
}

fn check(db: &Db, root: &Hash, t: &Truth, path: &Path, q: &Query, limit: Option<u16>, gv: &GroveVersion) -> Res {
    let pq = PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, None));
    let (want, empties) = t.rows(path, q);
    let proof = match db.prove_query(&pq, None, gv).unwrap() {
        Ok(p) => p,
        // a proof that no leaf of an MMR is selected does not exist
        Err(e) => {
            ensure!(
                t.kind == Kind::Mmr && t.selects_none(&want, path, q),
                "prove_query: {e:?}"
            );
            return Ok(());
        }
    };
    let shown = expect(&t.st.model, &want);
    let hidden = want.len() - shown.len();
    let (h, r) = GroveDb::verify_query_raw(&proof, &pq, gv)
        .map_err(|e| format!("verify_query_raw: {e:?}"))?;
    ensure!(h == *root, "verify_query_raw: another root hash");
    agree(&raw_rows(r)?, &want, limit, empties, "verify_query_raw")?;
    for (succinct, name) in [(true, "verify_query"), (false, "verify_subset_query")] {
        let (h, r) = if succinct {
            GroveDb::verify_query(&proof, &pq, gv)
        } else {
            GroveDb::verify_subset_query(&proof, &pq, gv)
        }
        .map_err(|e| format!("{name}: {e:?}"))?;
        ensure!(h == *root, "{name}: another root hash");
        agree(&opt_rows(r), &shown, limit, empties + hidden, name)?;
    }
    Ok(())
}

fn d13(ctx: &Ctx) {
    let mut kinds = vec![];
    for n in [0, 1, 2, 3, 4, 7] {
        kinds.push((Kind::Mmr, n));
    }
    for n in [0, 1, 2, 3, 4, 5, 6] {
        kinds.push((Kind::Bulk(1), n));
    }
    for n in [3, 4, 5, 9] {
        kinds.push((Kind::Bulk(2), n));
    }
    for n in [0, 1, 2, 3] {
        kinds.push((Kind::Dense(2), n));
    }
    for n in [4, 7] {
        kinds.push((Kind::Dense(3), n));
    }
    for (kind, n) in kinds {
        let (a, b) = worlds(kind, n);
        let st = initial(&a).unwrap_or_else(|e| panic!("{e}"));
        let plain = initial(&b).unwrap_or_else(|e| panic!("{e}"));
        ctx.state(&snap_bytes(&st.snap));
        let t = Truth {
            kind,
            vis: plain.model.visible(),
            st: plain,
            data: vec![p("m"), p("t/m"), p("o")],
            real: st.model.visible(),
        };
        let leaves: Vec<Query> = sets(kind, n)
            .into_iter()
            .flat_map(|s| [query(s.clone(), true), query(s, false)])
            .collect();
        ctx.bound(format!("{} with {n} entries: {} queries x 6 paths x limits", kind.name(), leaves.len()));
        let chunks: Vec<&[Query]> = leaves.chunks(16).collect();
        ctx.par(&chunks, |chunk| {
            let db = Db::at(&st.snap);
            for leaf in chunk.iter() {
                for (path, q) in queries(leaf) {
                    for limit in [None, Some(1), Some(2), Some(3), Some(5)] {
                        ctx.step();
                        ctx.case(
                            || format!("{} {n}; {} {q} limit {limit:?}", kind.name(), show_path(&path)),
                            || check(&db, &st.audit.root_hash, &t, &path, &q, limit, v()),
                        );
                    }
                }
            }
        });
    }
}
