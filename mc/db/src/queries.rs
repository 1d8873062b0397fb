//! Query semantics: a specification over the model, generators of path
//! queries, and the check that `query*` return what is specified.
use grovedb::{
    query_result_type::{QueryResultElement, QueryResultType},
    reference_path::ReferencePathType,
    Element, PathQuery, SizedQuery,
};
use grovedb_merk::proofs::{query::{QueryItem, SubqueryBranch}, Query};
use kit::{ensure, Ctx, Res};

use crate::{
    audit::Path,
    engine::{initial, Db, State},
    maps::{item, k, p},
    model::{join, resolve, v, Key, Model, Op},
};

pub type Row = (Path, Key, Element);

pub fn contains(i: &QueryItem, key: &[u8]) -> bool {
    use QueryItem::*;
    match i {
        Key(a) => key == a,
        Range(r) => key >= r.start.as_slice() && key < r.end.as_slice(),
        RangeInclusive(r) => key >= r.start().as_slice() && key <= r.end().as_slice(),
        RangeFull(_) => true,
        RangeFrom(r) => key >= r.start.as_slice(),
        RangeTo(r) => key < r.end.as_slice(),
        RangeToInclusive(r) => key <= r.end.as_slice(),
        RangeAfter(r) => key > r.start.as_slice(),
        RangeAfterTo(r) => key > r.start.as_slice() && key < r.end.as_slice(),
        RangeAfterToInclusive(r) => key > r.start().as_slice() && key <= r.end().as_slice(),
    }
}

#[derive(Clone, Copy)]
pub struct Flags {
    /// the limit goes down when a subtree has no results
    pub decrease: bool,
    /// a path that a query by key leads to has to exist
    pub strict: bool,
}

/// Why no rows are returned.
#[derive(Debug, Clone, PartialEq)]
pub struct Refused;

/// State of an evaluation.
pub struct Eval<'a> {
    pub m: &'a Model,
    pub agg: &'a std::collections::BTreeMap<Path, Element>,
    pub limit: Option<u16>,
    pub offset: u16,
    pub flags: Flags,
    pub rows: Vec<Row>,
    /// lookups that gave nothing
    pub empties: usize,
    /// references are left as they are stored
    pub plain: bool,
    /// nothing is refused
    pub lenient: bool,
    /// trees that are gone below are results where the query says so
    pub parents: bool,
    /// something below a tree of data was asked for
    pub into_data: bool,
}

pub fn branch<'q>(q: &'q Query, key: &[u8]) -> &'q SubqueryBranch {
    q.conditional_subquery_branches
        .iter()
        .flatten()
        .find(|(i, _)| contains(i, key))
        .map(|(_, b)| b)
        .unwrap_or(&q.default_subquery_branch)
}

impl<'a> Eval<'a> {
    pub fn new(
        m: &'a Model,
        agg: &'a std::collections::BTreeMap<Path, Element>,
        flags: Flags,
    ) -> Eval<'a> {
        Eval {
            m,
            agg,
            limit: None,
            offset: 0,
            flags,
            rows: vec![],
            empties: 0,
            plain: false,
            lenient: false,
            parents: false,
            into_data: false,
        }
    }
    fn done(&self) -> bool {
        self.limit == Some(0)
    }
    fn take(&mut self, n: u16) {
        if let Some(l) = &mut self.limit {
            *l = l.saturating_sub(n);
        }
    }
    fn push(&mut self, path: &[Vec<u8>], key: &[u8], e: &Element) {
        if self.offset > 0 {
            self.offset -= 1;
            return;
        }
        self.rows
            .push((path.to_vec(), key.to_vec(), self.show(path, key, e)));
        self.take(1);
    }
    fn show(&self, path: &[Vec<u8>], key: &[u8], e: &Element) -> Element {
        match e {
            Element::Reference(r, h, f) if !self.plain => Element::Reference(
                ReferencePathType::AbsolutePathReference(resolve(r, &join(path, key)).unwrap()),
                *h,
                f.clone(),
            ),
            e => e.clone(),
        }
    }

    /// Is there a merk at this path?
    fn tree_at(&self, path: &[Vec<u8>]) -> bool {
        self.m.tree_kind(path).is_some()
    }

    /// Looking for a key below something that is no tree is an error; below a
    /// path that does not exist it depends on what was asked for.
    fn blocked(&self, path: &[Vec<u8>]) -> bool {
        !self.lenient && !self.tree_at(path) && (self.flags.strict || self.agg.contains_key(path))
    }

    pub fn run(&mut self, path: &[Vec<u8>], q: &Query) -> Result<(), Refused> {
        let kids: Vec<(Vec<u8>, Element)> = if self.tree_at(path) {
            self.m
                .children(path)
                .into_iter()
                .map(|(k, _)| {
                    let e = self.agg[&join(path, &k)].clone();
                    (k, e)
                })
                .collect()
        } else {
            vec![]
        };
        let mut items: Vec<&QueryItem> = q.items.iter().collect();
        if !q.left_to_right {
            items.reverse();
        }
        for i in items {
            if self.done() {
                break;
            }
            if matches!(i, QueryItem::Key(_)) && self.blocked(path) {
                return Err(Refused);
            }
            let mut sel: Vec<&(Vec<u8>, Element)> =
                kids.iter().filter(|(k, _)| contains(i, k)).collect();
            if !q.left_to_right {
                sel.reverse();
            }
            for (key, e) in sel {
                if self.done() {
                    break;
                }
                self.at(path, key, e, q)?;
            }
        }
        Ok(())
    }

    fn at(&mut self, path: &[Vec<u8>], key: &[u8], e: &Element, q: &Query) -> Result<(), Refused> {
        if !e.is_any_tree() {
            self.push(path, key, e);
            return Ok(());
        }
        let b = branch(q, key);
        let mut below = join(path, key);
        self.into_data |= !self.tree_at(&below) && (b.subquery.is_some() || b.subquery_path.is_some());
        if self.parents
            && q.add_parent_tree_on_subquery
            && (b.subquery.is_some() || b.subquery_path.is_some())
            && !self.m.children(&below).is_empty()
        {
            self.rows.push((below.clone(), key.to_vec(), e.clone()));
        }
        match (&b.subquery_path, &b.subquery) {
            (sp, Some(sub)) => {
                below.extend(sp.iter().flatten().cloned());
                let (n, off, limit) = (self.rows.len(), self.offset, self.limit);
                self.run(&below, sub)?;
                // each level counts what it was given from below
                self.limit = limit;
                self.take((self.rows.len() - n) as u16);
                if self.rows.len() == n && self.offset == off {
                    // nothing was there
                    self.empties += 1;
                    if self.flags.decrease {
                        self.take(1);
                    }
                }
            }
            (Some(sp), None) => {
                if self.offset > 0 {
                    self.offset -= 1;
                    return Ok(());
                }
                let (last, front) = sp.split_last().unwrap();
                below.extend(front.iter().cloned());
                if !self.tree_at(&below) {
                    self.empties += 1;
                    return if self.blocked(&below) { Err(Refused) } else { Ok(()) };
                }
                let full = join(&below, last);
                match self.agg.get(&full) {
                    Some(e) => {
                        let e = self.show(&below, last, e);
                        self.rows.push((below, last.clone(), e));
                    }
                    None => self.empties += 1,
                }
                self.take(1);
            }
            (None, None) => self.push(path, key, e),
        }
        Ok(())
    }
}

// ------------------------------------------------------------- generators

pub fn key(s: &str) -> QueryItem {
    QueryItem::Key(k(s))
}

/// Every kind of query item over some keys.
pub fn all_items(ks: &[&str]) -> Vec<QueryItem> {
    let mut out = vec![QueryItem::RangeFull(..)];
    for a in ks {
        out.push(key(a));
        out.push(QueryItem::RangeFrom(k(a)..));
        out.push(QueryItem::RangeTo(..k(a)));
        out.push(QueryItem::RangeToInclusive(..=k(a)));
        out.push(QueryItem::RangeAfter(k(a)..));
        for b in ks {
            if a < b {
                out.push(QueryItem::Range(k(a)..k(b)));
                out.push(QueryItem::RangeInclusive(k(a)..=k(b)));
                out.push(QueryItem::RangeAfterTo(k(a)..k(b)));
                out.push(QueryItem::RangeAfterToInclusive(k(a)..=k(b)));
            }
        }
    }
    out
}

/// Sets of at most two items that do not touch each other.
pub fn item_sets(ks: &[&str], pairs: bool) -> Vec<Vec<QueryItem>> {
    let all = all_items(ks);
    let mut out: Vec<Vec<QueryItem>> = all.iter().map(|i| vec![i.clone()]).collect();
    if pairs {
        let probes: Vec<Vec<u8>> = ks
            .iter()
            .flat_map(|s| [k(s), [k(s), vec![0]].concat()])
            .chain([vec![], vec![255]])
            .collect();
        for (n, a) in all.iter().enumerate() {
            for b in &all[..n] {
                let on = |i: &QueryItem| -> Vec<usize> {
                    (0..probes.len()).filter(|x| contains(i, &probes[*x])).collect()
                };
                let (x, y) = (on(a), on(b));
                if x.is_empty() || y.is_empty() || x.iter().any(|i| y.contains(i)) {
                    continue;
                }
                let mut q = Query::new();
                q.insert_items(vec![a.clone(), b.clone()]);
                if q.items.len() == 2 {
                    out.push(q.items);
                }
            }
        }
    }
    out
}

pub fn query(items: Vec<QueryItem>, ltr: bool) -> Query {
    let mut q = Query::new_with_direction(ltr);
    q.items = items;
    q
}

pub fn sub(path: Option<&[&str]>, q: Option<Query>) -> SubqueryBranch {
    SubqueryBranch {
        subquery_path: path.map(|p| p.iter().map(|s| k(s)).collect()),
        subquery: q.map(Box::new),
    }
}

/// Queries without subqueries, in both directions.
pub fn leaves(ks: &[&str], pairs: bool) -> Vec<Query> {
    let mut out = vec![];
    for i in item_sets(ks, pairs) {
        out.push(query(i.clone(), true));
        out.push(query(i, false));
    }
    out
}

/// A representative of each way of going on below an element.
pub fn branches(deep: bool) -> Vec<SubqueryBranch> {
    let full = |l| query(vec![QueryItem::RangeFull(..)], l);
    let mut out = vec![
        sub(None, None),
        sub(Some(&["a"]), None),
        sub(Some(&["z"]), None),
        sub(Some(&["b", "a"]), None),
        sub(None, Some(full(true))),
        sub(None, Some(full(false))),
        sub(None, Some(query(vec![key("a")], true))),
        sub(None, Some(query(vec![key("z")], true))),
        sub(None, Some(query(vec![QueryItem::RangeAfter(k("a")..)], false))),
        sub(Some(&["b"]), Some(full(true))),
        sub(Some(&["b"]), Some(query(vec![key("a")], true))),
        sub(Some(&["b", "a"]), Some(full(false))),
    ];
    if deep {
        let two = |b: SubqueryBranch, l| {
            let mut q = full(l);
            q.default_subquery_branch = b;
            q
        };
        for b in branches(false).into_iter().skip(1) {
            out.push(sub(None, Some(two(b.clone(), true))));
            out.push(sub(Some(&["b"]), Some(two(b, false))));
        }
    }
    out
}

/// Two levels: every shape of items with every branch.
pub fn nested(items: &[Vec<QueryItem>], deep: bool, cond: bool) -> Vec<Query> {
    let mut out = vec![];
    let bs = branches(deep);
    for i in items {
        for l in [true, false] {
            for b in &bs {
                let mut q = query(i.clone(), l);
                q.default_subquery_branch = b.clone();
                out.push(q.clone());
                if cond {
                    for on in [key("a"), QueryItem::RangeFrom(k("b")..)] {
                        for c in branches(false) {
                            if c == *b {
                                continue;
                            }
                            let mut q = q.clone();
                            q.conditional_subquery_branches =
                                Some([(on.clone(), c)].into_iter().collect());
                            out.push(q);
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn shapes() -> Vec<Vec<QueryItem>> {
    vec![
        vec![QueryItem::RangeFull(..)],
        vec![key("a")],
        vec![key("b")],
        vec![key("z")],
        vec![key("a"), key("c")],
        vec![key("a"), QueryItem::RangeAfter(k("b")..)],
        vec![QueryItem::Range(k("a")..k("c"))],
        vec![QueryItem::RangeTo(..k("b")), key("d")],
    ]
}

/// Databases that queries are run against.
pub fn worlds() -> Vec<(&'static str, Vec<Op>)> {
    let t = Element::empty_tree;
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let abs = |s: &str| {
        Element::new_reference(ReferencePathType::AbsolutePathReference(p(s)))
    };
    let tri = |kind: fn() -> Element, other: fn() -> Element| {
        vec![
            ins("", "a", kind()),
            ins("", "b", other()),
            ins("", "c", item("root-c")),
            ins("", "d", t()),
            ins("", "e", kind()),
            ins("a", "a", item("aa")),
            ins("a", "b", t()),
            ins("a", "c", item("ac")),
            ins("a", "d", item("ad")),
            ins("a/b", "a", item("aba")),
            ins("a/b", "b", kind()),
            ins("a/b", "c", item("abc")),
            ins("a/b/b", "a", item("abba")),
            ins("b", "a", t()),
            ins("b", "b", other()),
            ins("b", "c", abs("a/a")),
            ins("b/a", "b", item("bab")),
            ins("b/b", "a", other()),
            ins("b/b", "c", Element::new_reference(ReferencePathType::CousinReference(k("a")))),
            ins("b/b/a", "a", item("bbaa")),
            ins("b/b/a", "b", abs("b/c")),
            ins("e", "b", t()),
            ins("e/b", "a", t()),
        ]
    };
    let mut w = tri(t, t);
    // a cousin reference needs its target
    w.insert(
        w.iter().position(|o| o.show().starts_with("insert /b/b/c")).unwrap(),
        ins("b/a", "c", item("bac")),
    );
    let mut w2 = tri(Element::empty_sum_tree, Element::empty_count_tree);
    w2.insert(20, ins("b/a", "c", item("bac")));
    w2.push(ins("a", "s", Element::new_sum_item(7)));
    let pos = w2.iter().position(|o| o.show().starts_with("insert /b/b/c")).unwrap();
    let extra = w2.remove(20);
    w2.insert(pos.min(20), extra);
    let mut w3 = tri(Element::empty_provable_count_tree, Element::empty_provable_count_sum_tree);
    let pos = w3.iter().position(|o| o.show().starts_with("insert /b/b/c")).unwrap();
    w3.insert(pos, ins("b/a", "c", item("bac")));
    vec![
        ("plain", w),
        ("sum and count", w2),
        ("provable count", w3),
    ]
}

pub fn limits(t: bool) -> Vec<Option<u16>> {
    if t {
        vec![None, Some(0), Some(1), Some(2), Some(3), Some(4)]
    } else {
        vec![None, Some(0), Some(1), Some(2)]
    }
}

pub fn rows(r: grovedb::query_result_type::QueryResultElements) -> Vec<Row> {
    r.elements
        .into_iter()
        .map(|e| match e {
            QueryResultElement::PathKeyElementTrioResultItem((p, k, e)) => (p, k, e),
            other => panic!("{other:?}"),
        })
        .collect()
}

pub fn show_rows(r: &[Row]) -> String {
    r.iter()
        .map(|(p, k, e)| {
            format!("{}={}", crate::audit::show_path(&join(p, k)), crate::model::show_el(e))
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// Runs one query on the database and compares it with the specification.
pub fn check_query(db: &Db, st: &State, vis: &std::collections::BTreeMap<Path, Element>, path: &Path, q: &Query, limit: Option<u16>, offset: Option<u16>, flags: Flags) -> Res {
    let mut e = Eval::new(&st.model, vis, flags);
    e.limit = limit;
    e.offset = offset.unwrap_or(0);
    let want = e.run(path, q).map(|_| (e.rows, offset.unwrap_or(0) - e.offset));
    let pq = PathQuery::new(path.clone(), SizedQuery::new(q.clone(), limit, offset));
    let got = db
        .query_raw(
            &pq,
            true,
            flags.decrease,
            flags.strict,
            QueryResultType::QueryPathKeyElementTrioResultType,
            None,
            v(),
        )
        .unwrap()
        .map(|(r, s)| (rows(r).into_iter().map(|(p, k, e)| (p, k, crate::model::no_root(&e))).collect::<Vec<_>>(), s));
    match (&got, &want) {
        (Ok(g), Ok(w)) if g == w => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (Ok((g, s)), Ok((w, ws))) => {
            ensure!(
                g == w,
                "query_raw gave [{}], expected [{}]",
                show_rows(g),
                show_rows(w)
            );
            ensure!(s == ws, "query_raw skipped {s}, expected {ws}");
            Ok(())
        }
        (Ok((g, _)), Err(_)) => Err(format!("query_raw gave [{}], expected an error", show_rows(g))),
        (Err(e), Ok((w, _))) => Err(format!("query_raw: {e:?}, expected [{}]", show_rows(w))),
    }
}

pub fn bases() -> Vec<Path> {
    ["", "a", "b", "a/b", "b/b", "d", "z", "a/z"].iter().map(|s| p(s)).collect()
}

/// Seven layers of trees, for queries that go down by paths of several keys.
pub fn deep_world() -> Vec<Op> {
    let mut ops = vec![];
    let mut at: Vec<Path> = vec![vec![]];
    for depth in 0..7 {
        let mut below = vec![];
        for path in at {
            for key in [k("a"), k("b")] {
                // not everywhere
                let leaf = depth == 6 || path.ends_with(&[k("b"), k("b")]) && key == k("b");
                if leaf {
                    ops.push(Op::Insert(path.clone(), key, crate::maps::item("x")));
                } else {
                    ops.push(Op::Insert(path.clone(), key.clone(), grovedb::Element::empty_tree()));
                    below.push(join(&path, &key));
                }
            }
            ops.push(Op::Insert(path, k("c"), crate::maps::item("c")));
        }
        at = below;
    }
    ops
}

/// Queries that go down by paths of up to three keys, again and again.
pub fn deep_queries(levels: usize) -> Vec<Query> {
    let full = || query(vec![QueryItem::RangeFull(..)], true);
    let tails = vec![full(), query(vec![key("b")], false)];
    let mut all = tails.clone();
    for level in 0..levels {
        let last = level + 1 == levels;
        let mut next = vec![];
        let paths: [&[&str]; 4] = [&[], &["b"], &["a", "b"], &["b", "a", "b"]];
        for items in [vec![QueryItem::RangeFull(..)], vec![key("a"), key("c")]] {
            for path in paths {
                let path = Some(path).filter(|p| !p.is_empty());
                for tail in all.iter().map(Some).chain([None]) {
                    if path.is_none() && tail.is_none() {
                        continue;
                    }
                    let mut q = query(items.clone(), last || level % 2 == 1);
                    q.default_subquery_branch = sub(path, tail.cloned());
                    next.push(q);
                }
            }
        }
        // a branch of its own for one key
        for tail in all.iter().map(Some).chain([None]) {
            for path in &paths[1..] {
                for on in [key("a"), QueryItem::RangeFrom(k("a")..)] {
                    let mut q = full();
                    q.default_subquery_branch = sub(Some(&["b"]), Some(tails[1].clone()));
                    q.conditional_subquery_branches = Some([(on, sub(Some(path), tail.cloned()))].into_iter().collect());
                    next.push(q);
                }
            }
        }
        all = next;
    }
    all
}

pub fn deep_bases() -> Vec<Path> {
    ["", "a/b", "a/b/a", "a/a/b/a/b"].iter().map(|s| p(s)).collect()
}

pub fn d08(ctx: &Ctx) {
    deep(ctx);
    for (name, ops) in worlds() {
        let st = initial(&ops).unwrap_or_else(|e| panic!("{name}: {e}"));
        ctx.state(&crate::engine::snap_bytes(&st.snap));
        let vis = st.model.visible();
        let mut qs = leaves(&["a", "b", "c", "e"], true);
        qs.extend(nested(&shapes(), true, true));
        if ctx.thorough {
            qs.extend(nested(&item_sets(&["a", "b", "d"], true), true, false));
        }
        ctx.bound(format!(
            "world {name}: {} queries x {} paths x limits x offsets x flags",
            qs.len(),
            bases().len()
        ));
        let jobs: Vec<(usize, Path)> = (0..qs.len())
            .flat_map(|i| bases().into_iter().map(move |b| (i, b)))
            .collect();
        let chunks: Vec<&[(usize, Path)]> = jobs.chunks(64).collect();
        ctx.par(&chunks, |chunk| {
            let db = Db::at(&st.snap);
            for (i, base) in chunk.iter() {
                let q = &qs[*i];
                for limit in limits(ctx.thorough) {
                    for offset in [None, Some(1), Some(2)] {
                        for (decrease, strict) in
                            [(true, true), (true, false), (false, true), (false, false)]
                        {
                            ctx.step();
                            ctx.case(
                                || {
                                    format!(
                                        "{name}; {} {q} limit {limit:?} offset {offset:?} decrease {decrease} strict {strict}",
                                        crate::audit::show_path(base)
                                    )
                                },
                                || check_query(&db, &st, &vis, base, q, limit, offset, Flags { decrease, strict }),
                            );
                        }
                    }
                }
            }
        });
    }
}

fn deep(ctx: &Ctx) {
    let st = initial(&deep_world()).unwrap_or_else(|e| panic!("deep: {e}"));
    ctx.state(&crate::engine::snap_bytes(&st.snap));
    let vis = st.model.visible();
    let qs = deep_queries(ctx.pick(2, 3));
    ctx.bound(format!("seven layers: {} queries x {} paths x limits", qs.len(), deep_bases().len()));
    let chunks: Vec<&[Query]> = qs.chunks(16).collect();
    ctx.par(&chunks, |chunk| {
        let db = Db::at(&st.snap);
        for q in chunk.iter() {
            for base in deep_bases() {
                for (limit, offset) in [(None, None), (Some(2), None), (Some(1), Some(2))] {
                    if ctx.out_of_time() {
                        return;
                    }
                    ctx.step();
                    ctx.case(
                        || format!("deep; {} {q} limit {limit:?} offset {offset:?}", crate::audit::show_path(&base)),
                        || check_query(&db, &st, &vis, &base, q, limit, offset, Flags { decrease: true, strict: false }),
                    );
                }
            }
        }
    });
}
