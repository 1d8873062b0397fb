//! D19: the database's verification of itself. What it reports is compared
//! with what an independent reader of the raw entries finds, for every single
//! alteration of every record of the states of a set of histories.
use std::collections::{BTreeMap, BTreeSet};

use grovedb::{reference_path::ReferencePathType, Element};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use rocksdb::Snapshot;

use crate::{
    audit::{combine, decode_node, node_hash, prefix, show_path, value_hash, Hash, Kind, Node, Path, NULL},
    engine::{initial, snap_bytes, step, Db, State},
    entries,
    maps::{item, k, p},
    model::{join, resolve, v, Op},
    queries,
};

pub fn spec() -> Spec {
    Spec {
        id: "D19",
        level: "model_checking",
        run,
    }
}

/// Every node record by its full path, as far as the raw entries lead.
struct Raw {
    nodes: BTreeMap<Path, Node>,
    kinds: BTreeMap<Path, Kind>,
}

fn raw(s: &Snapshot) -> Result<Raw, String> {
    let mut out = Raw {
        nodes: BTreeMap::new(),
        kinds: BTreeMap::new(),
    };
    let mut todo = vec![(vec![], Kind::Normal)];
    while let Some((path, kind)) = todo.pop() {
        out.kinds.insert(path.clone(), kind);
        let pre = prefix(&path);
        for (key, bytes) in s.cf("default").unwrap().range(pre.to_vec()..).take_while(|(k, _)| k.starts_with(&pre)) {
            let node = decode_node(bytes)?;
            let full = join(&path, &key[32..]);
            if let Some(kind) = Kind::of(&node.element) {
                todo.push((full.clone(), kind));
            }
            out.nodes.insert(full, node);
        }
    }
    Ok(out)
}

fn root_key(e: &Element) -> Option<Vec<u8>> {
    match e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => r.clone(),
        _ => None,
    }
}

type Data<'a> = &'a dyn Fn(&Path) -> Option<Hash>;

impl Raw {
    fn root_hash(&self, path: &Path, e: &Element) -> Result<Hash, ()> {
        let Some(key) = root_key(e) else { return Ok(NULL) };
        let n = self.nodes.get(&join(path, &key)).ok_or(())?;
        let h = |l: &Option<crate::audit::Link>| l.as_ref().map_or(NULL, |l| l.hash);
        let c = |l: &Option<crate::audit::Link>| l.as_ref().map_or(0, |l| l.agg.count);
        let count = n.own.count + c(&n.left) + c(&n.right);
        Ok(node_hash(&n.kv_hash, &h(&n.left), &h(&n.right), self.kinds[path].provable().then_some(count)))
    }
    /// The element at the end of a chain of references.
    fn end(&self, at: &Path) -> Result<&Node, ()> {
        let mut at = at.clone();
        for _ in 0..12 {
            let n = self.nodes.get(&at).ok_or(())?;
            let Element::Reference(r, ..) = &n.element else { return Ok(n) };
            at = resolve(r, &at).ok_or(())?;
        }
        Err(())
    }
    /// The elements whose recorded hash isn't that of what they hold. `data`
    /// gives the state roots of the data trees.
    fn wrong(&self, refs: bool, data: Data) -> Result<BTreeSet<Path>, ()> {
        let mut out = BTreeSet::new();
        for (full, n) in &self.nodes {
            let own = value_hash(&n.value);
            let want = match &n.element {
                Element::Reference(..) if !refs => continue,
                Element::Reference(r, ..) => {
                    let end = self.end(&resolve(r, full).ok_or(())?)?;
                    combine(&own, &value_hash(&end.value))
                }
                e if Kind::of(e).is_some() => combine(&own, &self.root_hash(full, e)?),
                e if e.is_any_tree() => data(full).map_or(NULL, |d| combine(&own, &d)),
                _ => own,
            };
            if want != n.value_hash {
                out.insert(full.clone());
            }
        }
        Ok(out)
    }
}

fn reported(s: &Snapshot, refs: bool, cache: bool) -> Result<BTreeSet<Path>, String> {
    let db = Db::at(s);
    let got = db.verify_grovedb(None, refs, cache, v()).map_err(|e| format!("{e:?}"))?;
    let shown = db.visualize_verify_grovedb(None, refs, cache, v()).map_err(|e| format!("{e:?}"))?;
    let want: std::collections::HashMap<_, _> = got
        .iter()
        .map(|(p, (a, b, c))| {
            (
                p.iter().map(|s| kit::hex(s)).collect::<Vec<_>>().join("/"),
                (kit::hex(a), kit::hex(b), kit::hex(c)),
            )
        })
        .collect();
    if shown != want {
        return Err(format!("the report shows as {shown:?} instead of {want:?}"));
    }
    for (p, (_, a, b)) in &got {
        if a == b {
            return Err(format!("{} reported with equal hashes", show_path(p)));
        }
    }
    let tx = db.start_transaction();
    let inside = db.verify_grovedb(Some(&tx), refs, cache, v()).map_err(|e| format!("{e:?}"))?;
    if inside != got {
        return Err("another report in a transaction".into());
    }
    Ok(got.into_keys().collect())
}

fn show(s: &BTreeSet<Path>) -> String {
    s.iter().map(|p| show_path(p)).collect::<Vec<_>>().join(" ")
}

fn judge(s: &Snapshot, data: Data, may_fail: bool) -> Res {
    let raw = raw(s)?;
    for refs in [false, true] {
        let want = raw.wrong(refs, data);
        for cache in [false, true] {
            match (reported(s, refs, cache), &want) {
                (Ok(got), Ok(want)) => ensure!(
                    got == *want,
                    "references {refs} cache {cache}: reported [{}], wrong are [{}]",
                    show(&got),
                    show(want)
                ),
                (Err(_), Err(())) => {}
                (Ok(got), Err(())) => ensure!(!got.is_empty(), "references {refs} cache {cache}: nothing reported of a broken database"),
                (Err(e), Ok(want)) => ensure!(
                    may_fail && !want.is_empty(),
                    "references {refs} cache {cache}: {e}; wrong are [{}]",
                    show(want)
                ),
            }
        }
    }
    Ok(())
}

/// Other elements of the same kind and place in the tree.
fn others(e: &Element) -> Vec<Element> {
    let mut out = vec![];
    let mut with = |f: &dyn Fn(&mut Element)| {
        let mut x = e.clone();
        f(&mut x);
        if x != *e {
            out.push(x);
        }
    };
    for f in [None, Some(vec![]), Some(vec![7]), Some(vec![7, 7])] {
        with(&|x| *x.get_flags_mut() = f.clone());
    }
    with(&|x| match x {
        Element::Item(b, _) | Element::ItemWithSumItem(b, ..) => b.push(1),
        Element::SumItem(s, _) | Element::SumTree(_, s, _) | Element::CountSumTree(_, _, s, _) => *s += 1,
        Element::BigSumTree(_, s, _) => *s += 1,
        Element::CountTree(_, c, _) | Element::ProvableCountTree(_, c, _) => *c += 1,
        Element::ProvableCountSumTree(_, _, s, _) => *s -= 1,
        Element::Reference(_, h, _) => *h = Some(h.map_or(9, |h| h ^ 1)),
        _ => {}
    });
    with(&|x| match x {
        Element::Item(b, _) => *b = b"other".to_vec(),
        Element::ItemWithSumItem(_, s, _) => *s = -3,
        Element::CountSumTree(_, c, ..) | Element::ProvableCountSumTree(_, c, ..) => *c += 2,
        Element::Reference(r, ..) => *r = ReferencePathType::AbsolutePathReference(vec![k("a")]),
        _ => {}
    });
    out
}

fn altered(ctx: &Ctx, name: &str, st: &State, before: &[State]) {
    ctx.state(&snap_bytes(&st.snap));
    let at = |what: String| format!("{name}; {what}");
    let data = |p: &Path| st.model.state_root(p);
    ctx.step();
    ctx.case(|| at("unaltered".into()), || judge(&st.snap, &data, false));
    for (path, tree) in &st.audit.trees {
        let pre = prefix(path);
        for (key, node) in &tree.nodes {
            let full = join(path, key);
            let raw_key = [&pre[..], key].concat();
            let bytes = st.snap.cf("default").unwrap()[&raw_key].clone();
            let head = bytes.len() - node.value.len() - 64;
            let is_root = tree.root_key.as_ref() == Some(key);
            let mut alts: Vec<(String, Option<Vec<u8>>)> = vec![];
            for e in others(&node.element) {
                let mut b = bytes[..head + 64].to_vec();
                b.extend(e.serialize(v()).unwrap());
                alts.push((format!("{} is {}", show_path(&full), crate::model::show_el(&e)), Some(b)));
            }
            let mut flip = |name: &str, i: usize| {
                let mut b = bytes.clone();
                b[i] ^= 0x10;
                alts.push((format!("{} {name}", show_path(&full)), Some(b)));
            };
            flip("kv hash", head);
            flip("kv hash end", head + 31);
            flip("value hash", head + 32);
            flip("value hash end", head + 63);
            for (side, l) in [("left", &node.left), ("right", &node.right)] {
                if let Some(l) = l {
                    let i = bytes.windows(32).position(|w| w == l.hash).unwrap();
                    flip(&format!("{side} hash"), i);
                    flip(&format!("{side} hash end"), i + 31);
                }
            }
            if is_root && !path.is_empty() {
                alts.push((format!("{} gone", show_path(&full)), None));
            }
            for (what, b) in alts {
                ctx.step();
                let mut s = st.snap.clone();
                let gone = b.is_none();
                s.set("default", &raw_key, b);
                ctx.case(|| at(what), || judge(&s, &data, gone));
            }
        }
    }
    // a subtree as it was before
    for old in before {
        for (path, tree) in &st.audit.trees {
            let pre = prefix(path);
            let own = |s: &Snapshot| -> Vec<(Vec<u8>, Vec<u8>)> {
                s.cf("default").unwrap().iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k.clone(), v.clone())).collect()
            };
            let (was, is) = (own(&old.snap), own(&st.snap));
            // (the data of data trees stays, so these are left out)
            let data_trees = tree.nodes.values().any(|n| n.element.is_any_tree() && Kind::of(&n.element).is_none());
            if path.is_empty() || was == is || tree.nodes.is_empty() || data_trees {
                continue;
            }
            let mut s = st.snap.clone();
            for (k, _) in &is {
                s.set("default", k, None);
            }
            for (k, v) in &was {
                s.set("default", k, Some(v.clone()));
            }
            ctx.step();
            ctx.case(|| at(format!("{} as it was before step {}", show_path(path), old.hist.len())), || judge(&s, &data, true));
        }
    }
    // entries of data trees: those that the root is computed from
    for (path, entries) in &st.audit.data {
        let mut seen = 0;
        for key in entries.keys() {
            let mut s = st.snap.clone();
            s.set("default", &[&prefix(path)[..], key].concat(), None);
            ctx.step();
            ctx.case(
                || at(format!("{} without entry {}", show_path(path), kit::hex(key))),
                || {
                    let got = reported(&s, false, false)?;
                    let only: BTreeSet<Path> = [path.clone()].into();
                    ensure!(got.is_empty() || got == only, "reported [{}]", show(&got));
                    seen += got.len();
                    let raw = raw(&s)?;
                    ensure_eq!(Ok(got.clone()), raw.wrong(false, &|p| if p == path && !got.is_empty() { None } else { data(p) }), "report");
                    Ok(())
                },
            );
        }
        let vals = st.model.map[path].data.len();
        let peaks = |n: usize| n.count_ones() as usize;
        let want = match &st.audit.elements[path] {
            Element::MmrTree(..) => peaks(vals),
            Element::BulkAppendTree(_, c, _) => peaks(vals >> c) + vals % (1 << c),
            Element::DenseAppendOnlyFixedSizeTree(..) => vals,
            _ => continue,
        };
        ctx.case(
            || at(format!("{} without one entry", show_path(path))),
            || {
                ensure_eq!(seen, want, "number of entries whose loss is reported");
                Ok(())
            },
        );
    }
}

fn run(ctx: &Ctx) {
    let mut worlds: Vec<(String, Vec<Op>)> = queries::worlds().into_iter().map(|(n, o)| (n.into(), o)).collect();
    use crate::entries::Kind as K;
    for (kind, n) in [(K::Mmr, 5), (K::Bulk(1), 5), (K::Dense(2), 3), (K::Bulk(2), 6)] {
        worlds.push((kind.name(), entries::worlds(kind, n).0));
    }
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let mut w = vec![
        ins("", "a", item("0")),
        ins("", "t", Element::empty_big_sum_tree()),
        ins("t", "x", Element::new_sum_item(5)),
        ins("t", "y", Element::new_item_with_sum_item(vec![1], 6)),
        ins("t", "z", Element::empty_provable_count_sum_tree()),
        ins("t/z", "a", Element::new_sum_item(1)),
        ins("t/z", "b", item("b")),
        ins("t/z", "c", Element::empty_count_sum_tree()),
        ins("t/z/c", "q", Element::new_sum_item(-1)),
    ];
    // references to one another, to elements that change, and to nothing
    let r = |s: &str| Element::new_reference(ReferencePathType::AbsolutePathReference(p(s)));
    for (key, to) in [("r1", "a"), ("r2", "r1"), ("r3", "t/z/b"), ("r4", "t/z/c/q")] {
        w.push(ins("", key, r(to)));
    }
    w.push(ins("t", "w", Element::new_reference(ReferencePathType::UpstreamRootHeightReference(0, p("r2")))));
    w.push(ins("", "a", item("1")));
    w.push(ins("t/z", "b", item("changed")));
    w.push(Op::Delete(p("t/z/c"), k("q")));
    w.push(ins("t/z/c", "q", item("q")));
    worlds.push(("references that grow old".into(), w));
    let jobs: Vec<(String, Vec<State>)> = worlds
        .iter()
        .flat_map(|(name, ops)| {
            let mut st = initial(&[]).unwrap();
            let mut all: Vec<State> = vec![st.clone()];
            for (i, op) in ops.iter().enumerate() {
                let db = Db::at(&st.snap);
                st = step(&st, op, &db).unwrap_or_else(|e| panic!("{name}: {}: {e}", op.show())).1;
                st.hist = vec![0; i + 1];
                all.push(st.clone());
            }
            let all = &all;
            (0..all.len())
                .filter(|i| ctx.thorough || i % 3 == 0 || *i + 2 >= all.len())
                .map(|i| (format!("{name} after {i}"), all[..=i].to_vec()))
                .collect::<Vec<_>>()
        })
        .collect();
    ctx.bound(format!("{} states of {} histories, every single alteration", jobs.len(), worlds.len()));
    ctx.par(&jobs, |(name, all)| {
        let (st, before) = all.split_last().unwrap();
        let from = if ctx.thorough { 0 } else { before.len().saturating_sub(6) };
        altered(ctx, name, st, &before[from..]);
    });
}
