//! D21: storage that is paid for by owners in epochs. Whoever paid for the
//! bytes of an element, and when, is what its flags say, and what is refunded.
use std::{
    collections::{BTreeMap, HashMap},
    sync::Mutex,
};

use grovedb::{
    batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior},
    operations::delete::{DeleteOptions, DeleteUpTreeOptions},
    reference_path::ReferencePathType,
    Element, ElementFlags, Error, TransactionArg, TreeType,
};
use grovedb_costs::{
    storage_cost::{removal::StorageRemovedBytes, StorageCost},
    CostResult, OperationCost,
};
use grovedb_epoch_based_storage_flags::StorageFlags;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use rocksdb::Snapshot;

use crate::{
    audit::Path,
    engine::{initial, Db},
    maps::{k, p},
    model::{show_el, v, Op},
};

pub fn spec() -> Spec {
    Spec {
        id: "D21",
        level: "model_checking",
        run,
    }
}

/// `None` is the account of nobody.
type Owner = Option<[u8; 32]>;
/// Bytes paid for, by owner and epoch.
type Ledger = BTreeMap<(Owner, Option<u16>), i64>;

fn owner(n: u8) -> Owner {
    match n {
        0 => Some([0; 32]),
        n => Some([n; 32]),
    }
}

fn flags(o: u8, epoch: u16) -> Option<ElementFlags> {
    match o {
        0 => StorageFlags::SingleEpoch(epoch),
        o => StorageFlags::SingleEpochOwned(epoch, [o; 32]),
    }
    .to_some_element_flags()
}

fn add(l: &mut Ledger, at: (Owner, Option<u16>), n: i64) {
    let e = l.entry(at).or_insert(0);
    *e += n;
    if *e == 0 {
        l.remove(&at);
    }
}

fn show(l: &Ledger) -> String {
    l.iter()
        .map(|((o, e), n)| {
            format!(
                "{}@{}:{n}",
                o.map_or("-".into(), |o| o[0].to_string()),
                e.map_or("-".into(), |e| e.to_string())
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Clone, Debug)]
enum A {
    Put(Path, Vec<u8>, Element),
    Replace(Path, Vec<u8>, Element),
    Delete(Path, Vec<u8>),
    DeleteTree(Path, Vec<u8>, TreeType),
}
#[derive(Clone, Debug)]
enum Step {
    /// Paid for by an owner in an epoch, who are also in the flags of all
    /// elements put.
    Batch(u8, u16, Vec<A>),
    /// The same in two parts.
    Partial(u8, u16, Vec<A>),
    Single(Path, Vec<u8>),
    Up(Path, Vec<u8>),
}

impl A {
    fn real(&self) -> QualifiedGroveDbOp {
        match self.clone() {
            A::Put(p, k, e) => QualifiedGroveDbOp::insert_or_replace_op(p, k, e),
            A::Replace(p, k, e) => QualifiedGroveDbOp::replace_op(p, k, e),
            A::Delete(p, k) => QualifiedGroveDbOp::delete_op(p, k),
            A::DeleteTree(p, k, t) => {
                QualifiedGroveDbOp::delete_tree_op(p, k, t, SubelementsDeletionBehavior::Error)
            }
        }
    }
    fn show(&self) -> String {
        let at = |p: &Path, k: &Vec<u8>| {
            let mut p = p.clone();
            p.push(k.clone());
            p.iter()
                .map(|s| String::from_utf8_lossy(s).into_owned())
                .collect::<Vec<_>>()
                .join("/")
        };
        match self {
            A::Put(p, k, e) => format!("put {} {}", at(p, k), body(e)),
            A::Replace(p, k, e) => format!("replace {} {}", at(p, k), body(e)),
            A::Delete(p, k) => format!("delete {}", at(p, k)),
            A::DeleteTree(p, k, _) => format!("delete tree {}", at(p, k)),
        }
    }
}

fn body(e: &Element) -> String {
    let mut s = match e {
        Element::Item(b, _) => format!("item of {}", b.len()),
        Element::ItemWithSumItem(b, s, _) => format!("item of {} with {s}", b.len()),
        e => {
            let mut e = e.clone();
            e.set_flags(None);
            show_el(&e)
        }
    };
    if e.get_flags().is_none() {
        s += " without flags";
    }
    s
}

impl Step {
    fn show(&self) -> String {
        let many = |o: &u8, e: &u16, a: &[A]| {
            format!(
                "owner {o} in epoch {e}: {}",
                a.iter().map(A::show).collect::<Vec<_>>().join(" + ")
            )
        };
        match self {
            Step::Batch(o, e, a) => many(o, e, a),
            Step::Partial(o, e, a) => format!("in parts, {}", many(o, e, a)),
            Step::Single(p, k) => format!("single {}", A::Delete(p.clone(), k.clone()).show()),
            Step::Up(p, k) => format!("up {}", A::Delete(p.clone(), k.clone()).show()),
        }
    }
    fn ops(&self) -> &[A] {
        match self {
            Step::Batch(_, _, a) | Step::Partial(_, _, a) => a,
            _ => &[],
        }
    }
    fn epoch(&self) -> u16 {
        match self {
            Step::Batch(_, e, _) | Step::Partial(_, e, _) => *e,
            _ => 0,
        }
    }
    fn run(&self, db: &Db, tx: TransactionArg) -> (OperationCost, Result<(), Error>) {
        fn done<T>(r: CostResult<T, Error>) -> (OperationCost, Result<(), Error>) {
            (r.cost, r.value.map(|_| ()))
        }
        let update = |c: &StorageCost, old: Option<ElementFlags>, new: &mut ElementFlags| {
            StorageFlags::update_element_flags(c, old, new)
                .map_err(|e| Error::JustInTimeElementFlagsClientError(e.to_string()))
        };
        let mut split = |f: &mut ElementFlags, kb: u32, vb: u32| {
            StorageFlags::split_removal_bytes(f, kb, vb)
                .map_err(|e| Error::SplitRemovalBytesClientError(e.to_string()))
        };
        match self {
            Step::Batch(_, _, a) => done(db.apply_batch_with_element_flags_update(
                a.iter().map(A::real).collect(),
                None,
                update,
                split,
                tx,
                v(),
            )),
            Step::Partial(_, _, a) => done(db.apply_partial_batch_with_element_flags_update(
                a.iter().map(A::real).collect(),
                Some(grovedb::batch::BatchApplyOptions {
                    batch_pause_height: Some(1),
                    ..Default::default()
                }),
                update,
                split,
                |_, _| Ok(vec![]),
                tx,
                v(),
            )),
            Step::Single(path, key) => done(db.delete_with_sectional_storage_function(
                path.as_slice().into(),
                key,
                Some(DeleteOptions::default()),
                tx,
                &mut split,
                v(),
            )),
            Step::Up(path, key) => done(db.delete_up_tree_while_empty_with_sectional_storage(
                path.as_slice().into(),
                key,
                &DeleteUpTreeOptions {
                    stop_path_height: Some(1),
                    ..Default::default()
                },
                tx,
                split,
                v(),
            )),
        }
    }
}

/// Where there can be elements with flags, and the kind of tree that is in.
type Places = [(Path, Vec<u8>)];

/// What an element takes up: what putting it there costs.
struct Prices {
    /// each path's tree, empty
    empty: HashMap<Path, Snapshot>,
    known: Mutex<HashMap<(Path, Vec<u8>, Vec<u8>), i64>>,
}
impl Prices {
    fn of(&self, path: &Path, key: &[u8], e: &Element) -> Result<i64, String> {
        let mut e = crate::model::norm(e);
        if let Element::Reference(_, _, f) = &e {
            // the target is not there; what it takes up does not depend on it
            let Element::Reference(r, h, _) = &e else {
                unreachable!()
            };
            e = Element::Reference(r.clone(), *h, f.clone());
        }
        let bytes = e.serialize(v()).map_err(|e| format!("{e}"))?;
        let id = (path.clone(), key.to_vec(), bytes);
        if let Some(n) = self.known.lock().unwrap().get(&id) {
            return Ok(*n);
        }
        let db = Db::at(&self.empty[path]);
        let r = db.apply_batch(
            vec![QualifiedGroveDbOp::insert_or_replace_op(
                path.clone(),
                key.to_vec(),
                e.clone(),
            )],
            None,
            None,
            v(),
        );
        r.value.map_err(|e| format!("price: {e}"))?;
        let n = r.cost.storage_cost.added_bytes as i64;
        ensure_eq!(
            r.cost.storage_cost.removed_bytes,
            StorageRemovedBytes::NoStorageRemoval,
            "removed by an insertion"
        );
        self.known.lock().unwrap().insert(id, n);
        Ok(n)
    }
}

/// An entry for a later epoch takes this up in the flags, at the expense of
/// the base epoch (see C20).
const ENTRY: i64 = 3;

/// What the flags of an element say was paid for it.
fn account(e: &Element, size: i64) -> Result<Ledger, String> {
    let mut l = Ledger::new();
    let f = match e.get_flags() {
        None => {
            add(&mut l, (None, None), size);
            return Ok(l);
        }
        Some(f) => StorageFlags::from_element_flags_ref(f).map_err(|e| format!("flags: {e}"))?,
    };
    let (o, base, map) = match f {
        None => {
            add(&mut l, (None, None), size);
            return Ok(l);
        }
        Some(StorageFlags::SingleEpoch(b)) => (owner(0), b, BTreeMap::new()),
        Some(StorageFlags::SingleEpochOwned(b, o)) => (Some(o), b, BTreeMap::new()),
        Some(StorageFlags::MultiEpoch(b, m)) => (owner(0), b, m),
        Some(StorageFlags::MultiEpochOwned(b, m, o)) => (Some(o), b, m),
    };
    let later: i64 = map.values().map(|n| *n as i64).sum();
    ensure!(
        later < size,
        "an element of {size} bytes, {later} of which are later than its base epoch {base}"
    );
    add(
        &mut l,
        (o, Some(base)),
        size - later + ENTRY * map.len() as i64,
    );
    for (e, n) in map {
        ensure!(
            e > base && n as i64 > ENTRY,
            "{n} bytes of epoch {e} after base epoch {base}"
        );
        add(&mut l, (o, Some(e)), n as i64 - ENTRY);
    }
    Ok(l)
}

type Accounts = BTreeMap<(Path, Vec<u8>), (Element, Ledger)>;

fn accounts(db: &Db, places: &Places, prices: &Prices) -> Result<Accounts, String> {
    let mut out = Accounts::new();
    for (path, key) in places {
        let Ok(e) = db.get_raw(path.as_slice().into(), key, None, v()).value else {
            continue;
        };
        let n = prices.of(path, key, &e)?;
        let l = account(&e, n).map_err(|x| format!("{}: {x}", String::from_utf8_lossy(key)))?;
        out.insert((path.clone(), key.clone()), (e, l));
    }
    Ok(out)
}

fn sum<'a>(l: impl Iterator<Item = &'a Ledger>) -> Ledger {
    let mut out = Ledger::new();
    for l in l {
        for (at, n) in l {
            add(&mut out, *at, *n);
        }
    }
    out
}

/// Everything under one owner.
fn owned_by(l: &Ledger, o: Owner) -> Ledger {
    let mut out = Ledger::new();
    for ((_, e), n) in l {
        add(&mut out, (o, *e), *n);
    }
    out
}

fn owner_of(l: &Ledger) -> Owner {
    l.keys().next().and_then(|k| k.0)
}

fn check(step: &Step, before: &Accounts, after: &Accounts, cost: &OperationCost) -> Res {
    let mut want = sum(before.values().map(|x| &x.1));
    // refunds go to those who paid
    match &cost.storage_cost.removed_bytes {
        StorageRemovedBytes::NoStorageRemoval => {}
        StorageRemovedBytes::BasicStorageRemoval(n) => add(&mut want, (None, None), -(*n as i64)),
        StorageRemovedBytes::SectionedStorageRemoval(m) => {
            for (o, m) in m {
                for (e, n) in m.iter() {
                    add(&mut want, (Some(*o), Some(e)), -(*n as i64));
                }
            }
        }
    }
    for ((o, e), n) in &want {
        ensure!(
            *n > 0,
            "{} bytes more than paid are refunded to {o:?} in {e:?}: before {}, refunds {:?}",
            -n,
            show(&sum(before.values().map(|x| &x.1))),
            cost.storage_cost.removed_bytes
        );
    }
    let added = cost.storage_cost.added_bytes as i64;
    // what was left of elements that changed hands is the new owner's
    let mut moved = false;
    for (at, (_, l)) in before {
        if let Some((_, m)) = after.get(at) {
            moved |= owner_of(l) != owner_of(m);
        }
    }
    if added != 0 {
        match step {
            Step::Batch(o, e, _) | Step::Partial(o, e, _) => {
                let flagged = step.ops().iter().any(|a| matches!(a, A::Put(_, _, e) | A::Replace(_, _, e) if e.get_flags().is_some()));
                add(
                    &mut want,
                    if flagged {
                        (owner(*o), Some(*e))
                    } else {
                        (None, None)
                    },
                    added,
                );
            }
            _ => return Err(format!("a deletion adds {added} bytes")),
        }
    }
    for (at, (_, l)) in after {
        if let Some((_, m)) = before.get(at) {
            let o = owner_of(l);
            for (_, e) in l.keys() {
                if e.is_some() && m.keys().all(|(_, x)| x != e) {
                    add(&mut want, (o, *e), -ENTRY);
                    add(&mut want, (o, l.keys().next().unwrap().1), ENTRY);
                }
            }
        }
    }
    let mut got = sum(after.values().map(|x| &x.1));
    if moved {
        want = owned_by(&want, None);
        got = owned_by(&got, None);
    }
    ensure!(
        want == got,
        "flags say that was paid: {}; paid and not refunded is: {} (added {added}, removed {:?})",
        show(&got),
        show(&want),
        cost.storage_cost.removed_bytes
    );
    Ok(())
}

struct World {
    name: String,
    init: Vec<Op>,
    places: Vec<(Path, Vec<u8>)>,
    /// trees on the way that steps put
    inner: Element,
    steps: Vec<Step>,
    depth: usize,
}

fn explore(ctx: &Ctx, w: &World) {
    let first = match initial(&w.init) {
        Ok(s) => s,
        Err(e) => {
            ctx.case(|| format!("{}: initial", w.name), || Err(e));
            return;
        }
    };
    let mut empty: HashMap<Path, Snapshot> = HashMap::new();
    for (path, _) in &w.places {
        empty.entry(path.clone()).or_insert_with(|| {
            let db = Db::at(&first.snap);
            // missing trees on the way
            for i in 1..=path.len() {
                let (up, key) = (&path[..i - 1], &path[i - 1]);
                if db.get_raw(up.into(), key, None, v()).value.is_err() {
                    db.insert(up, key, w.inner.clone(), None, None, v())
                        .unwrap()
                        .unwrap();
                }
            }
            db.snap()
        });
    }
    let prices = Prices {
        empty,
        known: Default::default(),
    };
    let seen: Mutex<std::collections::HashSet<(u64, u16)>> = Default::default();
    let mut frontier: Vec<(Snapshot, Vec<usize>)> = vec![(first.snap.clone(), vec![])];
    let name = |h: &[usize], s: Option<&Step>| {
        let mut all: Vec<String> = h.iter().map(|i| w.steps[*i].show()).collect();
        all.extend(s.map(|s| s.show()));
        format!("{}: {}", w.name, all.join("; "))
    };
    for d in 0..w.depth {
        let next: Mutex<Vec<(Snapshot, Vec<usize>)>> = Default::default();
        ctx.par(&frontier, |(snap, hist)| {
            let before = accounts(&Db::at(snap), &w.places, &prices);
            // time does not go back
            let now = hist.iter().map(|i| w.steps[*i].epoch()).max().unwrap_or(0);
            for (i, s) in w.steps.iter().enumerate() {
                if !s.ops().is_empty() && s.epoch() < now
                    || before.as_ref().is_ok_and(|b| covers(s, b))
                {
                    continue;
                }
                ctx.step();
                ctx.case(
                    || name(hist, Some(s)),
                    || {
                        let before = before.as_ref().map_err(|e| e.clone())?;
                        let db = Db::at(snap);
                        let (cost, r) = s.run(&db, None);
                        if let Err(e) = r {
                            ctx.outcome("refused");
                            ensure!(db.snap() == *snap, "refused, but changed: {e}");
                            return refusal(s, before, &e);
                        }
                        ctx.outcome("done");
                        let after = accounts(&db, &w.places, &prices)?;
                        check(s, before, &after, &cost)?;
                        let snap = db.snap();
                        let id = kit::fnv(&crate::engine::snap_bytes(&snap));
                        if seen.lock().unwrap().insert((id, now.max(s.epoch()))) {
                            ctx.state(&id.to_le_bytes());
                            if d + 1 < w.depth {
                                let mut hist = hist.clone();
                                hist.push(i);
                                next.lock().unwrap().push((snap, hist));
                            }
                        }
                        Ok(())
                    },
                );
            }
        });
        frontier = next.into_inner().unwrap();
        frontier.sort_by(|a, b| a.1.cmp(&b.1));
    }
    ctx.bound(format!(
        "{}: every sequence of up to {} of {} steps",
        w.name,
        w.depth,
        w.steps.len()
    ));
}

/// Whether a tree with something in it is written over: what was in it is left
/// in the storage then, and nobody is refunded.
fn covers(s: &Step, before: &Accounts) -> bool {
    s.ops().iter().any(|a| match a {
        A::Put(p, k, e) | A::Replace(p, k, e) => {
            let mut at = p.clone();
            at.push(k.clone());
            e.is_any_tree() && before.keys().any(|(q, _)| q.starts_with(&at))
        }
        _ => false,
    })
}

/// A step is refused for a reason: what is to be deleted or replaced is not
/// there or not empty, or the epoch is older than what the flags say.
fn refusal(s: &Step, before: &Accounts, e: &Error) -> Res {
    let there = |p: &Path, k: &Vec<u8>| before.get(&(p.clone(), k.clone()));
    let filled = |p: &Path, k: &Vec<u8>| {
        let mut at = p.clone();
        at.push(k.clone());
        before.keys().any(|(q, _)| q.starts_with(&at))
    };
    // the tree it is put into is there, or put by the same batch
    let parent = |p: &Path| {
        p.len() < 2
            || there(&p[..p.len() - 1].to_vec(), &p[p.len() - 1]).is_some()
            || s.ops()
                .iter()
                .any(|a| matches!(a, A::Put(q, k, _) if [&q[..], &[k.clone()]].concat() == *p))
    };
    match s {
        Step::Single(p, k) | Step::Up(p, k) => {
            ensure!(there(p, k).is_none() || filled(p, k), "refused: {e}");
        }
        Step::Batch(_, epoch, a) | Step::Partial(_, epoch, a) => {
            let why = a.iter().any(|a| match a {
                A::Put(p, k, _) | A::Replace(p, k, _) => {
                    there(p, k)
                        .is_some_and(|(_, l)| l.keys().any(|(_, e)| e.is_none_or(|e| e > *epoch)))
                        || filled(p, k)
                        || !parent(p)
                }
                A::Delete(p, k) | A::DeleteTree(p, k, _) => there(p, k).is_none() || filled(p, k),
            });
            ensure!(why, "refused: {e}");
        }
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    ctx.assume("what an element takes up is what putting it into the same tree costs (D12)");
    let it = |n: usize, o: u8, e: u16| Element::new_item_with_flags(vec![7; n], flags(o, e));
    // one element, all ways it can grow, shrink, change hands and go
    for (name, owners) in [("nobody's", vec![0u8]), ("owned", vec![1, 2])] {
        let mut steps = vec![];
        let sizes: &[usize] = ctx.pick(
            &[3, 60, 61, 90, 250],
            &[0, 3, 60, 61, 62, 90, 125, 250, 16400],
        );
        for o in &owners {
            for e in 0..ctx.pick(4, 5) as u16 {
                for n in sizes.iter().copied() {
                    steps.push(Step::Batch(
                        *o,
                        e,
                        vec![A::Put(p("t"), k("a"), it(n, *o, e))],
                    ));
                }
            }
        }
        steps.push(Step::Batch(owners[0], 2, vec![A::Delete(p("t"), k("a"))]));
        steps.push(Step::Single(p("t"), k("a")));
        explore(
            ctx,
            &World {
                name: format!("{name} item"),
                init: vec![Op::Insert(vec![], k("t"), Element::empty_tree())],
                inner: Element::empty_tree(),
                places: vec![(p("t"), k("a"))],
                steps,
                depth: ctx.pick(6, 9),
            },
        );
    }
    // all kinds of elements in all kinds of trees
    let kinds: Vec<Box<dyn Fn(u8, u16) -> Element + Sync>> = vec![
        Box::new(move |o, e| it(3, o, e)),
        Box::new(move |o, e| it(130, o, e)),
        Box::new(|o, e| Element::new_sum_item_with_flags(5, flags(o, e))),
        Box::new(|o, e| Element::new_sum_item_with_flags(i64::MIN, flags(o, e))),
        Box::new(|o, e| Element::new_item_with_sum_item_with_flags(vec![3; 8], -1, flags(o, e))),
        Box::new(|o, e| Element::new_item_with_sum_item_with_flags(vec![3; 140], 1, flags(o, e))),
        Box::new(|o, e| {
            Element::new_reference_with_flags(
                ReferencePathType::SiblingReference(k("z")),
                flags(o, e),
            )
        }),
        Box::new(|o, e| {
            Element::new_reference_with_flags(
                ReferencePathType::AbsolutePathReference(vec![k("t"), k("z")]),
                flags(o, e),
            )
        }),
    ];
    for (i, outer) in crate::maps::trees().into_iter().enumerate() {
        let mut steps = vec![];
        for kind in kinds.iter().filter(|k| {
            [1, 2, 4, 6].contains(&i)
                || matches!(k(1, 1), Element::Item(..) | Element::Reference(..))
        }) {
            for (o, e) in [(1u8, 0u16), (1, 1), (2, 1), (1, 2)] {
                steps.push(Step::Batch(o, e, vec![A::Put(p("t"), k("a"), kind(o, e))]));
            }
        }
        steps.push(Step::Batch(1, 1, vec![A::Delete(p("t"), k("a"))]));
        steps.push(Step::Single(p("t"), k("a")));
        explore(
            ctx,
            &World {
                name: format!("kinds in tree {i}"),
                init: vec![
                    Op::Insert(vec![], k("t"), outer),
                    Op::Insert(p("t"), k("z"), Element::new_item(b"z".to_vec())),
                ],
                inner: Element::empty_tree(),
                places: vec![(p("t"), k("a"))],
                steps,
                depth: ctx.pick(4, 6),
            },
        );
    }
    // several elements at once, trees with flags and what is in them
    for (i, inner) in crate::maps::trees().into_iter().enumerate() {
        let mut steps = vec![];
        let tree = |o: u8, e: u16| {
            let mut t = inner.clone();
            t.set_flags(flags(o, e));
            t
        };
        for (o, e) in [(1u8, 0u16), (1, 1), (2, 1), (1, 2)] {
            let a = |n| A::Put(p("t"), k("a"), it(n, o, e));
            let b = |n| A::Put(p("t/s"), k("b"), it(n, o, e));
            let s = || A::Put(p("t"), k("s"), tree(o, e));
            for n in [3, 100] {
                steps.push(Step::Batch(o, e, vec![a(n)]));
                steps.push(Step::Batch(o, e, vec![b(n)]));
                steps.push(Step::Batch(o, e, vec![a(n), b(103 - n)]));
                steps.push(Step::Partial(o, e, vec![a(n), b(n)]));
                steps.push(Step::Batch(o, e, vec![A::Delete(p("t"), k("a")), b(n)]));
            }
            steps.push(Step::Batch(o, e, vec![s()]));
            steps.push(Step::Batch(o, e, vec![s(), b(3)]));
            steps.push(Step::Batch(o, e, vec![s(), A::Delete(p("t"), k("a"))]));
        }
        steps.push(Step::Batch(
            1,
            2,
            vec![A::Delete(p("t"), k("a")), A::Delete(p("t/s"), k("b"))],
        ));
        steps.push(Step::Batch(
            1,
            2,
            vec![
                A::Delete(p("t/s"), k("b")),
                A::DeleteTree(p("t"), k("s"), inner.tree_type().expect("a tree")),
            ],
        ));
        steps.push(Step::Single(p("t"), k("s")));
        steps.push(Step::Single(p("t/s"), k("b")));
        steps.push(Step::Up(p("t/s"), k("b")));
        explore(
            ctx,
            &World {
                name: format!("trees of kind {i}"),
                init: vec![
                    Op::Insert(vec![], k("t"), Element::empty_tree()),
                    Op::Insert(p("t"), k("z"), Element::new_item(b"z".to_vec())),
                ],
                inner: inner.clone(),
                places: vec![(p("t"), k("a")), (p("t"), k("s")), (p("t/s"), k("b"))],
                steps,
                depth: ctx.pick(4, 5),
            },
        );
    }
}
