//! D05: transactions. D06: crashes and failing storage.
use std::{cell::RefCell, collections::BTreeSet, rc::Rc, sync::Arc};

use grovedb::{
    batch::SubelementsDeletionBehavior as Sub, query_result_type::QueryResultType,
    reference_path::ReferencePathType as R, Element, GroveDb, PathQuery, TransactionArg,
};
use grovedb_merk::proofs::Query;
use kit::{ensure, ensure_eq, Ctx, Res};
use rocksdb::{
    model::{self as mem, Call},
    Snapshot,
};

use crate::{
    audit::{audit, show_path, Path},
    engine::{snap_bytes, Db},
    maps::{item, k, p},
    model::{join, run, v, Key, Op, Out, B},
};

// ------------------------------------------------------------------ reads

#[derive(Clone, Debug)]
pub enum Read {
    Get(Path, Key),
    Raw(Path, Key),
    Has(Path, Key),
    Empty(Path),
    Query(bool),
    Values,
    Keys(Path, Vec<Key>),
    Prove,
    Verify,
    Root,
    RootKey,
    Aux(Key),
    Find,
    MmrRoot(Path, Key),
    MmrGet(Path, Key, u64),
    BulkGet(Path, Key, u64),
    BulkBuffer(Path, Key),
    DenseGet(Path, Key, u16),
    DenseRoot(Path, Key),
    Anchor(Path, Key),
    Commitments(Path, Key, u64),
}

fn everything() -> Query {
    let mut q = Query::new_range_full();
    for _ in 0..3 {
        let mut up = Query::new_range_full();
        up.set_subquery(q);
        q = up;
    }
    q
}

impl Read {
    /// What kind of reading this is.
    pub fn kind(&self) -> &'static str {
        match self {
            Read::Get(..) => "get",
            Read::Raw(..) => "get_raw",
            Read::Has(..) => "has_raw",
            Read::Empty(..) => "is_empty_tree",
            Read::Query(..) | Read::Values => "query",
            Read::Keys(..) => "query_keys_optional",
            Read::Prove => "prove_query",
            Read::Verify => "verify_grovedb",
            Read::Root => "root_hash",
            Read::RootKey => "root_key",
            Read::Aux(..) => "get_aux",
            Read::Find => "find_subtrees",
            Read::MmrRoot(..) | Read::MmrGet(..) => "mmr reads",
            Read::BulkGet(..) | Read::BulkBuffer(..) => "bulk reads",
            Read::DenseGet(..) | Read::DenseRoot(..) => "dense reads",
            Read::Anchor(..) | Read::Commitments(..) => "commitment tree reads",
        }
    }
    pub fn run(&self, db: &GroveDb, tx: TransactionArg) -> Result<String, String> {
        fn s<T: std::fmt::Debug, E: std::fmt::Debug>(r: Result<T, E>) -> Result<String, String> {
            match r {
                Ok(x) => Ok(format!("{x:?}")),
                Err(e) => Err(format!("{e:?}")),
            }
        }
        let v = v();
        match self {
            Read::Get(p, k) => s(db.get(p.as_slice(), k, tx, v).unwrap()),
            Read::Raw(p, k) => s(db.get_raw_optional(p.as_slice().into(), k, tx, v).unwrap()),
            Read::Has(p, k) => s(db.has_raw(p.as_slice(), k, tx, v).unwrap()),
            Read::Empty(p) => s(db.is_empty_tree(p.as_slice(), tx, v).unwrap()),
            Read::Query(raw) => {
                let q = PathQuery::new_unsized(vec![], everything());
                if *raw {
                    s(db.query_raw(&q, true, false, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, v)
                        .unwrap()
                        .map(|(r, n)| (r.to_path_key_elements(), n)))
                } else {
                    s(db.query(&q, true, false, false, QueryResultType::QueryPathKeyElementTrioResultType, tx, v)
                        .unwrap()
                        .map(|(r, n)| (r.to_path_key_elements(), n)))
                }
            }
            Read::Values => {
                let q = PathQuery::new_unsized(vec![], everything());
                s(db.query_item_value(&q, true, false, false, tx, v).unwrap())
            }
            Read::Keys(p, ks) => {
                let mut q = Query::new();
                for k in ks {
                    q.insert_key(k.clone());
                }
                let q = PathQuery::new(p.clone(), grovedb::SizedQuery::new(q, Some(100), None));
                s(db.query_keys_optional(&q, true, false, false, tx, v).unwrap())
            }
            Read::Prove => s(db
                .prove_query(&PathQuery::new_unsized(vec![], everything()), None, v)
                .unwrap()
                .map(|b| kit::hex(&b))),
            Read::Verify => match db.verify_grovedb(tx, true, true, v) {
                Ok(m) if m.is_empty() => Ok("fine".into()),
                Ok(m) => {
                    let mut paths: Vec<_> = m.keys().map(|p| show_path(p)).collect();
                    paths.sort();
                    Ok(format!("issues at {}", paths.join(" ")))
                }
                Err(e) => Err(format!("{e:?}")),
            },
            Read::Root => s(db.root_hash(tx, v).unwrap()),
            Read::RootKey => s(db.root_key(tx, v).unwrap()),
            Read::Aux(k) => s(db.get_aux(k, tx).unwrap()),
            Read::Find => s(db
                .find_subtrees(&grovedb_path::SubtreePath::empty(), tx, v)
                .unwrap()),
            Read::MmrRoot(p, k) => s(db.mmr_tree_root_hash(p.as_slice(), k, tx, v).unwrap()),
            Read::MmrGet(p, k, i) => s(db.mmr_tree_get_value(p.as_slice(), k, *i, tx, v).unwrap()),
            Read::BulkGet(p, k, i) => s(db.bulk_get_value(p.as_slice(), k, *i, tx, v).unwrap()),
            Read::BulkBuffer(p, k) => s(db.bulk_get_buffer(p.as_slice(), k, tx, v).unwrap()),
            Read::DenseGet(p, k, i) => s(db.dense_tree_get(p.as_slice(), k, *i, tx, v).unwrap()),
            Read::DenseRoot(p, k) => s(db.dense_tree_root_hash(p.as_slice(), k, tx, v).unwrap()),
            Read::Anchor(p, k) => s(db.commitment_tree_anchor(p.as_slice(), k, tx, v).unwrap()),
            Read::Commitments(p, k, i) => s(db.commitment_tree_get_value(p.as_slice(), k, *i, tx, v).unwrap()),
        }
    }
}

fn show(r: &Result<String, String>) -> String {
    match r {
        Ok(s) => s.clone(),
        Err(e) => format!("error {e}"),
    }
}

// ----------------------------------------------------------------- worlds

pub struct W {
    pub name: &'static str,
    pub init: Vec<Op>,
    pub ops: Vec<Op>,
    pub reads: Vec<Read>,
}

fn ins(path: &str, key: &str, e: Element) -> Op {
    Op::Insert(p(path), k(key), e)
}

pub fn worlds() -> Vec<W> {
    let mut out = vec![];
    let tree = Element::empty_tree;
    let rf = |s: &str| Element::new_reference(R::AbsolutePathReference(p(s)));
    // 1. nested trees, references, auxiliary data
    let ops = vec![
        ins("", "a", tree()),
        ins("", "b", item("1")),
        ins("a", "a", item("1")),
        ins("a", "a", item("2")),
        ins("a", "b", tree()),
        ins("a/b", "c", item("3")),
        ins("", "r", rf("a/a")),
        Op::Delete(p("a"), k("a")),
        Op::DeleteDeep(vec![], k("a")),
        Op::DeleteDeep(p("a"), k("b")),
        Op::DeleteUp(p("a/b"), k("c"), None),
        Op::ClearDeep(p("a")),
        Op::InsertIfNotExists(p("a"), k("d"), item("4")),
        Op::InsertReturning(p("a"), k("d"), item("5")),
        Op::InsertIfChanged(p("a"), k("a"), item("2")),
        Op::PutAux(k("x"), k("1")),
        Op::DelAux(k("x")),
        Op::Batch(vec![
            B::Put(vec![], k("a"), item("9")),
            B::Put(p("z"), k("z"), item("9")),
        ]),
        Op::Batch(vec![
            B::Put(vec![], k("e"), tree()),
            B::Put(p("e"), k("f"), item("5")),
            B::Put(p("e"), k("g"), rf("e/f")),
            B::Delete(vec![], k("b")),
        ]),
        Op::Batch(vec![
            B::DeleteTree(vec![], k("e"), grovedb_merk::tree_type::TreeType::NormalTree, Sub::DeleteChildren),
            B::Put(p("a"), k("a"), item("6")),
        ]),
    ];
    let mut reads = vec![];
    for (path, keys) in [("", "abre"), ("a", "abd"), ("a/b", "c"), ("e", "fg")] {
        for c in keys.chars() {
            reads.push(Read::Get(p(path), k(&c.to_string())));
            reads.push(Read::Raw(p(path), k(&c.to_string())));
            reads.push(Read::Has(p(path), k(&c.to_string())));
        }
        reads.push(Read::Empty(p(path)));
        reads.push(Read::Keys(p(path), keys.chars().map(|c| k(&c.to_string())).collect()));
    }
    reads.push(Read::Aux(k("x")));
    out.push(W { name: "nested", init: vec![], ops, reads });
    // 2. sums and counts
    let ops = vec![
        ins("s", "a", Element::new_sum_item(5)),
        ins("s", "a", Element::new_sum_item(-5)),
        ins("s", "b", Element::new_sum_item(1 << 40)),
        ins("s", "t", Element::empty_sum_tree()),
        ins("s/t", "c", Element::new_sum_item(7)),
        ins("s", "m", item("1")),
        ins("c", "a", item("1")),
        ins("c", "b", item("2")),
        ins("c", "s", Element::empty_count_sum_tree()),
        ins("c/s", "a", Element::new_item_with_sum_item(vec![1], 3)),
        Op::Delete(p("s"), k("a")),
        Op::Delete(p("c"), k("a")),
        Op::DeleteDeep(p("s"), k("t")),
        Op::ClearDeep(p("s")),
        Op::DeleteUp(p("s/t"), k("c"), Some(1)),
        Op::Batch(vec![
            B::Put(p("s"), k("u"), Element::empty_sum_tree()),
            B::Put(p("s/u"), k("d"), Element::new_sum_item(i64::MAX)),
            B::Put(p("c"), k("x"), item("1")),
        ]),
    ];
    let mut reads = vec![];
    for (path, keys) in [("", "sc"), ("s", "abtmu"), ("s/t", "c"), ("s/u", "d"), ("c", "absx"), ("c/s", "a")] {
        for c in keys.chars() {
            reads.push(Read::Get(p(path), k(&c.to_string())));
        }
        reads.push(Read::Empty(p(path)));
    }
    out.push(W {
        name: "aggregates",
        init: vec![
            ins("", "s", Element::empty_sum_tree()),
            ins("", "c", Element::empty_provable_count_tree()),
        ],
        ops,
        reads,
    });
    // 3. append-only trees
    let mut ops = vec![];
    for x in ["1", "2"] {
        ops.push(Op::Mmr(p("t"), k("m"), k(x)));
        ops.push(Op::Bulk(p("t"), k("b"), k(x)));
        ops.push(Op::Dense(p("t"), k("d"), k(x)));
        ops.push(Op::Commit(p("t"), k("g"), k(x)));
    }
    for (key, e) in [
        ("m", Element::empty_mmr_tree()),
        ("b", Element::empty_bulk_append_tree(1).unwrap()),
        ("d", Element::empty_dense_tree(2)),
        ("g", Element::empty_commitment_tree(1).unwrap()),
    ] {
        ops.push(ins("t", key, e.clone()));
        ops.push(Op::DeleteDeep(p("t"), k(key)));
        ops.push(Op::Clear(join(&p("t"), &k(key))));
    }
    ops.push(ins("", "u", tree()));
    ops.push(Op::Batch(vec![
        B::Mmr(p("t/m"), k("3")),
        B::Mmr(p("t/m"), k("4")),
        B::Bulk(p("t/b"), k("3")),
        B::Dense(p("t/d"), k("3")),
        B::Commit(p("t/g"), k("3")),
        B::Commit(p("t/g"), k("4")),
        B::Put(p("t"), k("i"), item("1")),
    ]));
    ops.push(Op::Batch(vec![B::Bulk(p("t/b"), k("3")), B::Bulk(p("t/b"), k("4")), B::Bulk(p("t/b"), k("5"))]));
    let mut reads = vec![
        Read::MmrRoot(p("t"), k("m")),
        Read::BulkBuffer(p("t"), k("b")),
        Read::DenseRoot(p("t"), k("d")),
        Read::Anchor(p("t"), k("g")),
        Read::Get(p("t"), k("g")),
        Read::Get(p("t"), k("m")),
        Read::Get(p("t"), k("b")),
        Read::Get(p("t"), k("d")),
    ];
    for i in 0..3 {
        reads.push(Read::MmrGet(p("t"), k("m"), i));
        reads.push(Read::BulkGet(p("t"), k("b"), i));
        reads.push(Read::DenseGet(p("t"), k("d"), i as u16));
        reads.push(Read::Commitments(p("t"), k("g"), i));
    }
    out.push(W {
        name: "data trees",
        init: vec![
            ins("", "t", tree()),
            ins("t", "m", Element::empty_mmr_tree()),
            ins("t", "b", Element::empty_bulk_append_tree(1).unwrap()),
            ins("t", "d", Element::empty_dense_tree(2)),
            ins("t", "g", Element::empty_commitment_tree(1).unwrap()),
        ],
        ops,
        reads,
    });
    for w in &mut out {
        w.reads.extend([Read::Query(false), Read::Query(true), Read::Values, Read::Prove, Read::Verify, Read::Root, Read::RootKey, Read::Find]);
    }
    out
}

#[derive(Clone)]
pub struct S {
    pub snap: Snapshot,
    pub hist: Vec<usize>,
}

/// Everything reachable with up to `depth` operations.
fn reach(ctx: &Ctx, w: &W, depth: usize) -> Vec<S> {
    let db = Db::new();
    for op in &w.init {
        assert!(run(&db, op, None).0 != Out::Err, "{}", op.show());
    }
    let mut seen = BTreeSet::new();
    let first = S { snap: db.snap(), hist: vec![] };
    seen.insert(kit::fnv(&snap_bytes(&first.snap)));
    let mut all = vec![first];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for i in from..to {
            for (j, op) in w.ops.iter().enumerate() {
                let db = Db::at(&all[i].snap);
                run(&db, op, None);
                let snap = db.snap();
                if seen.insert(kit::fnv(&snap_bytes(&snap))) {
                    let mut hist = all[i].hist.clone();
                    hist.push(j);
                    all.push(S { snap, hist });
                }
            }
        }
        from = to;
    }
    for s in &all {
        ctx.state(&snap_bytes(&s.snap));
    }
    all
}

fn label(w: &W, s: &S) -> String {
    let mut l = w.name.to_string();
    for h in &s.hist {
        l += &format!("; {}", w.ops[*h].show());
    }
    l
}

fn direct(s: &Snapshot, op: &Op) -> (Out, Snapshot) {
    let db = Db::at(s);
    let (out, _) = run(&db, op, None);
    (out, db.snap())
}

fn dump(w: &W, db: &GroveDb, tx: TransactionArg) -> Vec<Result<String, String>> {
    w.reads
        .iter()
        .map(|r| match r {
            // proofs show what is committed
            Read::Prove if tx.is_some() => Ok(String::new()),
            _ => r.run(db, tx).map_err(|_| String::new()),
        })
        .collect()
}

fn same(w: &W, got: &[Result<String, String>], want: &[Result<String, String>], skip_proof: bool) -> Res {
    for (i, r) in w.reads.iter().enumerate() {
        if skip_proof && matches!(r, Read::Prove) {
            continue;
        }
        ensure!(
            got[i] == want[i],
            "{r:?} is {}, expected {}",
            show(&got[i]),
            show(&want[i])
        );
    }
    Ok(())
}

// -------------------------------------------------------------------- D05

pub fn d05(ctx: &Ctx) {
    for w in &worlds() {
        alone(ctx, w);
        two(ctx, w);
        overtaken(ctx, w);
        readers(ctx, w);
    }
}

/// One session at a time.
fn alone(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(3, 4));
    let n = w.ops.len();
    ctx.bound(format!(
        "{}: {} states; every session of up to {} of {n} operations in a transaction that is committed, rolled back, rolled back and used again, or dropped",
        w.name,
        states.len(),
        ctx.pick(2, 2)
    ));
    ctx.par(&states, |s| {
        let before = dump(w, &Db::at(&s.snap), None);
        for i in 0..n {
            ctx.case(
                || format!("{}; session {}", label(w, s), w.ops[i].show()),
                || {
                    let (o1, s1) = direct(&s.snap, &w.ops[i]);
                    let d1 = dump(w, &Db::at(&s1), None);
                    for j in 0..=n {
                        ctx.step();
                        let second = (j < n).then(|| &w.ops[j]);
                        let what = |e: String| match second {
                            Some(o) => format!("then {}: {e}", o.show()),
                            None => e,
                        };
                        let db = Db::at(&s.snap);
                        let tx = db.start_transaction();
                        let (out, e) = run(&db, &w.ops[i], Some(&tx));
                        ensure!(out == o1, "gave {out:?} ({e:?}) in a transaction, {o1:?} outside");
                        ensure!(db.snap() == s.snap, "changed what is stored before the commit");
                        let mut end = s1.clone();
                        if let Some(op) = second {
                            let (o2, s2) = direct(&s1, op);
                            let (out, e) = run(&db, op, Some(&tx));
                            ensure!(out == o2, "{}", what(format!("gave {out:?} ({e:?}) in a transaction, {o2:?} outside")));
                            ensure!(db.snap() == s.snap, "{}", what("changed what is stored before the commit".into()));
                            end = s2;
                        } else {
                            same(w, &dump(w, &db, Some(&tx)), &d1, true).map_err(|e| format!("inside: {e}"))?;
                            same(w, &dump(w, &db, None), &before, false).map_err(|e| format!("outside: {e}"))?;
                        }
                        // ways to end it
                        match j % 4 {
                            0 => drop(tx),
                            1 => {
                                db.rollback_transaction(&tx).map_err(|e| format!("{e:?}"))?;
                                if let Some(op) = second {
                                    let (o, sn) = direct(&s.snap, op);
                                    let (out, e) = run(&db, op, Some(&tx));
                                    ensure!(out == o, "{}", what(format!("gave {out:?} ({e:?}) after a rollback, {o:?} outside")));
                                    db.commit_transaction(tx).unwrap().map_err(|e| format!("commit after rollback: {e:?}"))?;
                                    ensure!(db.snap() == sn, "{}", what("rolled back operations were committed".into()));
                                }
                                continue;
                            }
                            _ => {
                                db.commit_transaction(tx).unwrap().map_err(|e| format!("commit: {e:?}"))?;
                                ensure!(db.snap() == end, "{}", what("committed something else than the operations store outside a transaction".into()));
                                continue;
                            }
                        }
                        ensure!(db.snap() == s.snap, "{}", what("an abandoned transaction changed what is stored".into()));
                        // and once more, committed
                        let tx = db.start_transaction();
                        run(&db, &w.ops[i], Some(&tx));
                        if let Some(op) = second {
                            run(&db, op, Some(&tx));
                        }
                        db.commit_transaction(tx).unwrap().map_err(|e| format!("commit: {e:?}"))?;
                        ensure!(db.snap() == end, "{}", what("committed something else than the operations store outside a transaction".into()));
                    }
                    Ok(())
                },
            );
        }
    });
}

/// Two sessions whose operations alternate in every way.
fn two(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(2, 3));
    let n = w.ops.len();
    // steps of session 1 (0..=2: begin, operation, commit) and of session 2
    let mut orders: Vec<Vec<usize>> = vec![];
    fn gen(a: usize, b: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if a == 3 && b == 3 {
            out.push(cur.clone());
            return;
        }
        for (t, x) in [(0, a), (1, b)] {
            if x < 3 {
                cur.push(t);
                gen(a + (t == 0) as usize, b + (t == 1) as usize, cur, out);
                cur.pop();
            }
        }
    }
    gen(0, 0, &mut vec![], &mut orders);
    ctx.bound(format!(
        "{}: {} states, every two operations in two transactions, all {} orders of their steps",
        w.name,
        states.len(),
        orders.len()
    ));
    ctx.par(&states, |s| {
        for i in 0..n {
            for j in i..n {
                let ops = [&w.ops[i], &w.ops[j]];
                ctx.case(
                    || format!("{}; two sessions: {} | {}", label(w, s), ops[0].show(), ops[1].show()),
                    || {
                        let serial = Serial::new(&s.snap, ops);
                        for order in &orders {
                            ctx.step();
                            let db = Db::at(&s.snap);
                            let mut tx = [None, None];
                            let mut outs = [None, None];
                            let mut at = [0; 2];
                            let mut overlapped = false;
                            let mut done: Vec<usize> = vec![];
                            for &t in order {
                                match at[t] {
                                    0 => {
                                        overlapped |= at[1 - t] > 0 && at[1 - t] < 3;
                                        tx[t] = Some(db.start_transaction())
                                    }
                                    1 => outs[t] = Some(run(&db, ops[t], tx[t].as_ref()).0),
                                    _ => {
                                        let r = db.commit_transaction(tx[t].take().unwrap()).unwrap();
                                        if r.is_ok() {
                                            done.push(t);
                                        } else {
                                            ensure!(overlapped, "refused a commit though the sessions did not overlap");
                                            ensure!(!done.is_empty(), "refused the first commit");
                                            outs[t] = None;
                                        }
                                    }
                                }
                                at[t] += 1;
                            }
                            serial.check(&db.snap(), &outs).map_err(|e| format!("order {order:?}: {e}"))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

/// The outcomes of running two operations one after the other.
struct Serial {
    ops: [String; 2],
    first: [(Out, Snapshot); 2],
    /// (first is 0): outputs of both, end
    both: [([Out; 2], Snapshot); 2],
    none: Snapshot,
}
impl Serial {
    fn new(s: &Snapshot, ops: [&Op; 2]) -> Serial {
        let a = direct(s, ops[0]);
        let b = direct(s, ops[1]);
        let ab = direct(&a.1, ops[1]);
        let ba = direct(&b.1, ops[0]);
        Serial {
            ops: [ops[0].show(), ops[1].show()],
            both: [([a.0.clone(), ab.0], ab.1), ([ba.0, b.0.clone()], ba.1)],
            first: [a, b],
            none: s.clone(),
        }
    }
    /// `outs[t]` is what session t returned, if it was committed.
    fn check(&self, end: &Snapshot, outs: &[Option<Out>; 2]) -> Res {
        let ok = match outs {
            [None, None] => *end == self.none,
            [Some(a), None] => self.first[0].0 == *a && self.first[0].1 == *end,
            [None, Some(b)] => self.first[1].0 == *b && self.first[1].1 == *end,
            [Some(a), Some(b)] => self
                .both
                .iter()
                .any(|(o, s)| o[0] == *a && o[1] == *b && s == end),
        } || (0..2).any(|t| {
            // failed because of what the other one was doing
            outs[t] == Some(Out::Err) && {
                let mut rest = outs.clone();
                rest[t] = None;
                match &rest[1 - t] {
                    None => *end == self.none,
                    Some(x) => self.first[1 - t].0 == *x && self.first[1 - t].1 == *end,
                }
            }
        });
        if ok {
            return Ok(());
        }
        let a = audit(end, &|_, _| None);
        Err(format!(
            "{} gave {:?} and {} gave {:?}; this and what is stored is the result of no serial order ({})",
            self.ops[0],
            outs[0],
            self.ops[1],
            outs[1],
            match a {
                Ok(_) => "what is stored is consistent".to_string(),
                Err(e) => format!("what is stored is inconsistent: {e}"),
            }
        ))
    }
}

/// One session is overtaken, anywhere between two calls of the storage engine,
/// by another one.
fn overtaken(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(2, 3));
    let n = w.ops.len();
    ctx.bound(format!(
        "{}: {} states, every operation (in a transaction of its own or of the user) overtaken at every call of the storage engine by every other operation",
        w.name,
        states.len()
    ));
    ctx.par(&states, |s| {
        for i in 0..n {
            for j in 0..n {
                for user in [false, true] {
                    let ops = [&w.ops[i], &w.ops[j]];
                    ctx.case(
                        || {
                            format!(
                                "{}; {}{} overtaken by {}",
                                label(w, s),
                                ops[0].show(),
                                if user { " in a transaction" } else { "" },
                                ops[1].show()
                            )
                        },
                        || {
                            let serial = Serial::new(&s.snap, ops);
                            for at in 0.. {
                                ctx.step();
                                let (fired, end, outs) = race(&s.snap, ops, user, at);
                                if !fired {
                                    break;
                                }
                                serial.check(&end, &outs).map_err(|e| format!("at call {at}: {e}"))?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn race(s: &Snapshot, ops: [&Op; 2], user: bool, at: u64) -> (bool, Snapshot, [Option<Out>; 2]) {
    let path = crate::engine::fresh_path();
    mem::restore(&path, s);
    let db = Arc::new(GroveDb::open(&path).expect("open"));
    let other = Rc::new(RefCell::new(None));
    let mut outs = [None, None];
    {
        let (db2, op2, res) = (db.clone(), ops[1].clone(), other.clone());
        mem::at_call(Some(mem::SCHEDULE), at, move || {
            *res.borrow_mut() = Some(run(&db2, &op2, None));
        });
        if user {
            let tx = db.start_transaction();
            // a panic ends the session: what it wrote is not committed
            if let Ok((out, _)) = kit::catch(|| run(&db, ops[0], Some(&tx))) {
                if db.commit_transaction(tx).unwrap().is_ok() {
                    outs[0] = Some(out);
                }
            }
        } else {
            outs[0] = kit::catch(|| run(&db, ops[0], None).0).ok();
        }
    }
    let (_, fired) = mem::disarm();
    outs[1] = other.borrow_mut().take().map(|x| x.0);
    let end = mem::snapshot(&path).unwrap();
    drop(db);
    mem::remove(&path);
    (fired, end, outs)
}

/// Reading while somebody else writes.
fn readers(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, 2);
    let mut kinds: Vec<&str> = w.reads.iter().map(|r| r.kind()).collect();
    kinds.sort();
    kinds.dedup();
    ctx.bound(format!(
        "{}: {} states, every read overtaken at every call of the storage engine by every operation",
        w.name,
        states.len()
    ));
    ctx.par(&kinds, |kind| {
        ctx.case(
            || format!("{kind} overtaken by a writer"),
            || {
                for s in &states {
                    for op in &w.ops {
                        let (_, after) = direct(&s.snap, op);
                        if after == s.snap {
                            continue;
                        }
                        for r in w.reads.iter().filter(|r| r.kind() == *kind) {
                            let old = r.run(&Db::at(&s.snap), None).map_err(|_| ());
                            let new = r.run(&Db::at(&after), None).map_err(|_| ());
                            for at in 0.. {
                                ctx.step();
                                let path = crate::engine::fresh_path();
                                mem::restore(&path, &s.snap);
                                let db = Arc::new(GroveDb::open(&path).expect("open"));
                                let (db2, op2) = (db.clone(), op.clone());
                                mem::at_call(Some(mem::SCHEDULE), at, move || {
                                    run(&db2, &op2, None);
                                });
                                let got = kit::catch(|| r.run(&db, None));
                                let (_, fired) = mem::disarm();
                                drop(db);
                                mem::remove(&path);
                                let got = got.map_err(|e| format!("{}; {r:?} overtaken at call {at} by {}: panic {e}", label(w, s), op.show()))?;
                                if !fired {
                                    break;
                                }
                                let g = got.clone().map_err(|_| ());
                                ensure!(
                                    g == old || g == new,
                                    "{}; {r:?} overtaken at call {at} by {} gave {}, neither {old:?} nor {new:?}",
                                    label(w, s),
                                    op.show(),
                                    show(&got)
                                );
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    });
}

// -------------------------------------------------------------------- D06

pub fn d06(ctx: &Ctx) {
    for w in &worlds() {
        crashes(ctx, w);
        faults(ctx, w);
        faults_in_tx(ctx, w);
        read_faults(ctx, w);
        iterator_faults(ctx, w);
    }
}

/// A crash keeps the operations that were done, each as a whole.
fn crashes(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(4, 5));
    ctx.bound(format!("{}: {} states, every operation, every crash point", w.name, states.len()));
    ctx.par(&states, |s| {
        for op in &w.ops {
            ctx.case(
                || format!("{}; crash in {}", label(w, s), op.show()),
                || {
                    ctx.step();
                    let (_, want) = direct(&s.snap, op);
                    let db = Db::at(&s.snap);
                    mem::record(&db.path);
                    run(&db, op, None);
                    for (i, c) in mem::recorded(&db.path).iter().enumerate() {
                        ensure!(
                            *c == s.snap || *c == want,
                            "a crash after {i} writes leaves neither what was stored before nor after"
                        );
                    }
                    // opening does not change anything
                    let db = Db::at(&want);
                    ensure!(db.snap() == want, "opening the database changed it");
                    Ok(())
                },
            );
        }
    });
}

fn faults(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(3, 4));
    ctx.bound(format!("{}: {} states, every operation, every call of the storage engine failing", w.name, states.len()));
    ctx.par(&states, |s| {
        for op in &w.ops {
            ctx.case(
                || format!("{}; fault in {}", label(w, s), op.show()),
                || {
                    let (want, end) = direct(&s.snap, op);
                    for at in 0.. {
                        ctx.step();
                        let db = Db::at(&s.snap);
                        mem::arm(None, Some(at));
                        let r = kit::catch(|| run(&db, op, None));
                        let (_, fired) = mem::disarm();
                        if !fired {
                            break;
                        }
                        let (out, _) = r.map_err(|e| format!("panics when call {at} fails: {e}"))?;
                        if out == Out::Err {
                            ensure!(db.snap() == s.snap, "failed at call {at} but changed what is stored");
                            ctx.outcome("refused");
                        } else {
                            ensure!(out == want, "gave {out:?} though call {at} failed, {want:?} otherwise");
                            ensure!(db.snap() == end, "was done though call {at} failed, but stored something else");
                            ctx.outcome("done anyway");
                            continue;
                        }
                        let (out, e) = run(&db, op, None);
                        ensure!(out == want, "gave {out:?} ({e:?}) when tried again after call {at} failed, {want:?} otherwise");
                        ensure!(db.snap() == end, "stored something else when tried again after call {at} failed");
                    }
                    Ok(())
                },
            );
        }
    });
}

fn faults_in_tx(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(2, 3));
    ctx.bound(format!("{}: {} states, every two operations in a transaction, every call of the storage engine in the second failing", w.name, states.len()));
    ctx.par(&states, |s| {
        for first in &w.ops {
            let (_, s1) = direct(&s.snap, first);
            for op in &w.ops {
                ctx.case(
                    || format!("{}; in a transaction: {}; fault in {}", label(w, s), first.show(), op.show()),
                    || {
                        let (want, s2) = direct(&s1, op);
                        for at in 0.. {
                            ctx.step();
                            for retry in [false, true] {
                                let db = Db::at(&s.snap);
                                let tx = db.start_transaction();
                                run(&db, first, Some(&tx));
                                mem::arm(None, Some(at));
                                let r = kit::catch(|| run(&db, op, Some(&tx)));
                                let (_, fired) = mem::disarm();
                                if !fired {
                                    return Ok(());
                                }
                                let (out, _) = r.map_err(|e| format!("panics when call {at} fails: {e}"))?;
                                ensure!(db.snap() == s.snap, "wrote before the commit");
                                let mut end = &s1;
                                if out != Out::Err {
                                    ensure!(out == want, "gave {out:?} though call {at} failed, {want:?} otherwise");
                                    end = &s2;
                                } else if retry {
                                    let (out, e) = run(&db, op, Some(&tx));
                                    ensure!(out == want, "gave {out:?} ({e:?}) when tried again after call {at} failed, {want:?} otherwise");
                                    end = &s2;
                                }
                                db.commit_transaction(tx).unwrap().map_err(|e| format!("commit: {e:?}"))?;
                                ensure!(
                                    db.snap() == *end,
                                    "failed at call {at}{}, but the commit stores something else",
                                    if retry { " and was tried again" } else { "" }
                                );
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

/// A read whose storage fails gives an error, never something wrong.
fn read_faults(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, ctx.pick(2, 3));
    ctx.bound(format!("{}: {} states, every read, every call of the storage engine failing", w.name, states.len()));
    ctx.par(&states, |s| {
        for r in &w.reads {
            ctx.case(
                || format!("{}; fault in {r:?}", label(w, s)),
                || faulty_read(ctx, s, r, None).map(|_| ()),
            );
        }
    });
}

fn faulty_read(ctx: &Ctx, s: &S, r: &Read, only: Option<&'static [Call]>) -> Result<u64, String> {
    let db = Db::at(&s.snap);
    let want = r.run(&db, None);
    for at in 0.. {
        ctx.step();
        mem::arm(only, Some(at));
        let got = kit::catch(|| r.run(&db, None));
        let (_, fired) = mem::disarm();
        let got = got.map_err(|e| format!("panics when call {at} fails: {e}"))?;
        if !fired {
            return Ok(at);
        }
        // an examination of the database may well report what it can not read
        let reported = matches!(r, Read::Verify) && got.as_ref().is_ok_and(|g| g != "fine");
        ensure!(
            got.is_err() || got == want || reported,
            "gave {} though call {at} failed, {} otherwise",
            show(&got),
            show(&want)
        );
        ensure!(db.snap() == s.snap, "changed what is stored");
    }
    unreachable!()
}

/// A failing move of an iterator only shows in its status.
fn iterator_faults(ctx: &Ctx, w: &W) {
    let states = reach(ctx, w, 2);
    let mut kinds: Vec<&str> = w.reads.iter().map(|r| r.kind()).collect();
    kinds.sort();
    kinds.dedup();
    for kind in kinds {
        ctx.case(
            || format!("{kind} with a failing iterator"),
            || {
                for s in &states {
                    for r in w.reads.iter().filter(|r| r.kind() == kind) {
                        faulty_read(ctx, s, r, Some(&[Call::IterMove])).map_err(|e| format!("{}; {r:?}: {e}", label(w, s)))?;
                    }
                }
                Ok(())
            },
        );
    }
    for op in &w.ops {
        ctx.case(
            || {
                let show = op.show();
                let kind = show.split([' ', '[']).next().unwrap_or("");
                format!("{kind} with a failing iterator")
            },
            || {
                for s in &states {
                    let (want, end) = direct(&s.snap, op);
                    for at in 0.. {
                        ctx.step();
                        let db = Db::at(&s.snap);
                        mem::arm(Some(&[Call::IterMove]), Some(at));
                        let r = kit::catch(|| run(&db, op, None));
                        let (_, fired) = mem::disarm();
                        if !fired {
                            break;
                        }
                        let (out, _) = r.map_err(|e| format!("{}: panics when move {at} fails: {e}", label(w, s)))?;
                        if out == Out::Err {
                            ensure!(db.snap() == s.snap, "{}: failed at move {at} but changed what is stored", label(w, s));
                        } else {
                            ensure!(out == want && db.snap() == end, "{}: gave {out:?} though move {at} failed, {want:?} otherwise", label(w, s));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
