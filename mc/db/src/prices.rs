//! D12: what storage costs is a function of what is stored.
use std::{
    collections::HashMap,
    sync::Mutex,
};

use grovedb::{batch::SubelementsDeletionBehavior, Element, TreeType};
use kit::{ensure_eq, Ctx, Spec};
use rocksdb::Snapshot;

use crate::{
    engine::{initial, Db},
    maps::{item, k, p, trees},
    model::{run, Op, Out, B, LAST_COST},
};

pub fn spec() -> Spec {
    Spec {
        id: "D12",
        level: "model_checking",
        run: d12,
    }
}

struct Node {
    snap: Snapshot,
    net: i64,
    hist: Vec<usize>,
}

fn net() -> i64 {
    LAST_COST.with(|c| {
        let c = c.borrow();
        c.storage_cost.added_bytes as i64 - c.storage_cost.removed_bytes.total_removed_bytes() as i64
    })
}

fn key(s: &Snapshot) -> u64 {
    kit::fnv(&crate::engine::snap_bytes(s))
}

fn world(ctx: &Ctx, name: &str, init: &[Op], ops: &[Op], depth: usize) {
    let first = match initial(init) {
        Ok(s) => s,
        Err(e) => {
            ctx.case(|| format!("{name}: initial"), || Err(e));
            return;
        }
    };
    let known: Mutex<HashMap<u64, (i64, Vec<usize>)>> = Mutex::new(HashMap::new());
    known.lock().unwrap().insert(key(&first.snap), (0, vec![]));
    let mut frontier = vec![Node {
        snap: first.snap,
        net: 0,
        hist: vec![],
    }];
    let show = |h: &[usize]| {
        h.iter()
            .map(|i| ops[*i].show())
            .collect::<Vec<_>>()
            .join("; ")
    };
    // what is removed wholesale gives back no more than was paid
    let deep: Mutex<Vec<(u64, i64, Vec<usize>)>> = Mutex::new(vec![]);
    for d in 0..depth {
        let next: Mutex<Vec<Node>> = Mutex::new(vec![]);
        ctx.par(&frontier, |n| {
            for (i, op) in ops.iter().enumerate() {
                ctx.step();
                ctx.case(
                    || format!("{name}: {}; {}", show(&n.hist), op.show()),
                    || {
                        let db = Db::at(&n.snap);
                        let (out, _) = run(&db, op, None);
                        if out == Out::Err {
                            ctx.outcome("refused");
                            return Ok(());
                        }
                        ctx.outcome("done");
                        let delta = net();
                        let snap = db.snap();
                        let id = key(&snap);
                        let mut hist = n.hist.clone();
                        hist.push(i);
                        if matches!(op, Op::DeleteDeep(..)) {
                            deep.lock().unwrap().push((id, n.net + delta, hist));
                            return Ok(());
                        }
                        let mut known = known.lock().unwrap();
                        if let Some((was, by)) = known.get(&id) {
                            ensure_eq!(
                                n.net + delta,
                                *was,
                                "net bytes paid (this operation {delta}); the same content after [{}]",
                                show(by)
                            );
                        } else {
                            known.insert(id, (n.net + delta, hist.clone()));
                            ctx.state(&id.to_le_bytes());
                            next.lock().unwrap().push(Node {
                                snap,
                                net: n.net + delta,
                                hist,
                            });
                        }
                        Ok(())
                    },
                );
            }
        });
        frontier = next.into_inner().unwrap();
        frontier.sort_by(|a, b| a.hist.cmp(&b.hist));
        if frontier.is_empty() {
            break;
        }
        if d + 1 == depth {
            break;
        }
    }
    let known = known.into_inner().unwrap();
    for (id, net, hist) in deep.into_inner().unwrap() {
        let Some((was, by)) = known.get(&id) else {
            continue;
        };
        ctx.case(
            || format!("{name}: {}", show(&hist)),
            || {
                kit::ensure!(
                    net >= *was,
                    "net bytes paid are {net}, but {was} for the same content after [{}]",
                    show(by)
                );
                Ok(())
            },
        );
    }
    ctx.bound(format!(
        "{name}: every sequence of up to {depth} of {} operations",
        ops.len()
    ));
}

fn d12(ctx: &Ctx) {
    let mut ops = vec![];
    for path in ["", "t"] {
        for key in ["a", "b", "t"] {
            ops.push(Op::Insert(p(path), k(key), item("x")));
            ops.push(Op::Insert(p(path), k(key), item("a longer value")));
            ops.push(Op::Insert(p(path), k(key), Element::empty_tree()));
            ops.push(Op::Delete(p(path), k(key)));
        }
    }
    world(ctx, "items", &[], &ops, ctx.pick(4, 5));
    for (i, outer) in trees().into_iter().enumerate() {
        let mut ops = vec![];
        for key in ["0", "1", "2", "3"] {
            ops.push(Op::Insert(p("t"), k(key), item("x")));
            ops.push(Op::Insert(p("t"), k(key), Element::new_sum_item(5)));
            ops.push(Op::Delete(p("t"), k(key)));
        }
        world(
            ctx,
            &format!("tree {i}"),
            &[Op::Insert(vec![], k("t"), outer)],
            &ops,
            ctx.pick(5, 8),
        );
    }
    // every kind of element replaces every other
    let kinds = [
        item("x"),
        item(&"y".repeat(200)),
        Element::new_item_with_flags(b"x".to_vec(), Some(vec![1, 2, 3])),
        Element::new_sum_item(5),
        Element::new_sum_item(i64::MIN),
        Element::new_sum_item_with_flags(5, Some(vec![7; 40])),
        Element::new_item_with_sum_item(b"x".to_vec(), 5),
        Element::new_item_with_sum_item_with_flags(vec![3; 130], -1, Some(vec![9])),
        Element::new_reference(grovedb::reference_path::ReferencePathType::SiblingReference(k("z"))),
        Element::new_reference_with_flags(
            grovedb::reference_path::ReferencePathType::AbsolutePathReference(vec![k("t"), k("z")]),
            Some(vec![1; 20]),
        ),
    ];
    for (i, outer) in trees().into_iter().enumerate() {
        let mut ops = vec![];
        for key in ["0", "1"] {
            for e in kinds.iter().chain(&trees()) {
                ops.push(Op::Insert(p("t"), k(key), e.clone()));
            }
            ops.push(Op::Delete(p("t"), k(key)));
        }
        world(
            ctx,
            &format!("kinds in tree {i}"),
            &[
                Op::Insert(vec![], k("t"), outer),
                Op::Insert(p("t"), k("z"), Element::new_sum_item(3)),
            ],
            &ops,
            ctx.pick(2, 3),
        );
    }
    // lengths around the steps of the length prefixes
    let mut ops = vec![];
    for key in [vec![7u8; 1], vec![7u8; 255]] {
        for len in (0..40).chain(55..70).chain(110..135).chain([16_300, 16_384, 65_536]) {
            ops.push(Op::Insert(vec![], key.clone(), Element::new_item(vec![1; len])));
        }
        for len in (0..20).chain(85..130) {
            ops.push(Op::Insert(
                vec![],
                key.clone(),
                Element::new_item_with_flags(vec![1; 9], Some(vec![2; len])),
            ));
        }
        ops.push(Op::Delete(vec![], key));
    }
    world(ctx, "lengths", &[], &ops, 2);
    // trees in trees: the aggregates above change with what is below
    for (i, outer) in trees().into_iter().enumerate() {
        for (j, inner) in trees().into_iter().enumerate() {
            let mut ops = vec![];
            for (path, key) in [("t", "s"), ("t/s", "0"), ("t/s", "1")] {
                ops.push(Op::Insert(p(path), k(key), item("x")));
                ops.push(Op::Insert(p(path), k(key), Element::new_sum_item(i64::MAX / 5)));
                ops.push(Op::Insert(p(path), k(key), Element::new_sum_item(-1)));
                ops.push(Op::Insert(p(path), k(key), inner.clone()));
                ops.push(Op::Delete(p(path), k(key)));
            }
            world(
                ctx,
                &format!("tree {j} in tree {i}"),
                &[
                    Op::Insert(vec![], k("t"), outer.clone()),
                    Op::Insert(p("t"), k("s"), inner),
                ],
                &ops,
                ctx.pick(3, 5),
            );
        }
    }
    // batches and single operations, deletes of whole trees
    for (i, outer) in trees().into_iter().enumerate() {
        let a = |e: Element| B::Put(p("t"), k("a"), e);
        let b = |e: Element| B::Put(p("t/s"), k("b"), e);
        let ops = vec![
            Op::Insert(p("t"), k("a"), item("x")),
            Op::Insert(p("t/s"), k("b"), Element::new_sum_item(4)),
            Op::Insert(p("t"), k("s"), Element::empty_tree()),
            Op::Batch(vec![a(item("x")), b(Element::new_sum_item(4))]),
            Op::Batch(vec![a(Element::new_sum_item(4)), b(item("x"))]),
            Op::Batch(vec![a(Element::new_item_with_sum_item(b"i".to_vec(), 1)), B::Delete(p("t/s"), k("b"))]),
            Op::Batch(vec![B::Delete(p("t"), k("a")), b(item("longer than before"))]),
            Op::Batch(vec![
                B::PutNew(p("t"), k("s"), Element::empty_tree()),
                b(Element::new_sum_item(4)),
            ]),
            Op::Batch(vec![
                B::Delete(p("t/s"), k("b")),
                B::DeleteTree(
                    p("t"),
                    k("s"),
                    TreeType::NormalTree,
                    SubelementsDeletionBehavior::Error,
                ),
            ]),
            Op::Delete(p("t"), k("a")),
            Op::Delete(p("t/s"), k("b")),
            Op::Delete(p("t"), k("s")),
            Op::DeleteDeep(p("t"), k("s")),
            Op::DeleteUp(p("t/s"), k("b"), None),
        ];
        world(
            ctx,
            &format!("batches in tree {i}"),
            &[
                Op::Insert(vec![], k("t"), outer),
                Op::Insert(p("t"), k("z"), item("z")),
                Op::Insert(p("t"), k("s"), Element::empty_tree()),
            ],
            &ops,
            ctx.pick(4, 6),
        );
    }
    // appended one by one or together
    let vals = [b"x".to_vec(), vec![5; 200]];
    let data: [(&str, Element, fn(Vec<u8>) -> Op, fn(Vec<u8>) -> B); 3] = [
        (
            "mmr",
            Element::empty_mmr_tree(),
            |v| Op::Mmr(vec![], k("m"), v),
            |v| B::Mmr(p("m"), v),
        ),
        (
            "bulk",
            Element::empty_bulk_append_tree(2).expect("bulk tree"),
            |v| Op::Bulk(vec![], k("m"), v),
            |v| B::Bulk(p("m"), v),
        ),
        (
            "dense",
            Element::empty_dense_tree(4),
            |v| Op::Dense(vec![], k("m"), v),
            |v| B::Dense(p("m"), v),
        ),
    ];
    for (name, tree, one, many) in data {
        let mut ops = vec![];
        for v in &vals {
            ops.push(one(v.clone()));
            for w in &vals {
                ops.push(Op::Batch(vec![many(v.clone()), many(w.clone())]));
                for x in &vals {
                    ops.push(Op::Batch(vec![
                        many(v.clone()),
                        many(w.clone()),
                        many(x.clone()),
                    ]));
                }
            }
        }
        world(
            ctx,
            name,
            &[Op::Insert(vec![], k("m"), tree)],
            &ops,
            ctx.pick(3, 4),
        );
    }
}
