//! Estimates of what batches cost.
use std::collections::HashMap;

use grovedb::{
    batch::{estimated_costs::EstimatedCostsType, key_info::KeyInfo, KeyInfoPath, QualifiedGroveDbOp, SubelementsDeletionBehavior as S},
    reference_path::ReferencePathType as R,
    Element, GroveDb,
};
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::NoStorageRemoval;
use grovedb_merk::{
    element::tree_type::ElementTreeTypeExtensions, estimated_costs::worst_case_costs::WorstCaseLayerInformation as W, tree_type::TreeType,
};
use kit::{ensure, Ctx, Res};

use crate::{
    audit::Path,
    engine::{initial, snap_bytes, Db, State},
    maps::{item, k, p},
    model::{join, v, Op, B},
};

/// The path of the tree an operation is on, and where it takes place in it.
fn place(o: &B) -> Path {
    o.at().unwrap()
}

fn check(ctx: &Ctx, st: &State, ops: &[B]) -> Res {
    let db = Db::at(&st.snap);
    let real: Vec<_> = ops.iter().map(B::real).collect();
    let got = db.apply_batch(real.clone(), None, None, v());
    if got.value.is_err() {
        ctx.outcome("refused");
        return Ok(());
    }
    ctx.outcome("done");
    // how many elements the trees can have
    let most = |path: &[Vec<u8>]| st.model.children(path).len() as u32 + ops.len() as u32;
    let mut counts = HashMap::new();
    let mut levels = HashMap::new();
    for o in ops {
        let at = place(o);
        for l in 0..at.len() {
            let path = KeyInfoPath(at[..l].iter().map(|s| KeyInfo::KnownKey(s.clone())).collect());
            let n = most(&at[..l]);
            counts.insert(path.clone(), W::MaxElementsNumber(n));
            levels.insert(path, W::NumberOfLevels((1.44 * ((n + 2) as f32).log2()).ceil() as u32));
        }
    }
    let sizes: Option<Vec<_>> = ops.iter().map(sized).collect();
    for (how, paths, ops2) in [
        ("number of elements", counts.clone(), Some(real.clone())),
        ("levels", levels, Some(real)),
        ("number of elements and sizes of keys", counts, sizes),
    ] {
        let Some(ops2) = ops2 else {
            continue;
        };
        let est = GroveDb::estimated_case_operations_for_batch(
            EstimatedCostsType::WorstCaseCostsType(paths),
            ops2,
            None,
            |_, _, _| Ok(false),
            |_, _, _| Ok((NoStorageRemoval, NoStorageRemoval)),
            v(),
        );
        ensure!(est.value.is_ok(), "by {how}: no estimate: {:?}", est.value);
        let (e, r) = (&est.cost, &got.cost);
        let seeks = ops.len() > 1 || matches!(ops[0], B::DeleteTree(..)) || e.seek_count >= r.seek_count;
        for (what, ok) in [
            ("seeks", seeks),
            ("loaded bytes", e.storage_loaded_bytes >= r.storage_loaded_bytes),
            ("hashes", e.hash_node_calls >= r.hash_node_calls),
            ("sinsemilla hashes", e.sinsemilla_hash_calls >= r.sinsemilla_hash_calls),
            ("added bytes", e.storage_cost.added_bytes >= r.storage_cost.added_bytes),
            ("replaced bytes", e.storage_cost.replaced_bytes >= r.storage_cost.replaced_bytes),
        ] {
            ensure!(ok, "by {how}, {what}: worst case {e:?}, but it took {r:?}");
        }
        ensure!(e.storage_cost.removed_bytes <= r.storage_cost.removed_bytes, "by {how}, removed: {e:?} {r:?}");
    }
    Ok(())
}

/// The same operation with a key of which only the size is known.
fn sized(o: &B) -> Option<QualifiedGroveDbOp> {
    let path = |p: &Path| KeyInfoPath(p.iter().map(|s| KeyInfo::KnownKey(s.clone())).collect());
    let key = |k: &Vec<u8>| KeyInfo::MaxKeySize { unique_id: k.clone(), max_size: k.len().max(4) as u8 };
    Some(match o {
        B::Put(p, k, e) => QualifiedGroveDbOp::insert_estimated_op(path(p), key(k), e.clone()),
        B::Replace(p, k, e) => QualifiedGroveDbOp::replace_estimated_op(path(p), key(k), e.clone()),
        B::Delete(p, k) => QualifiedGroveDbOp::delete_estimated_op(path(p), key(k)),
        B::DeleteTree(p, k, t, b) => QualifiedGroveDbOp::delete_estimated_tree_op(path(p), key(k), *t, *b),
        _ => return None,
    })
}

pub fn d23(ctx: &Ctx) {
    let ins = |path: &str, key: &str, e: Element| Op::Insert(p(path), k(key), e);
    let names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
    let long = "a much longer value that takes more than one block to hash, to see what it costs";
    // the estimate takes every tree for a normal one, and leaves out appends
    let outer = Element::empty_tree();
    let kind = outer.tree_type().unwrap();
    let sizes = ctx.pick(vec![0, 1, 2, 3, 5, 7, 12], (0..=12).collect::<Vec<usize>>());
    {
        for n in sizes.iter().copied() {
            let mut init = vec![
                ins("", "t", outer.clone()),
                ins("", "u", Element::empty_tree()),
                ins("t", "s", outer.clone()),
                ins("", "r", item("x")),
                ins("u", "m", Element::empty_mmr_tree()),
                ins("u", "b", Element::empty_bulk_append_tree(1).unwrap()),
                ins("u", "d", Element::empty_dense_tree(3)),
                ins("u", "c", Element::empty_commitment_tree(2).unwrap()),
            ];
            for name in &names[..n] {
                init.push(ins("t", name, item("some value")));
            }
            for x in &names[..n.min(6)] {
                init.push(Op::Mmr(p("u"), k("m"), k(x)));
                init.push(Op::Bulk(p("u"), k("b"), k(x)));
                init.push(Op::Dense(p("u"), k("d"), k(x)));
                init.push(Op::Commit(p("u"), k("c"), k(x)));
            }
            let st = initial(&init).unwrap();
            ctx.state(&snap_bytes(&st.snap));
            let mut ops = vec![];
            for path in ["", "t", "u", "t/s"] {
                for key in ["a", "c", "h", "zz"] {
                    for e in [
                        item("i"),
                        item(long),
                        Element::empty_tree(),
                        Element::new_item_with_flags(k("x"), Some(vec![1, 2, 3])),
                        Element::new_reference(R::AbsolutePathReference(vec![k("r")])),
                        Element::new_sum_item(-5),
                        Element::new_item_with_sum_item(k("x"), 1 << 40),
                        Element::empty_sum_tree(),
                        Element::empty_count_sum_tree(),
                        Element::empty_mmr_tree(),
                    ] {
                        ops.push(B::Put(p(path), k(key), e.clone()));
                        ops.push(B::PutNew(p(path), k(key), e.clone()));
                        ops.push(B::PutSkip(p(path), k(key), e.clone()));
                        ops.push(B::Known(p(path), k(key), e));
                    }
                    ops.push(B::Delete(p(path), k(key)));
                    if st.model.map.get(&join(&p(path), &k(key))).is_some() {
                        ops.push(B::Replace(p(path), k(key), item("other one!")));
                    }
                }
            }
            for b in [S::Error, S::DontCheckWithNoCleanup, S::Skip] {
                ops.push(B::DeleteTree(p("t"), k("s"), kind, b));
                ops.push(B::DeleteTree(vec![], k("u"), TreeType::NormalTree, b));
            }
            let mut sets: Vec<Vec<B>> = ops.iter().map(|o| vec![o.clone()]).collect();
            for (j, a) in ops.iter().enumerate() {
                for b in ops[j + 1..].iter().filter(|b| b.at() != a.at()) {
                    sets.push(vec![a.clone(), b.clone()]);
                }
            }
            let few: Vec<&B> = ops
                .iter()
                .filter(|o| match o {
                    B::Put(_, _, e) => *e == item(long) || *e == Element::empty_tree(),
                    B::Delete(..) | B::Replace(..) => true,
                    _ => false,
                })
                .collect();
            for (i, a) in few.iter().enumerate() {
                for (j, b) in few.iter().enumerate().skip(i + 1).filter(|x| x.1.at() != a.at()) {
                    for c in few[j + 1..].iter().filter(|c| c.at() != a.at() && c.at() != b.at()) {
                        sets.push(vec![(*a).clone(), (*b).clone(), (*c).clone()]);
                    }
                }
            }
            ctx.par(&sets, |ops| {
                ctx.step();
                ctx.case(|| format!("{n} keys; {}", Op::Batch(ops.clone()).show()), || check(ctx, &st, ops));
            });
        }
    }
    ctx.bound(format!("trees of {} sizes; single operations and pairs and triples of them", sizes.len()));
}
