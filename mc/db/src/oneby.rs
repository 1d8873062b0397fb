//! The operations of a batch applied one by one: what each of them does by
//! itself, up to the first that fails.
use grovedb::{
    batch::{BatchApplyOptions, SubelementsDeletionBehavior as S},
    Element,
};
use kit::{ensure, Ctx, Res};

use crate::{
    batches::{batch_worlds, W},
    engine::{audit_model, initial, snap_bytes, Db, State},
    model::{join, v, Op, Out, B},
};

/// How insertions are protected: not told, or none, trees, everything.
const MODES: [Option<(bool, bool)>; 4] = [None, Some((false, false)), Some((true, false)), Some((false, true))];

fn options(mode: usize) -> Option<BatchApplyOptions> {
    MODES[mode].map(|(trees, all)| BatchApplyOptions {
        validate_insertion_does_not_override_tree: trees,
        validate_insertion_does_not_override: all,
        ..Default::default()
    })
}

enum Next {
    Done(State),
    Fails,
    /// what may happen is not told
    Scope,
}

/// What a single operation makes of the model.
fn one(st: &State, o: &B, mode: usize) -> Next {
    // not told: trees are protected
    let (trees, all) = MODES[mode].unwrap_or((true, false));
    let mut new = st.clone();
    let full = o.at();
    let there = full.as_ref().and_then(|f| st.model.map.get(f)).map(|c| c.el.clone());
    let is_tree = there.as_ref().is_some_and(Element::is_any_tree);
    let split = |p: &Vec<Vec<u8>>| {
        let mut p = p.clone();
        p.pop().map(|k| (p, k))
    };
    let op = match o {
        B::Put(p, k, e) | B::Replace(p, k, e) | B::Known(p, k, e) => {
            if all {
                Op::InsertNew(p.clone(), k.clone(), e.clone())
            } else if is_tree && !trees {
                // what it holds would be left behind
                if st.model.is_empty_tree(&join(p, k)) != Some(true) {
                    return Next::Scope;
                }
                new.model.map.remove(&join(p, k));
                Op::Insert(p.clone(), k.clone(), e.clone())
            } else {
                Op::Insert(p.clone(), k.clone(), e.clone())
            }
        }
        B::PutNew(p, k, e) => Op::InsertNew(p.clone(), k.clone(), e.clone()),
        B::PutSkip(p, k, e) => Op::InsertIfNotExists(p.clone(), k.clone(), e.clone()),
        B::Patch(..) | B::Refresh(..) => return Next::Fails,
        B::Delete(p, k) => Op::Delete(p.clone(), k.clone()),
        B::DeleteTree(p, k, _, S::Error) => Op::Delete(p.clone(), k.clone()),
        B::DeleteTree(p, k, _, S::Skip) => Op::DeleteIfEmpty(p.clone(), k.clone()),
        B::DeleteTree(p, k, _, S::DeleteChildren | S::DontCheckWithNoCleanup) => Op::DeleteDeep(p.clone(), k.clone()),
        B::Mmr(p, x) => match split(p) {
            Some((p, k)) => Op::Mmr(p, k, x.clone()),
            None => return Next::Fails,
        },
        B::Bulk(p, x) => match split(p) {
            Some((p, k)) => Op::Bulk(p, k, x.clone()),
            None => return Next::Fails,
        },
        B::Dense(p, x) => match split(p) {
            Some((p, k)) => Op::Dense(p, k, x.clone()),
            None => return Next::Fails,
        },
        B::Commit(p, x) => match split(p) {
            Some((p, k)) => Op::Commit(p, k, x.clone()),
            None => return Next::Fails,
        },
    };
    if new.model.apply(&st.audit, &op) == Out::Err {
        return Next::Fails;
    }
    Next::Done(new)
}

/// Applies `ops` to what `w` starts with; `st` is what the first of them,
/// up to `failed` if one did, have come to.
fn apply(ctx: &Ctx, first: &State, st: &State, ops: &[B], mode: usize, failed: bool) -> Result<Option<(State, bool)>, String> {
    let next = if failed { Next::Fails } else { one(st, ops.last().unwrap(), mode) };
    let (mut want, fails) = match next {
        Next::Scope => return Ok(None),
        Next::Fails => (st.clone(), true),
        Next::Done(new) => (new, false),
    };
    let real: Vec<_> = ops.iter().map(B::real).collect();
    let db = Db::at(&first.snap);
    let got = db.apply_operations_without_batching(real.clone(), options(mode), None, v()).unwrap();
    let after = db.snap();
    ctx.outcome(if got.is_ok() { "done" } else { "stopped" });
    ensure!(got.is_err() == fails, "gave {got:?}, but an operation {}", if fails { "fails" } else { "does not fail" });
    if fails {
        ensure!(after == st.snap, "after the operation that fails, what is stored is not what those before it make");
    }
    want.audit = audit_model(&after, &want.model).map_err(|e| format!("afterwards: {e}"))?;
    want.snap = after;
    let root = db.root_hash(None, v()).unwrap().map_err(|e| format!("root_hash: {e:?}"))?;
    ensure!(root == want.audit.root_hash, "root_hash is not that of the contents");
    // in a transaction
    let db = Db::at(&first.snap);
    let tx = db.start_transaction();
    let got2 = db.apply_operations_without_batching(real, options(mode), Some(&tx), v()).unwrap();
    ensure!(got2.is_ok() == got.is_ok(), "in a transaction it gave {got2:?}, without {got:?}");
    ensure!(db.snap() == first.snap, "an open transaction changed what is stored");
    let root2 = db.root_hash(Some(&tx), v()).unwrap().map_err(|e| format!("root_hash in the transaction: {e:?}"))?;
    ensure!(root2 == root, "in the transaction the root hash is another");
    db.commit_transaction(tx).unwrap().map_err(|e| format!("commit: {e:?}"))?;
    ensure!(db.snap() == want.snap, "committing the transaction gives something else");
    Ok(Some((want, fails)))
}

struct Walk<'a> {
    ctx: &'a Ctx,
    w: &'a W,
    first: &'a State,
    mode: usize,
    len: usize,
}
impl Walk<'_> {
    fn go(&self, st: &State, ops: &mut Vec<B>, failed: bool, from: Option<usize>) {
        for (i, o) in self.w.ops.iter().enumerate() {
            if from.is_some_and(|f| f != i) {
                continue;
            }
            ops.push(o.clone());
            self.ctx.step();
            let mut came = None;
            self.ctx.case(
                || format!("{}; mode {}; {}", self.w.name, self.mode, Op::Batch(ops.clone()).show()),
                || -> Res {
                    came = apply(self.ctx, self.first, st, ops, self.mode, failed)?;
                    Ok(())
                },
            );
            if let Some((new, stop)) = came {
                self.ctx.state(&snap_bytes(&new.snap));
                // after the one that fails, one more
                if ops.len() < self.len && !failed {
                    self.go(&new, ops, stop, None);
                }
            }
            ops.pop();
        }
    }
}

pub fn d25(ctx: &Ctx) {
    let len = ctx.pick(3, 3);
    for w in batch_worlds(ctx.thorough) {
        let st = initial(&w.init).unwrap_or_else(|e| panic!("{}: {e}", w.name));
        ctx.bound(format!("{}: every sequence of up to {len} of {} operations one by one, in four ways of protecting what is there, with and without a transaction", w.name, w.ops.len()));
        let firsts: Vec<(usize, usize)> = (0..MODES.len()).flat_map(|m| (0..w.ops.len()).map(move |i| (m, i))).collect();
        ctx.par(&firsts, |&(mode, i)| {
            Walk { ctx, w: &w, first: &st, mode, len }.go(&st, &mut vec![], false, Some(i));
        });
    }
}
