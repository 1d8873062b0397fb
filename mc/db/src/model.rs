//! The specification: a database is a map from paths to elements.
use std::collections::BTreeMap;

use grovedb::{
    batch::{QualifiedGroveDbOp, SubelementsDeletionBehavior},
    operations::{
        delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions},
        insert::InsertOptions,
    },
    reference_path::ReferencePathType,
    Element, Error, GroveDb, TransactionArg,
};
use grovedb_commitment_tree::{DashMemo, Hashable, MemoSize, MerkleHashOrchard, NoteBytes, NoteBytesData, TransmittedNoteCiphertext};
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use grovedb_merk::tree_type::TreeType;
use grovedb_version::version::GroveVersion;

use crate::{
    audit::{self, show_path, value_hash, Audit, Hash, Kind, Path, NULL},
    data,
};

pub type Key = Vec<u8>;

pub fn v() -> &'static GroveVersion {
    GroveVersion::latest()
}

/// An element without what the database fills in.
pub fn norm(e: &Element) -> Element {
    let mut e = e.clone();
    match &mut e {
        Element::Tree(r, _) => *r = None,
        Element::SumTree(r, s, _) => {
            *r = None;
            *s = 0
        }
        Element::BigSumTree(r, s, _) => {
            *r = None;
            *s = 0
        }
        Element::CountTree(r, c, _) | Element::ProvableCountTree(r, c, _) => {
            *r = None;
            *c = 0
        }
        Element::CountSumTree(r, c, s, _) | Element::ProvableCountSumTree(r, c, s, _) => {
            *r = None;
            *c = 0;
            *s = 0
        }
        Element::MmrTree(n, _) | Element::BulkAppendTree(n, ..) | Element::CommitmentTree(n, ..) => {
            *n = 0
        }
        Element::DenseAppendOnlyFixedSizeTree(n, ..) => *n = 0,
        _ => {}
    }
    e
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    /// normalised
    pub el: Element,
    /// values of a data tree
    pub data: Vec<Vec<u8>>,
    /// for references: value hash of what it was resolved to when stored
    pub target: Option<Hash>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub map: BTreeMap<Path, Cell>,
    pub aux: BTreeMap<Vec<u8>, Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(Path, Key, Element),
    InsertNew(Path, Key, Element),
    InsertIfNotExists(Path, Key, Element),
    InsertReturning(Path, Key, Element),
    InsertIfChanged(Path, Key, Element),
    Delete(Path, Key),
    DeleteDeep(Path, Key),
    DeleteIfEmpty(Path, Key),
    DeleteUp(Path, Key, Option<u16>),
    Clear(Path),
    ClearDeep(Path),
    ClearSoft(Path),
    Mmr(Path, Key, Vec<u8>),
    Bulk(Path, Key, Vec<u8>),
    Dense(Path, Key, Vec<u8>),
    /// into a commitment tree, see `note`
    Commit(Path, Key, Vec<u8>),
    PutAux(Key, Vec<u8>),
    DelAux(Key),
    Batch(Vec<B>),
}

/// One operation of a batch.
#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Put(Path, Key, Element),
    PutNew(Path, Key, Element),
    PutSkip(Path, Key, Element),
    Replace(Path, Key, Element),
    Patch(Path, Key, Element),
    /// known not to exist
    Known(Path, Key, Element),
    Refresh(Path, Key, ReferencePathType, bool),
    Delete(Path, Key),
    DeleteTree(Path, Key, TreeType, SubelementsDeletionBehavior),
    Mmr(Path, Vec<u8>),
    Bulk(Path, Vec<u8>),
    Dense(Path, Vec<u8>),
    Commit(Path, Vec<u8>),
}

fn lab(p: &Path, k: &Key) -> String {
    let mut q = p.clone();
    q.push(k.clone());
    show_path(&q)
}
pub fn show_el(e: &Element) -> String {
    let f = |f: &Option<Vec<u8>>| f.as_ref().map_or(String::new(), |f| format!("!{}", kit::hex(f)));
    match e {
        Element::Item(v, fl) => format!("item({}){}", kit::hex(v), f(fl)),
        Element::SumItem(s, fl) => format!("sum({s}){}", f(fl)),
        Element::ItemWithSumItem(v, s, fl) => format!("itemsum({},{s}){}", kit::hex(v), f(fl)),
        Element::Reference(r, h, fl) => format!("ref({}{}){}", show_ref(r), h.map_or(String::new(), |h| format!(";{h}")), f(fl)),
        Element::Tree(_, fl) => format!("tree{}", f(fl)),
        Element::SumTree(_, s, fl) => format!("sumtree{s}{}", f(fl)),
        Element::BigSumTree(_, s, fl) => format!("bigsumtree{s}{}", f(fl)),
        Element::CountTree(_, c, fl) => format!("counttree{c}{}", f(fl)),
        Element::CountSumTree(_, c, s, fl) => format!("countsumtree{c},{s}{}", f(fl)),
        Element::ProvableCountTree(_, c, fl) => format!("pcounttree{c}{}", f(fl)),
        Element::ProvableCountSumTree(_, c, s, fl) => format!("pcountsumtree{c},{s}{}", f(fl)),
        Element::CommitmentTree(n, p, fl) => format!("commitment{n},{p}{}", f(fl)),
        Element::MmrTree(n, fl) => format!("mmr{n}{}", f(fl)),
        Element::BulkAppendTree(n, p, fl) => format!("bulk{n},{p}{}", f(fl)),
        Element::DenseAppendOnlyFixedSizeTree(n, h, fl) => format!("dense{n},{h}{}", f(fl)),
    }
}
fn show_ref(r: &ReferencePathType) -> String {
    use ReferencePathType::*;
    match r {
        AbsolutePathReference(p) => format!("abs{}", show_path(p)),
        UpstreamRootHeightReference(n, p) => format!("up{n}{}", show_path(p)),
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
            format!("uppar{n}{}", show_path(p))
        }
        UpstreamFromElementHeightReference(n, p) => format!("from{n}{}", show_path(p)),
        CousinReference(k) => format!("cousin:{}", kit::hex(k)),
        RemovedCousinReference(p) => format!("rcousin{}", show_path(p)),
        SiblingReference(k) => format!("sibling:{}", kit::hex(k)),
    }
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Insert(p, k, e) => format!("insert {} {}", lab(p, k), show_el(e)),
            Op::InsertNew(p, k, e) => format!("insert-new {} {}", lab(p, k), show_el(e)),
            Op::InsertIfNotExists(p, k, e) => format!("insert-absent {} {}", lab(p, k), show_el(e)),
            Op::InsertReturning(p, k, e) => format!("insert-returning {} {}", lab(p, k), show_el(e)),
            Op::InsertIfChanged(p, k, e) => format!("insert-changed {} {}", lab(p, k), show_el(e)),
            Op::Delete(p, k) => format!("delete {}", lab(p, k)),
            Op::DeleteDeep(p, k) => format!("delete-deep {}", lab(p, k)),
            Op::DeleteIfEmpty(p, k) => format!("delete-if-empty {}", lab(p, k)),
            Op::DeleteUp(p, k, s) => format!("delete-up {} {s:?}", lab(p, k)),
            Op::Clear(p) => format!("clear {}", show_path(p)),
            Op::ClearDeep(p) => format!("clear-deep {}", show_path(p)),
            Op::ClearSoft(p) => format!("clear-soft {}", show_path(p)),
            Op::Mmr(p, k, x) => format!("mmr {} {}", lab(p, k), kit::hex(x)),
            Op::Bulk(p, k, x) => format!("bulk {} {}", lab(p, k), kit::hex(x)),
            Op::Dense(p, k, x) => format!("dense {} {}", lab(p, k), kit::hex(x)),
            Op::Commit(p, k, x) => format!("commit {} {}", lab(p, k), kit::hex(x)),
            Op::PutAux(k, x) => format!("put-aux {} {}", kit::hex(k), kit::hex(x)),
            Op::DelAux(k) => format!("del-aux {}", kit::hex(k)),
            Op::Batch(b) => format!(
                "batch[{}]",
                b.iter().map(|b| b.show()).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}
impl B {
    pub fn show(&self) -> String {
        match self {
            B::Put(p, k, e) => format!("put {} {}", lab(p, k), show_el(e)),
            B::PutNew(p, k, e) => format!("put-new {} {}", lab(p, k), show_el(e)),
            B::PutSkip(p, k, e) => format!("put-skip {} {}", lab(p, k), show_el(e)),
            B::Replace(p, k, e) => format!("replace {} {}", lab(p, k), show_el(e)),
            B::Patch(p, k, e) => format!("patch {} {}", lab(p, k), show_el(e)),
            B::Known(p, k, e) => format!("put-known {} {}", lab(p, k), show_el(e)),
            B::Refresh(p, k, r, t) => format!("refresh {} {}{}", lab(p, k), show_ref(r), if *t { " trusted" } else { "" }),
            B::Delete(p, k) => format!("delete {}", lab(p, k)),
            B::DeleteTree(p, k, t, b) => format!("delete-tree {} {t:?} {b:?}", lab(p, k)),
            B::Mmr(p, x) => format!("mmr {} {}", show_path(p), kit::hex(x)),
            B::Bulk(p, x) => format!("bulk {} {}", show_path(p), kit::hex(x)),
            B::Dense(p, x) => format!("dense {} {}", show_path(p), kit::hex(x)),
            B::Commit(p, x) => format!("commit {} {}", show_path(p), kit::hex(x)),
        }
    }
    pub fn real(&self) -> QualifiedGroveDbOp {
        use QualifiedGroveDbOp as Q;
        match self.clone() {
            B::Put(p, k, e) => Q::insert_or_replace_op(p, k, e),
            B::PutNew(p, k, e) => Q::insert_if_not_exists_op(p, k, e),
            B::PutSkip(p, k, e) => Q::insert_if_not_exists_or_skip_op(p, k, e),
            B::Replace(p, k, e) => Q::replace_op(p, k, e),
            B::Patch(p, k, e) => Q::patch_op(p, k, e, 1),
            B::Known(p, k, e) => Q::insert_only_known_to_not_already_exist_op(p, k, e),
            B::Refresh(p, k, r, t) => Q::refresh_reference_op(p, k, r, None, None, t),
            B::Delete(p, k) => Q::delete_op(p, k),
            B::DeleteTree(p, k, t, b) => Q::delete_tree_op(p, k, t, b),
            B::Mmr(p, x) => Q::mmr_tree_append_op(p, x),
            B::Bulk(p, x) => Q::bulk_append_op(p, x),
            B::Dense(p, x) => Q::dense_tree_insert_op(p, x),
            B::Commit(p, x) => {
                let n = note(&x);
                if n.payload.len() == 216 && x.last() == Some(&b'2') {
                    Q::commitment_tree_insert_op_typed(p, n.cmx, n.rho, &cipher::<DashMemo>(&n.payload))
                } else {
                    Q::commitment_tree_insert_op(p, n.cmx, n.rho, n.payload)
                }
            }
        }
    }
}

/// What an operation returns.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    El(Option<Element>),
    Changed(bool, Option<Element>),
    Num(u64),
    Root(Hash, u64),
    Err,
}

thread_local! {
    /// What the last operation of this thread cost.
    pub static LAST_COST: std::cell::RefCell<OperationCost> = Default::default();
}

pub fn run(db: &GroveDb, op: &Op, tx: TransactionArg) -> (Out, Option<Error>) {
    fn f<T>(r: CostResult<T, Error>, g: impl Fn(T) -> Out) -> (Out, Option<Error>) {
        LAST_COST.with(|c| *c.borrow_mut() = r.cost);
        match r.value {
            Ok(x) => (g(x), None),
            Err(e) => (Out::Err, Some(e)),
        }
    }
    let unit = |_: ()| Out::Unit;
    match op.clone() {
        Op::Insert(p, k, e) => f(
            db.insert(p.as_slice(), &k, e, None, tx, v()),
            unit,
        ),
        Op::InsertNew(p, k, e) => f(
            db.insert(
                p.as_slice(),
                &k,
                e,
                Some(InsertOptions {
                    validate_insertion_does_not_override: true,
                    ..Default::default()
                }),
                tx,
                v(),
            ),
            unit,
        ),
        Op::InsertIfNotExists(p, k, e) => f(
            db.insert_if_not_exists(p.as_slice(), &k, e, tx, v()),
            Out::Bool,
        ),
        Op::InsertReturning(p, k, e) => f(
            db.insert_if_not_exists_return_existing_element(p.as_slice(), &k, e, tx, v()),
            |e| Out::El(e.map(|e| norm(&e))),
        ),
        Op::InsertIfChanged(p, k, e) => f(
            db.insert_if_changed_value(p.as_slice(), &k, e, tx, v()),
            |(c, e)| Out::Changed(c, e.map(|e| norm(&e))),
        ),
        Op::Delete(p, k) => f(db.delete(p.as_slice(), &k, None, tx, v()), unit),
        Op::DeleteDeep(p, k) => f(
            db.delete(
                p.as_slice(),
                &k,
                Some(DeleteOptions {
                    allow_deleting_non_empty_trees: true,
                    deleting_non_empty_trees_returns_error: false,
                    ..Default::default()
                }),
                tx,
                v(),
            ),
            unit,
        ),
        Op::DeleteIfEmpty(p, k) => f(
            db.delete_if_empty_tree(p.as_slice(), &k, tx, v()),
            Out::Bool,
        ),
        Op::DeleteUp(p, k, stop) => f(
            db.delete_up_tree_while_empty(
                p.as_slice(),
                &k,
                &DeleteUpTreeOptions {
                    stop_path_height: stop,
                    ..Default::default()
                },
                tx,
                v(),
            ),
            |n| Out::Num(n as u64),
        ),
        Op::Clear(p) => f(
            db.clear_subtree(p.as_slice(), None, tx, v())
                .wrap_with_cost(OperationCost::default()),
            Out::Bool,
        ),
        Op::ClearDeep(p) => f(
            db.clear_subtree(
                p.as_slice(),
                Some(ClearOptions {
                    check_for_subtrees: true,
                    allow_deleting_subtrees: true,
                    trying_to_clear_with_subtrees_returns_error: false,
                }),
                tx,
                v(),
            )
            .wrap_with_cost(OperationCost::default()),
            Out::Bool,
        ),
        Op::ClearSoft(p) => f(
            db.clear_subtree(
                p.as_slice(),
                Some(ClearOptions {
                    check_for_subtrees: true,
                    allow_deleting_subtrees: false,
                    trying_to_clear_with_subtrees_returns_error: false,
                }),
                tx,
                v(),
            )
            .wrap_with_cost(OperationCost::default()),
            Out::Bool,
        ),
        Op::Mmr(p, k, x) => f(
            db.mmr_tree_append(p.as_slice(), &k, x, tx, v()),
            |(h, i)| Out::Root(h, i),
        ),
        Op::Bulk(p, k, x) => f(
            db.bulk_append(p.as_slice(), &k, x, tx, v()),
            |(h, i)| Out::Root(h, i),
        ),
        Op::Dense(p, k, x) => f(
            db.dense_tree_insert(p.as_slice(), &k, x, tx, v()),
            |(h, i)| Out::Root(h, i as u64),
        ),
        Op::Commit(p, k, x) => {
            let n = note(&x);
            let done = |(h, i)| Out::Root(h, i);
            if n.payload.len() == 216 {
                f(db.commitment_tree_insert(p.as_slice(), &k, n.cmx, n.rho, cipher::<DashMemo>(&n.payload), tx, v()), done)
            } else {
                f(db.commitment_tree_insert(p.as_slice(), &k, n.cmx, n.rho, cipher::<ShortMemo>(&n.payload), tx, v()), done)
            }
        }
        Op::PutAux(k, x) => f(db.put_aux(&k, &x, None, tx), unit),
        Op::DelAux(k) => f(db.delete_aux(&k, None, tx), unit),
        Op::Batch(b) => f(
            db.apply_batch(b.iter().map(B::real).collect(), None, tx, v()),
            unit,
        ),
    }
}

pub const MAX_HOPS: usize = 10;

pub fn join(p: &[Vec<u8>], k: &[u8]) -> Path {
    let mut q = p.to_vec();
    q.push(k.to_vec());
    q
}

/// Where a reference stored at `at` points.
pub fn resolve(r: &ReferencePathType, at: &[Vec<u8>]) -> Option<Path> {
    use ReferencePathType::*;
    let (key, path) = at.split_last()?;
    Some(match r {
        AbsolutePathReference(p) => p.clone(),
        UpstreamRootHeightReference(n, p) => [path.get(..*n as usize)?, p].concat(),
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => {
            let last = path.last()?.clone();
            [path.get(..*n as usize)?, p, &[last]].concat()
        }
        UpstreamFromElementHeightReference(n, p) => {
            [path.get(..path.len().checked_sub(*n as usize)?)?, p].concat()
        }
        CousinReference(c) => {
            let parent = &path[..path.len().checked_sub(1)?];
            [parent, &[c.clone()], &[key.clone()]].concat()
        }
        RemovedCousinReference(p) => {
            let parent = &path[..path.len().checked_sub(1)?];
            [parent, p, &[key.clone()]].concat()
        }
        SiblingReference(k) => [path, &[k.clone()]].concat(),
    })
}

impl Model {
    pub fn tree_kind(&self, path: &[Vec<u8>]) -> Option<Kind> {
        if path.is_empty() {
            return Some(Kind::Normal);
        }
        Kind::of(&self.map.get(path)?.el)
    }
    /// Keys directly below a path.
    pub fn children(&self, path: &[Vec<u8>]) -> Vec<(Vec<u8>, &Cell)> {
        self.map
            .range(path.to_vec()..)
            .skip_while(|(p, _)| p.as_slice() == path)
            .take_while(|(p, _)| p.starts_with(path))
            .filter(|(p, _)| p.len() == path.len() + 1)
            .map(|(p, c)| (p.last().unwrap().clone(), c))
            .collect()
    }
    fn below(&self, path: &[Vec<u8>]) -> Vec<Path> {
        self.map
            .range(path.to_vec()..)
            .take_while(|(p, _)| p.starts_with(path))
            .filter(|(p, _)| p.len() > path.len())
            .map(|(p, _)| p.clone())
            .collect()
    }
    pub fn is_empty_tree(&self, path: &[Vec<u8>]) -> Option<bool> {
        if self.tree_kind(path).is_some() {
            return Some(self.children(path).is_empty());
        }
        let c = self.map.get(path)?;
        c.el.is_any_tree().then_some(c.data.is_empty())
    }
    pub fn remove_deep(&mut self, full: &Path) {
        for p in self.below(full) {
            self.map.remove(&p);
        }
        self.map.remove(full);
    }
    /// The end of a chain of references that starts by reading `at`.
    pub fn follow(&self, at: &Path) -> Option<Path> {
        let mut at = at.clone();
        for _ in 0..MAX_HOPS {
            let c = self.map.get(&at)?;
            // every prefix has to be a tree
            match &c.el {
                Element::Reference(r, ..) => at = resolve(r, &at)?,
                _ => return Some(at),
            }
        }
        None
    }
    /// State root of a data tree.
    pub fn state_root(&self, full: &Path) -> Option<Hash> {
        let c = self.map.get(full)?;
        Some(root_of(&c.el, &c.data))
    }
    pub fn half(&self, full: &Path) -> Option<Hash> {
        let c = self.map.get(full)?;
        match &c.el {
            Element::Reference(..) => c.target,
            e if e.is_any_tree() => Some(root_of(e, &c.data)),
            _ => None,
        }
    }

    fn put(&mut self, before: &Audit, p: &Path, k: &Key, e: &Element) -> Result<(), ()> {
        let kind = self.tree_kind(p).ok_or(())?;
        if k.len() > 255 {
            return Err(());
        }
        let full = join(p, k);
        let mut target = None;
        match e {
            Element::Reference(r, ..) => {
                let t = resolve(r, &full).ok_or(())?;
                let t = self.follow(&t).ok_or(())?;
                // what is stored there now
                target = before.raw.get(&t).map(|b| value_hash(b));
            }
            Element::SumItem(..) | Element::ItemWithSumItem(..) => {
                if !kind.sums() {
                    return Err(());
                }
            }
            _ => {}
        }
        self.map.insert(
            full,
            Cell {
                el: norm(e),
                data: vec![],
                target,
            },
        );
        Ok(())
    }

    /// Applies an operation. `before` is the audit of the state before it.
    pub fn apply(&mut self, before: &Audit, op: &Op) -> Out {
        let saved = self.clone();
        let out = self.try_apply(before, op).unwrap_or(Out::Err);
        if out == Out::Err || self.overflows() {
            *self = saved;
            return Out::Err;
        }
        out
    }

    fn try_apply(&mut self, before: &Audit, op: &Op) -> Result<Out, ()> {
        Ok(match op {
            Op::Insert(p, k, e) => {
                let full = join(p, k);
                if self.map.get(&full).is_some_and(|c| c.el.is_any_tree()) {
                    return Err(());
                }
                self.put(before, p, k, e)?;
                Out::Unit
            }
            Op::InsertNew(p, k, e) => {
                if self.map.contains_key(&join(p, k)) {
                    return Err(());
                }
                self.put(before, p, k, e)?;
                Out::Unit
            }
            Op::InsertIfNotExists(p, k, e) => {
                if k.len() > 255 {
                    return Err(());
                }
                if self.map.contains_key(&join(p, k)) {
                    return Ok(Out::Bool(false));
                }
                self.put(before, p, k, e)?;
                Out::Bool(true)
            }
            Op::InsertReturning(p, k, e) => {
                if k.len() > 255 {
                    return Err(());
                }
                if let Some(c) = self.map.get(&join(p, k)) {
                    return Ok(Out::El(Some(c.el.clone())));
                }
                self.put(before, p, k, e)?;
                Out::El(None)
            }
            Op::InsertIfChanged(p, k, e) => {
                if k.len() > 255 {
                    return Err(());
                }
                let full = join(p, k);
                let old = before.elements.get(&full);
                if old == Some(e) {
                    return Ok(Out::Changed(false, None));
                }
                let old = old.map(norm);
                if old.as_ref().is_some_and(|o| o.is_any_tree()) {
                    return Err(());
                }
                self.put(before, p, k, e)?;
                Out::Changed(true, old)
            }
            Op::Delete(p, k) | Op::DeleteDeep(p, k) | Op::DeleteIfEmpty(p, k) => {
                let full = join(p, k);
                if !self.map.contains_key(&full) {
                    return Err(());
                }
                if self.is_empty_tree(&full) == Some(false) {
                    match op {
                        Op::Delete(..) => return Err(()),
                        Op::DeleteIfEmpty(..) => return Ok(Out::Bool(false)),
                        _ => {}
                    }
                }
                self.remove_deep(&full);
                match op {
                    Op::DeleteIfEmpty(..) => Out::Bool(true),
                    _ => Out::Unit,
                }
            }
            Op::DeleteUp(p, k, stop) => {
                let mut full = join(p, k);
                let mut n = 0;
                loop {
                    let path = full[..full.len() - 1].to_vec();
                    if stop.is_some_and(|s| s as usize == path.len()) {
                        if n == 0 {
                            return Err(());
                        }
                        break;
                    }
                    // leaves of the root tree can not be deleted this way
                    if path.is_empty() || !self.map.contains_key(&full) {
                        return Err(());
                    }
                    if self.is_empty_tree(&full) == Some(false) {
                        if n == 0 {
                            return Err(());
                        }
                        break;
                    }
                    self.map.remove(&full);
                    n += 1;
                    full = path;
                }
                Out::Num(n)
            }
            Op::Clear(p) | Op::ClearDeep(p) | Op::ClearSoft(p) => {
                if self.is_empty_tree(p).is_none() {
                    return Err(());
                }
                if let Some(c) = self.map.get_mut(p) {
                    c.data.clear();
                }
                if self.children(p).iter().any(|(_, c)| c.el.is_any_tree()) {
                    match op {
                        Op::Clear(_) => return Err(()),
                        Op::ClearSoft(_) => return Ok(Out::Bool(false)),
                        _ => {}
                    }
                }
                for q in self.below(p) {
                    self.map.remove(&q);
                }
                Out::Bool(true)
            }
            Op::Mmr(p, k, x) | Op::Bulk(p, k, x) | Op::Dense(p, k, x) => {
                let full = join(p, k);
                self.append(&full, x, op)?;
                let c = &self.map[&full];
                Out::Root(root_of(&c.el, &c.data), c.data.len() as u64 - 1)
            }
            Op::Commit(p, k, x) => {
                let full = join(p, k);
                self.append(&full, x, op)?;
                let c = &self.map[&full];
                Out::Root(anchor(&c.data), c.data.len() as u64 - 1)
            }
            Op::PutAux(k, x) => {
                self.aux.insert(k.clone(), x.clone());
                Out::Unit
            }
            Op::DelAux(k) => {
                self.aux.remove(k);
                Out::Unit
            }
            Op::Batch(_) => return Err(()),
        })
    }

    pub fn append(&mut self, full: &Path, x: &[u8], op: &Op) -> Result<(), ()> {
        let c = self.map.get_mut(full).ok_or(())?;
        match (&c.el, op) {
            (Element::MmrTree(..), Op::Mmr(..)) => {}
            (Element::BulkAppendTree(..), Op::Bulk(..)) => {}
            (Element::DenseAppendOnlyFixedSizeTree(_, h, _), Op::Dense(..)) => {
                if c.data.len() >= (1usize << h) - 1 {
                    return Err(());
                }
            }
            (Element::CommitmentTree(..), Op::Commit(..)) => {
                let n = note(x);
                if !n.valid() {
                    return Err(());
                }
                c.data.push(n.entry());
                return Ok(());
            }
            _ => return Err(()),
        }
        c.data.push(x.to_vec());
        Ok(())
    }

    /// Some sum or count does not fit its type.
    fn overflows(&self) -> bool {
        self.aggregates().is_none()
    }

    /// Could adding up some of the summands in some order leave the range?
    pub fn partial_overflow(&self) -> bool {
        let Some(agg) = self.aggregates() else {
            return true;
        };
        let mut trees: Vec<Path> = agg.keys().cloned().collect();
        trees.push(vec![]);
        trees.iter().any(|p| {
            let kind = self.tree_kind(p).unwrap();
            let (mut pos, mut neg, mut count) = (0i128, 0i128, 0u128);
            for (k, c) in self.children(p) {
                let e = with_agg(&c.el, agg.get(&join(p, &k)).copied().unwrap_or_default());
                let own = audit::contribution(kind, &e);
                count += own.count as u128;
                if own.sum > 0 {
                    pos = pos.saturating_add(own.sum);
                } else {
                    neg = neg.saturating_add(own.sum);
                }
            }
            count > u64::MAX as u128
                || if kind == Kind::BigSum {
                    pos == i128::MAX || neg == i128::MIN
                } else {
                    i64::try_from(pos).is_err() || i64::try_from(neg).is_err()
                }
        })
    }

    /// Aggregates of every merk tree by path, or `None` on overflow.
    pub fn aggregates(&self) -> Option<BTreeMap<Path, audit::Agg>> {
        let mut out: BTreeMap<Path, audit::Agg> = BTreeMap::new();
        let mut trees: Vec<&Path> = self
            .map
            .iter()
            .filter(|(_, c)| Kind::of(&c.el).is_some())
            .map(|(p, _)| p)
            .collect();
        trees.sort_by_key(|p| std::cmp::Reverse(p.len()));
        for p in trees {
            let kind = Kind::of(&self.map[p].el).unwrap();
            let mut a = audit::Agg::default();
            for (k, c) in self.children(p) {
                let e = with_agg(&c.el, out.get(&join(p, &k)).copied().unwrap_or_default());
                let own = audit::contribution(kind, &e);
                a.count = a.count.checked_add(own.count)?;
                a.sum = a.sum.checked_add(own.sum)?;
            }
            if kind != Kind::BigSum && i64::try_from(a.sum).is_err() {
                return None;
            }
            out.insert(p.clone(), a);
        }
        Some(out)
    }

    /// Elements as a user sees them, except the root keys.
    pub fn visible(&self) -> BTreeMap<Path, Element> {
        let agg = self.aggregates().unwrap_or_default();
        self.map
            .iter()
            .map(|(p, c)| {
                let mut e = with_agg(&c.el, agg.get(p).copied().unwrap_or_default());
                match &mut e {
                    Element::MmrTree(n, _) => *n = data::mmr_size(c.data.len() as u64),
                    Element::BulkAppendTree(n, ..) | Element::CommitmentTree(n, ..) => {
                        *n = c.data.len() as u64
                    }
                    Element::DenseAppendOnlyFixedSizeTree(n, ..) => *n = c.data.len() as u16,
                    _ => {}
                }
                (p.clone(), e)
            })
            .collect()
    }

    /// Is the audited content what this model says?
    pub fn agrees(&self, a: &Audit) -> Result<(), String> {
        let want = self.visible();
        for (p, e) in &a.elements {
            let got = no_root(e);
            match want.get(p) {
                Some(w) if *w == got => {}
                Some(w) => {
                    return Err(format!(
                        "{} holds {} instead of {}",
                        show_path(p),
                        show_el(&got),
                        show_el(w)
                    ))
                }
                None => return Err(format!("{} should not be there", show_path(p))),
            }
        }
        for p in want.keys() {
            if !a.elements.contains_key(p) {
                return Err(format!("{} is missing", show_path(p)));
            }
        }
        if self.aux != a.aux {
            return Err("auxiliary data differ".into());
        }
        Ok(())
    }
}

/// Element with its root key hidden.
pub fn no_root(e: &Element) -> Element {
    let mut e = e.clone();
    match &mut e {
        Element::Tree(r, _)
        | Element::SumTree(r, ..)
        | Element::BigSumTree(r, ..)
        | Element::CountTree(r, ..)
        | Element::ProvableCountTree(r, ..)
        | Element::CountSumTree(r, ..)
        | Element::ProvableCountSumTree(r, ..) => *r = None,
        _ => {}
    }
    e
}

pub fn with_agg(e: &Element, a: audit::Agg) -> Element {
    let mut e = e.clone();
    match &mut e {
        Element::SumTree(_, s, _) => *s = a.sum as i64,
        Element::BigSumTree(_, s, _) => *s = a.sum,
        Element::CountTree(_, c, _) | Element::ProvableCountTree(_, c, _) => *c = a.count,
        Element::CountSumTree(_, c, s, _) | Element::ProvableCountSumTree(_, c, s, _) => {
            *c = a.count;
            *s = a.sum as i64
        }
        _ => {}
    }
    e
}

/// State root of a data tree with these values.
pub fn root_of(e: &Element, vals: &[Vec<u8>]) -> Hash {
    match e {
        Element::MmrTree(..) => data::mmr(vals),
        Element::DenseAppendOnlyFixedSizeTree(..) => data::dense(vals),
        // an untouched tree has no state root yet
        Element::BulkAppendTree(..) if vals.is_empty() => NULL,
        Element::BulkAppendTree(_, p, _) => data::bulk(vals, *p),
        Element::CommitmentTree(..) if vals.is_empty() => {
            grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
        }
        Element::CommitmentTree(_, p, _) => data::commitment(&anchor(vals), vals, *p),
        _ => NULL,
    }
}

/// A note commitment with what is stored along with it.
pub struct Note {
    pub cmx: Hash,
    pub rho: Hash,
    pub payload: Vec<u8>,
}
impl Note {
    pub fn valid(&self) -> bool {
        self.cmx[31] < 0x40 && self.payload.len() == 216
    }
    pub fn entry(&self) -> Vec<u8> {
        [&self.cmx[..], &self.rho, &self.payload].concat()
    }
}
/// The note of a name; names starting with '!' have no valid commitment, names
/// starting with '?' a payload that is too short.
pub fn note(name: &[u8]) -> Note {
    let h = |x: &[u8]| -> Hash { *blake3::hash(&[x, name].concat()).as_bytes() };
    let mut cmx = h(b"cmx");
    cmx[31] = if name.starts_with(b"!") { 0x41 } else { cmx[31] % 0x40 };
    let mut payload: Vec<u8> = (0..7).flat_map(|i| h(&[i])).collect();
    payload.truncate(if name.starts_with(b"?") { 215 } else { 216 });
    Note {
        cmx,
        rho: h(b"rho"),
        payload,
    }
}

/// A memo of another size than the database takes.
#[derive(Clone, Debug)]
pub struct ShortMemo;
impl MemoSize for ShortMemo {
    type NoteCiphertextBytes = NoteBytesData<103>;
}
fn cipher<M: MemoSize>(payload: &[u8]) -> TransmittedNoteCiphertext<M> {
    let n = payload.len() - 80;
    TransmittedNoteCiphertext::from_parts(
        payload[..32].try_into().unwrap(),
        M::NoteCiphertextBytes::from_slice(&payload[32..n]).unwrap(),
        payload[n..].try_into().unwrap(),
    )
}

/// The root of the depth-32 tree of the commitments of these entries.
pub fn anchor(entries: &[Vec<u8>]) -> Hash {
    let hash = |b: &[u8]| MerkleHashOrchard::from_bytes(b.try_into().unwrap()).unwrap();
    let mut level: Vec<MerkleHashOrchard> = entries.iter().map(|e| hash(&e[..32])).collect();
    if level.is_empty() {
        return grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT;
    }
    for d in 0..32u8 {
        let none = MerkleHashOrchard::empty_root(d.into());
        level = level
            .chunks(2)
            .map(|c| MerkleHashOrchard::combine(d.into(), &c[0], c.get(1).unwrap_or(&none)))
            .collect();
    }
    level[0].to_bytes()
}
