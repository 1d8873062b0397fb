//! D11: a subtree's storage context is a private ordered map in four columns.
use std::collections::BTreeMap;

use grovedb_costs::{
    storage_cost::{
        key_value_cost::KeyValueStorageCost, removal::StorageRemovedBytes as Rem, StorageCost,
    },
    OperationCost,
};
use grovedb_path::SubtreePath;
use grovedb_storage::{
    rocksdb_storage::RocksDbStorage, worst_case_costs::WorstKeyLength, Batch, RawIterator, Storage,
    StorageBatch, StorageContext,
};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};
use rocksdb::{model as mem, Snapshot};

use crate::engine::fresh_path;

pub fn spec() -> Spec {
    Spec {
        id: "D11",
        level: "model_checking",
        run: d11,
    }
}

type Prefix = [u8; 32];
const COLS: [&str; 4] = ["default", "aux", "roots", "meta"];
type Loc = (usize, usize, usize); // column, prefix, key
type Content = BTreeMap<(usize, Vec<u8>), Vec<u8>>;

fn prefixes() -> [Prefix; 3] {
    let mut a = [7u8; 32];
    a[31] = 0xff; // followed at once by b
    let mut b = [7u8; 32];
    b[30] = 8;
    b[31] = 0;
    let c = RocksDbStorage::build_prefix(SubtreePath::from(&[b"x".as_ref()])).value;
    [a, b, c]
}
const KEYS: [&[u8]; 5] = [b"", b"\xff", b"a", b"a\0", b"ab"];

fn full(l: Loc) -> (usize, Vec<u8>) {
    (l.0, [&prefixes()[l.1][..], KEYS[l.2]].concat())
}

struct Store {
    path: String,
    s: Option<RocksDbStorage>,
}
impl Store {
    fn new(content: &Content) -> Store {
        let path = fresh_path();
        let st = Store {
            s: Some(RocksDbStorage::default_rocksdb_with_path(&path).expect("open")),
            path,
        };
        let tx = st.start_transaction();
        for ((c, k), v) in content {
            let p: Prefix = k[..32].try_into().unwrap();
            let x = st
                .get_immediate_storage_context_by_subtree_prefix(p, &tx)
                .value;
            match c {
                0 => x.put(&k[32..], v, None, None),
                1 => x.put_aux(&k[32..], v, None),
                2 => x.put_root(&k[32..], v, None),
                _ => x.put_meta(&k[32..], v, None),
            }
            .value
            .expect("put");
        }
        st.commit_transaction(tx).value.expect("commit");
        st
    }
    fn snap(&self) -> Snapshot {
        mem::snapshot(&self.path).unwrap()
    }
}
impl std::ops::Deref for Store {
    type Target = RocksDbStorage;
    fn deref(&self) -> &RocksDbStorage {
        self.s.as_ref().unwrap()
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        self.s = None;
        mem::remove(&self.path);
    }
}

fn content(s: &Snapshot) -> Content {
    s.entries()
        .into_iter()
        .map(|(cf, k, v)| {
            (
                (COLS.iter().position(|c| *c == cf).expect("column"), k),
                v,
            )
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Info {
    None,
    Good,
    Bad,
}
#[derive(Clone, Debug)]
enum Cmd {
    Put(Loc, Info),
    Del(Loc, Info),
    /// A part of the batch: `(location, put?, cost given?)`.
    Part(usize, Vec<(Loc, bool, bool)>),
    NowPut(Loc),
    NowDel(Loc),
    NowPart(usize, Vec<(Loc, bool, bool)>),
    Clear(usize),
    /// The batch goes to the transaction.
    Apply,
    /// The batch goes to the database.
    Direct,
    Commit,
    Rollback,
    Wipe,
}

fn varint(n: u32) -> u32 {
    match n {
        0..=127 => 1,
        128..=16383 => 2,
        _ => 3,
    }
}
fn paid(n: u32) -> u32 {
    n + varint(n)
}

/// What is charged for a put of a new entry, as its author has to know it.
fn info(key_len: u32, value_len: u32, in_part: bool, bad: bool) -> KeyValueStorageCost {
    KeyValueStorageCost {
        key_storage_cost: StorageCost {
            added_bytes: if in_part { 0 } else { paid(key_len) },
            ..Default::default()
        },
        value_storage_cost: StorageCost {
            added_bytes: paid(value_len) + bad as u32,
            ..Default::default()
        },
        new_node: true,
        needs_value_verification: true,
    }
}
fn removal(n: u32) -> KeyValueStorageCost {
    KeyValueStorageCost {
        key_storage_cost: StorageCost {
            removed_bytes: Rem::BasicStorageRemoval(n),
            ..Default::default()
        },
        value_storage_cost: StorageCost {
            removed_bytes: Rem::BasicStorageRemoval(1000 * n),
            ..Default::default()
        },
        new_node: false,
        needs_value_verification: false,
    }
}

#[derive(Clone, Debug)]
enum Pending {
    Put(Vec<u8>, Info),
    Del(Option<u32>),
}

#[derive(Clone, Default)]
struct Model {
    committed: Content,
    tx: Content,
    dirty: bool,
    batch: BTreeMap<(usize, Vec<u8>), Pending>,
}

fn val(at: usize, i: usize) -> Vec<u8> {
    vec![b'A' + at as u8; 1 + at * 2 + i]
}

impl Model {
    fn put(&mut self, l: Loc, v: Vec<u8>, i: Info) {
        self.batch.insert(full(l), Pending::Put(v, i));
    }
    fn del(&mut self, l: Loc, c: Option<u32>) {
        self.batch.entry(full(l)).or_insert(Pending::Del(c));
    }
    fn now(&mut self, l: Loc, v: Option<Vec<u8>>) {
        match v {
            Some(v) => self.tx.insert(full(l), v),
            None => self.tx.remove(&full(l)),
        };
        self.dirty = true;
    }
    /// The cost of committing the batch; none if it has to be refused.
    fn batch_cost(&self) -> Option<OperationCost> {
        let mut c = OperationCost::default();
        for ((col, k), op) in &self.batch {
            match op {
                Pending::Put(_, Info::Bad) => return None,
                Pending::Put(v, i) => {
                    c.seek_count += 1;
                    if !(*col == 2 && *i == Info::None) {
                        c.storage_cost.added_bytes += paid(k.len() as u32) + paid(v.len() as u32);
                    }
                }
                Pending::Del(Some(n)) => {
                    c.seek_count += 1;
                    c.storage_cost.removed_bytes += Rem::BasicStorageRemoval(1001 * n);
                }
                Pending::Del(None) => {
                    let n = self
                        .committed
                        .get(&(*col, k.clone()))
                        .map_or(0, |v| v.len() as u32);
                    c.seek_count += 2;
                    c.storage_loaded_bytes += n as u64;
                    c.storage_cost.removed_bytes +=
                        Rem::BasicStorageRemoval(paid(k.len() as u32) + paid(n));
                }
            }
        }
        Some(c)
    }
    fn apply(&mut self) {
        for (k, op) in std::mem::take(&mut self.batch) {
            match op {
                Pending::Put(v, _) => self.tx.insert(k, v),
                Pending::Del(_) => self.tx.remove(&k),
            };
            self.dirty = true;
        }
    }
    fn allowed(&self, c: &Cmd) -> bool {
        match c {
            Cmd::Direct | Cmd::Wipe => !self.dirty,
            // Rebuilding a transaction from a batch puts both into one.
            _ => true,
        }
    }
}

fn put_to<'a, C: StorageContext<'a>>(
    c: &C,
    l: Loc,
    v: &[u8],
    i: Option<KeyValueStorageCost>,
) -> grovedb_costs::CostResult<(), grovedb_storage::Error> {
    let k = KEYS[l.2];
    match l.0 {
        0 => c.put(k, v, None, i),
        1 => c.put_aux(k, v, i),
        2 => c.put_root(k, v, i),
        _ => c.put_meta(k, v, i),
    }
}
fn del_from<'a, C: StorageContext<'a>>(
    c: &C,
    l: Loc,
    i: Option<KeyValueStorageCost>,
) -> grovedb_costs::CostResult<(), grovedb_storage::Error> {
    let k = KEYS[l.2];
    match l.0 {
        0 => c.delete(k, i),
        1 => c.delete_aux(k, i),
        2 => c.delete_root(k, i),
        _ => c.delete_meta(k, i),
    }
}
fn get_from<'a, C: StorageContext<'a>>(
    c: &C,
    l: Loc,
) -> grovedb_costs::CostResult<Option<Vec<u8>>, grovedb_storage::Error> {
    let k = KEYS[l.2];
    match l.0 {
        0 => c.get(k),
        1 => c.get_aux(k),
        2 => c.get_root(k),
        _ => c.get_meta(k),
    }
}
fn part_ops<B: Batch>(b: &mut B, ops: &[(Loc, bool, bool)], at: usize) -> Res {
    for (i, (l, put, cost)) in ops.iter().enumerate() {
        let k = KEYS[l.2];
        let v = val(at, i);
        if *put {
            let i = cost.then(|| {
                info(
                    32 + k.len() as u32,
                    v.len() as u32,
                    l.0 == 0, // only for data is the key paid for here
                    false,
                )
            });
            match l.0 {
                0 => b.put(k, &v, None, i),
                1 => b.put_aux(k, &v, i),
                _ => b.put_root(k, &v, i),
            }
            .map_err(|e| format!("put into a part: {e:?}"))?;
        } else {
            let i = cost.then(|| removal(3 + at as u32));
            match l.0 {
                0 => b.delete(k, i),
                1 => b.delete_aux(k, i),
                _ => b.delete_root(k, i),
            }
        }
    }
    Ok(())
}

fn part_cost(ops: &[(Loc, bool, bool)], at: usize) -> OperationCost {
    let mut c = OperationCost::default();
    for (i, (l, put, cost)) in ops.iter().enumerate() {
        c.seek_count += 1;
        let k = 32 + KEYS[l.2].len() as u32;
        if *put {
            if l.0 != 2 || *cost {
                c.storage_cost.added_bytes += paid(k) + paid(val(at, i).len() as u32);
            }
        } else if *cost {
            c.storage_cost.removed_bytes += Rem::BasicStorageRemoval(1001 * (3 + at as u32));
        }
    }
    c
}

/// Reads and both directions of iteration agree with the model.
fn views(st: &Store, m: &Model, tx: &<RocksDbStorage as Storage>::Transaction) -> Res {
    let ps = prefixes();
    for (pi, p) in ps.iter().enumerate() {
        let a = st
            .get_transactional_storage_context_by_subtree_prefix(*p, None, tx)
            .value;
        let b = st
            .get_immediate_storage_context_by_subtree_prefix(*p, tx)
            .value;
        for col in 0..4 {
            for ki in 0..KEYS.len() {
                let l = (col, pi, ki);
                let want = m.tx.get(&full(l)).cloned();
                let r = get_from(&a, l);
                ensure_eq!(r.value.map_err(|e| format!("{e}"))?, want.clone(), "read");
                ensure_eq!(
                    r.cost,
                    OperationCost {
                        seek_count: 1,
                        storage_loaded_bytes: want.as_ref().map_or(0, |v| v.len() as u64),
                        ..Default::default()
                    },
                    "cost of a read"
                );
                let r = get_from(&b, l);
                ensure_eq!(r.value.map_err(|e| format!("{e}"))?, want, "immediate read");
            }
        }
        let want: Vec<(Vec<u8>, Vec<u8>)> = m
            .tx
            .iter()
            .filter(|((c, k), _)| *c == 0 && k.starts_with(p))
            .map(|((_, k), v)| (k[32..].to_vec(), v.clone()))
            .collect();
        let mut it = a.raw_iter();
        let mut got = vec![];
        it.seek_to_first().value;
        while it.valid().value {
            got.push((
                it.key().value.expect("key").to_vec(),
                it.value().value.expect("value").to_vec(),
            ));
            it.next().value;
        }
        ensure_eq!(&got, &want, "forward iteration");
        let mut it = b.raw_iter();
        let mut got = vec![];
        it.seek_to_last().value;
        while it.valid().value {
            got.push((
                it.key().value.expect("key").to_vec(),
                it.value().value.expect("value").to_vec(),
            ));
            it.prev().value;
        }
        got.reverse();
        ensure_eq!(&got, &want, "backward iteration");
    }
    Ok(())
}

/// Runs a program; false if it is not one to look at.
fn program(ctx: &Ctx, start: &Content, prog: &[&Cmd]) -> Result<bool, String> {
    let ps = prefixes();
    let mut m = Model {
        committed: start.clone(),
        tx: start.clone(),
        ..Default::default()
    };
    let st = Store::new(start);
    let mut tx = st.start_transaction();
    let mut batch = StorageBatch::new();
    for (at, c) in prog.iter().enumerate() {
        if !m.allowed(c) {
            return Ok(false);
        }
        ctx.step();
        let err = |e: grovedb_storage::Error| format!("{c:?}: {e}");
        let none = OperationCost::default();
        match c {
            Cmd::Put(l, i) => {
                let v = val(at, 0);
                let x = st
                    .get_transactional_storage_context_by_subtree_prefix(
                        ps[l.1],
                        Some(&batch),
                        &tx,
                    )
                    .value;
                let ci = (*i != Info::None).then(|| {
                    info(
                        32 + KEYS[l.2].len() as u32,
                        v.len() as u32,
                        false,
                        *i == Info::Bad,
                    )
                });
                let r = put_to(&x, *l, &v, ci);
                ensure_eq!(r.cost, none, "a put into a batch costs nothing yet");
                r.value.map_err(err)?;
                m.put(*l, v, *i);
            }
            Cmd::Del(l, i) => {
                let x = st
                    .get_transactional_storage_context_by_subtree_prefix(
                        ps[l.1],
                        Some(&batch),
                        &tx,
                    )
                    .value;
                let n = (*i != Info::None).then_some(3 + at as u32);
                let r = del_from(&x, *l, n.map(removal));
                ensure_eq!(r.cost, none, "a delete into a batch costs nothing yet");
                r.value.map_err(err)?;
                m.del(*l, n);
            }
            Cmd::Part(p, ops) => {
                let x = st
                    .get_transactional_storage_context_by_subtree_prefix(ps[*p], Some(&batch), &tx)
                    .value;
                let mut part = x.new_batch();
                part_ops(&mut part, ops, at)?;
                let r = x.commit_batch(part);
                ensure_eq!(r.cost, none, "a part of a batch costs nothing yet");
                r.value.map_err(err)?;
                // Within the part, and then of the part into the batch.
                let mut sub = Model::default();
                for (i, (l, put, cost)) in ops.iter().enumerate() {
                    if *put {
                        sub.put(*l, val(at, i), if *cost { Info::Good } else { Info::None });
                    } else {
                        sub.del(*l, cost.then_some(3 + at as u32));
                    }
                }
                for (k, op) in sub.batch {
                    match op {
                        Pending::Put(..) => {
                            m.batch.insert(k, op);
                        }
                        Pending::Del(_) => {
                            m.batch.entry(k).or_insert(op);
                        }
                    }
                }
            }
            Cmd::NowPut(l) => {
                let v = val(at, 0);
                let x = st
                    .get_immediate_storage_context_by_subtree_prefix(ps[l.1], &tx)
                    .value;
                put_to(&x, *l, &v, None).value.map_err(err)?;
                m.now(*l, Some(v));
            }
            Cmd::NowDel(l) => {
                let x = st
                    .get_immediate_storage_context_by_subtree_prefix(ps[l.1], &tx)
                    .value;
                del_from(&x, *l, None).value.map_err(err)?;
                m.now(*l, None);
            }
            Cmd::NowPart(p, ops) => {
                let x = st
                    .get_immediate_storage_context_by_subtree_prefix(ps[*p], &tx)
                    .value;
                let mut part = x.new_batch();
                part_ops(&mut part, ops, at)?;
                let r = x.commit_batch(part);
                ensure_eq!(r.cost, part_cost(ops, at), "cost of an immediate batch");
                r.value.map_err(err)?;
                for (i, (l, put, _)) in ops.iter().enumerate() {
                    m.now(*l, put.then(|| val(at, i)));
                }
            }
            Cmd::Clear(p) => {
                let mut x = st
                    .get_transactional_storage_context_by_subtree_prefix(ps[*p], Some(&batch), &tx)
                    .value;
                x.clear().value.map_err(err)?;
                let ks: Vec<_> = m
                    .tx
                    .keys()
                    .filter(|(c, k)| *c == 0 && k.starts_with(&ps[*p]))
                    .cloned()
                    .collect();
                for k in ks {
                    m.batch.entry(k).or_insert(Pending::Del(None));
                }
            }
            Cmd::Apply | Cmd::Direct => {
                ensure_eq!(batch.len(), m.batch.len(), "length of the batch");
                ensure_eq!(batch.is_empty(), m.batch.is_empty(), "emptiness of the batch");
                let b = std::mem::replace(&mut batch, StorageBatch::new());
                let direct = matches!(c, Cmd::Direct);
                let r = st.commit_multi_context_batch(b, (!direct).then_some(&tx));
                match m.batch_cost() {
                    None => {
                        ensure!(r.value.is_err(), "a wrong cost statement was accepted");
                        ensure_eq!(
                            r.cost.storage_cost,
                            StorageCost::default(),
                            "a refused batch is not paid for"
                        );
                        m.batch.clear();
                    }
                    Some(cost) => {
                        r.value.map_err(err)?;
                        ensure_eq!(r.cost, cost, "cost of the batch");
                        m.apply();
                        if direct {
                            m.committed = m.tx.clone();
                            m.dirty = false;
                            tx = st.start_transaction();
                        }
                    }
                }
            }
            Cmd::Commit => {
                let t = std::mem::replace(&mut tx, st.start_transaction());
                st.commit_transaction(t).value.map_err(err)?;
                tx = st.start_transaction();
                m.committed = m.tx.clone();
                m.dirty = false;
            }
            Cmd::Rollback => {
                st.rollback_transaction(&tx).map_err(err)?;
                m.tx = m.committed.clone();
                m.dirty = false;
            }
            Cmd::Wipe => {
                st.wipe().map_err(err)?;
                tx = st.start_transaction();
                m.tx.clear();
                m.committed.clear();
            }
        }
    }
    ensure_eq!(batch.len(), m.batch.len(), "length of the batch");
    ensure_eq!(&content(&st.snap()), &m.committed, "what is in the database");
    views(&st, &m, &tx)?;
    let mut id = vec![];
    for ((c, k), v) in m.tx.iter().chain(&m.committed) {
        id.push(*c as u8);
        id.extend_from_slice(k);
        id.extend_from_slice(v);
    }
    id.extend(format!("{:?}", m.batch).into_bytes());
    ctx.state(&id);
    Ok(true)
}

fn worlds() -> Vec<(String, Content, Vec<Cmd>)> {
    let mut out = vec![];
    for col in 0..4 {
        let (a0, a1, b0) = ((col, 0, 0), (col, 0, 2), (col, 1, 1));
        let mut start = Content::new();
        start.insert(full(a1), b"old".to_vec());
        start.insert(full(b0), b"other".to_vec());
        for c in 0..4 {
            // the same keys in the other columns
            if c != col {
                start.insert(full((c, 0, 2)), vec![b'0' + c as u8]);
            }
        }
        let mut cmds = vec![];
        for l in [a0, a1, b0] {
            cmds.push(Cmd::Put(l, Info::None));
            cmds.push(Cmd::Del(l, Info::None));
            cmds.push(Cmd::NowPut(l));
            cmds.push(Cmd::NowDel(l));
        }
        cmds.push(Cmd::Put(a1, Info::Good));
        cmds.push(Cmd::Put(b0, Info::Bad));
        cmds.push(Cmd::Del(a1, Info::Good));
        if col != 3 {
            for part in [
                vec![(a0, true, true), (a1, false, true)],
                vec![(a1, false, false), (a1, true, false)],
                vec![(a1, true, true), (a1, false, false)],
            ] {
                cmds.push(Cmd::Part(0, part.clone()));
                cmds.push(Cmd::NowPart(0, part));
            }
        }
        cmds.push(Cmd::Clear(0));
        cmds.push(Cmd::Clear(1));
        cmds.push(Cmd::Apply);
        cmds.push(Cmd::Direct);
        cmds.push(Cmd::Commit);
        cmds.push(Cmd::Rollback);
        cmds.push(Cmd::Wipe);
        out.push((format!("column {}", COLS[col]), start, cmds));
    }
    // All columns at the same key.
    let mut start = Content::new();
    let mut cmds = vec![];
    for c in 0..4 {
        let l = (c, 0, 2);
        if c % 2 == 0 {
            start.insert(full(l), vec![b'0' + c as u8]);
        }
        cmds.push(Cmd::Put(l, Info::Good));
        cmds.push(Cmd::Del(l, Info::None));
        cmds.push(Cmd::NowPut(l));
        cmds.push(Cmd::NowDel(l));
    }
    let (d, x, r) = ((0, 0, 2), (1, 0, 2), (2, 0, 2));
    for part in [
        vec![(d, true, true), (x, false, false), (r, true, true)],
        vec![(d, false, true), (x, true, true), (r, false, false)],
    ] {
        cmds.push(Cmd::Part(0, part.clone()));
        cmds.push(Cmd::NowPart(0, part));
    }
    cmds.push(Cmd::Clear(0));
    cmds.push(Cmd::Apply);
    cmds.push(Cmd::Direct);
    cmds.push(Cmd::Commit);
    cmds.push(Cmd::Rollback);
    cmds.push(Cmd::Wipe);
    out.push(("all columns".into(), start, cmds));
    out
}

/// Without a batch, a transactional context refuses every write.
fn no_batch() -> Res {
    let st = Store::new(&Content::new());
    let tx = st.start_transaction();
    let x = st
        .get_transactional_storage_context_by_subtree_prefix(prefixes()[0], None, &tx)
        .value;
    for c in 0..4 {
        let l = (c, 0, 2);
        ensure!(put_to(&x, l, b"v", None).value.is_err(), "put without a batch");
        ensure!(del_from(&x, l, None).value.is_err(), "delete without a batch");
    }
    let mut part = x.new_batch();
    part_ops(&mut part, &[((0, 0, 2), true, false)], 0)?;
    ensure!(x.commit_batch(part).value.is_err(), "commit without a batch");
    drop(x);
    st.commit_transaction(tx).value.map_err(|e| format!("{e}"))?;
    ensure!(content(&st.snap()).is_empty(), "something was written");
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Move {
    First,
    Last,
    Seek(usize),
    SeekBack(usize),
    Next,
    Prev,
}

/// Walks of an iterator over the private map.
fn walk<'a, C: StorageContext<'a>>(ctx: &Ctx, x: &C, keys: &[Vec<u8>], vals: &[Vec<u8>], moves: &[Move]) -> Res {
    let mut it = x.raw_iter();
    let mut at: Option<usize> = None;
    for m in moves {
        ctx.step();
        let r = match m {
            Move::First => {
                at = (!keys.is_empty()).then_some(0);
                it.seek_to_first()
            }
            Move::Last => {
                at = keys.len().checked_sub(1);
                it.seek_to_last()
            }
            Move::Seek(k) => {
                at = keys.iter().position(|x| x.as_slice() >= KEYS[*k]);
                it.seek(KEYS[*k])
            }
            Move::SeekBack(k) => {
                at = keys.iter().rposition(|x| x.as_slice() <= KEYS[*k]);
                it.seek_for_prev(KEYS[*k])
            }
            // From outside the map the neighbours decide: not looked at.
            Move::Next | Move::Prev if at.is_none() => return Ok(()),
            Move::Next => {
                at = at.map(|i| i + 1).filter(|i| *i < keys.len());
                it.next()
            }
            Move::Prev => {
                at = at.and_then(|i| i.checked_sub(1));
                it.prev()
            }
        };
        ensure_eq!(r.cost, OperationCost::with_seek_count(1), "cost of a move");
        let loaded = |n: usize| OperationCost {
            storage_loaded_bytes: n as u64,
            ..Default::default()
        };
        let (va, ke, lu) = (it.valid(), it.key(), it.value());
        match at {
            Some(i) => {
                let n = 32 + keys[i].len();
                ensure!(va.value, "iterator is not valid after {m:?}");
                ensure_eq!(va.cost, loaded(n), "cost of valid");
                ensure_eq!(ke.value, Some(keys[i].as_slice()), "key after a move");
                ensure_eq!(ke.cost, loaded(n), "cost of key");
                ensure_eq!(lu.value, Some(vals[i].as_slice()), "value after a move");
                ensure_eq!(lu.cost, loaded(n + vals[i].len()), "cost of value");
            }
            None => {
                ensure!(!va.value, "iterator is valid after {m:?}: {:?}", ke.value);
                ensure_eq!(va.cost, loaded(288), "cost of valid at the end");
                ensure_eq!(ke.value, None, "key outside");
                ensure_eq!(ke.cost, loaded(288), "cost of key at the end");
                ensure_eq!(lu.value, None, "value outside");
                ensure_eq!(lu.cost, loaded(288), "cost of value at the end");
            }
        }
    }
    Ok(())
}

fn iterators(ctx: &Ctx) {
    let mut all = vec![Move::First, Move::Last];
    for k in 0..KEYS.len() {
        all.push(Move::Seek(k));
        all.push(Move::SeekBack(k));
    }
    all.push(Move::Next);
    all.push(Move::Prev);
    let depth = ctx.pick(4, 6);
    ctx.bound(format!(
        "iterators: every subset of {} keys in a subtree, split in every way of three between \
         the database and the open transaction, 4 kinds of neighbours, 2 kinds of context, every \
         walk of {depth} moves out of {}",
        KEYS.len(),
        all.len()
    ));
    let mut walks: Vec<Vec<Move>> = vec![];
    kit::sequences(all.len(), depth, |s| {
        if !matches!(all[s[0]], Move::Next | Move::Prev) {
            let w: Vec<Move> = s.iter().map(|i| all[*i]).collect();
            // a walk after a second seek is a walk of its own, but one more is kept
            let seeks = w[1..]
                .iter()
                .filter(|m| !matches!(m, Move::Next | Move::Prev))
                .count();
            if seeks <= 1 {
                walks.push(w);
            }
        }
    });
    // 3^5: absent, committed, in the transaction
    let mut items = vec![];
    for n in 0..3usize.pow(KEYS.len() as u32) {
        for nb in 0..4 {
            items.push((n, nb));
        }
    }
    ctx.par(&items, |(n, nb)| {
        let ps = prefixes();
        // who is looked at: the prefix ending in ff, or the one after it
        for me in 0..2usize {
            let mut base = Content::new();
            let mut late = vec![];
            let mut keys = vec![];
            let mut vals = vec![];
            let mut r = *n;
            for (i, k) in KEYS.iter().enumerate() {
                let w = r % 3;
                r /= 3;
                if w > 0 {
                    keys.push((k.to_vec(), vec![i as u8 + 1; 2 * i + 1]));
                }
                match w {
                    1 => {
                        base.insert(full((0, me, i)), vec![i as u8 + 1; 2 * i + 1]);
                    }
                    2 => late.push(i),
                    _ => {}
                }
            }
            keys.sort();
            let keys: Vec<Vec<u8>> = keys
                .into_iter()
                .map(|(k, v)| {
                    vals.push(v);
                    k
                })
                .collect();
            let other = 1 - me;
            if nb & 1 != 0 {
                // Not the empty key: right after this prefix it would be the
                // very bytes the search for the last key starts from. Hashes
                // are never neighbours, so that is nobody's database.
                base.insert(full((0, other, 1)), b"n".to_vec());
                base.insert(full((0, other, 3)), b"nn".to_vec());
            }
            if nb & 2 != 0 {
                // far neighbours, the first and last of all, and other columns
                base.insert((0, vec![0; 33]), b"z".to_vec());
                base.insert((0, vec![0xfe; 40]), b"z".to_vec());
                for c in 1..4 {
                    base.insert(full((c, me, 1)), b"c".to_vec());
                    base.insert(full((c, me, 3)), b"c".to_vec());
                }
            }
            let st = Store::new(&base);
            let tx = st.start_transaction();
            let x = st
                .get_immediate_storage_context_by_subtree_prefix(ps[me], &tx)
                .value;
            for i in &late {
                x.put(KEYS[*i], &vec![*i as u8 + 1; 2 * i + 1], None, None)
                    .value
                    .expect("put");
            }
            let y = st
                .get_transactional_storage_context_by_subtree_prefix(ps[me], None, &tx)
                .value;
            ctx.state(&[&[1u8, *n as u8, *nb as u8, me as u8][..]].concat());
            for w in &walks {
                ctx.case(
                    || format!("walk {w:?} over {keys:?} neighbours {nb} prefix {me}"),
                    || {
                        walk(ctx, &x, &keys, &vals, w)?;
                        walk(ctx, &y, &keys, &vals, w)
                    },
                );
            }
        }
    });
}

struct Len(u8);
impl WorstKeyLength for Len {
    fn max_length(&self) -> u8 {
        self.0
    }
}

/// Paths have different prefixes, of the form already in databases.
fn paths(ctx: &Ctx) {
    let mut segs: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![1],
        vec![2],
        vec![3],
        b"a".to_vec(),
        b"ab".to_vec(),
        vec![0; 8],
        [&1u64.to_ne_bytes()[..], &[0]].concat(),
        [&2u64.to_ne_bytes()[..], &[1]].concat(),
        vec![0; 2],
        vec![1, 1],
    ];
    let n = segs.len();
    for l in [54usize, 55, 56, 119, 120, 127, 128, 254, 255] {
        segs.push(vec![b'x'; l]);
    }
    let max = ctx.pick(4, 5);
    ctx.bound(format!(
        "prefixes: every path of up to {max} segments out of {n} short ones, and up to 2 with \
         lengths up to 255"
    ));
    let mut all: Vec<Vec<usize>> = vec![];
    kit::sequences_upto(n, max, |s| all.push(s.to_vec()));
    kit::sequences_upto(segs.len(), 2, |s| {
        if s.iter().any(|i| *i >= n) {
            all.push(s.to_vec())
        }
    });
    let seen = std::sync::Mutex::new(BTreeMap::<Prefix, Vec<usize>>::new());
    ctx.par(&all, |s| {
        let path: Vec<&[u8]> = s.iter().map(|i| segs[*i].as_slice()).collect();
        ctx.case(
            || format!("prefix of {path:?}"),
            || {
                let r = RocksDbStorage::build_prefix(SubtreePath::from(path.as_slice()));
                let lens: Vec<Len> = path.iter().map(|s| Len(s.len() as u8)).collect();
                let worst = RocksDbStorage::get_storage_context_cost(&lens);
                ctx.step();
                ctx.state(&r.value);
                if path.is_empty() {
                    ensure_eq!(r.value, [0u8; 32], "prefix of the root");
                    ensure_eq!(&r.cost, &OperationCost::default(), "cost at the root");
                    ensure_eq!(&worst, &OperationCost::default(), "worst case at the root");
                    return Ok(());
                }
                let mut body = vec![];
                for s in path.iter().rev() {
                    body.extend_from_slice(s);
                }
                body.extend(path.len().to_ne_bytes());
                body.extend(path.iter().rev().map(|s| s.len() as u8));
                let want: Prefix = *blake3::hash(&body).as_bytes();
                ensure_eq!(r.value, want, "prefix");
                let blocks = body.len().div_ceil(64) as u32;
                ensure_eq!(
                    &r.cost,
                    &OperationCost::with_hash_node_calls(blocks),
                    "cost of the prefix"
                );
                ensure_eq!(&worst, &r.cost, "worst case for these lengths");
                if let Some(o) = seen.lock().unwrap().insert(r.value, s.clone()) {
                    return Err(format!("the same prefix as {o:?}"));
                }
                Ok(())
            },
        );
    });
    // The contexts of a path are those of its prefix.
    ctx.case(
        || "contexts by path and by prefix".into(),
        || {
            let st = Store::new(&Content::new());
            let tx = st.start_transaction();
            let batch = StorageBatch::new();
            for (i, path) in [&[][..], &[b"a".as_ref()], &[b"a", b"b"], &[b"b", b"a"]]
                .iter()
                .enumerate()
            {
                let p = RocksDbStorage::build_prefix(SubtreePath::from(*path));
                let a = st.get_transactional_storage_context(
                    SubtreePath::from(*path),
                    Some(&batch),
                    &tx,
                );
                let b = st.get_immediate_storage_context(SubtreePath::from(*path), &tx);
                ensure_eq!(&a.cost, &p.cost, "cost of a transactional context");
                ensure_eq!(&b.cost, &p.cost, "cost of an immediate context");
                a.value.put(b"t", &[i as u8], None, None).value.map_err(|e| format!("{e}"))?;
                b.value.put(b"i", &[i as u8], None, None).value.map_err(|e| format!("{e}"))?;
            }
            st.commit_multi_context_batch(batch, Some(&tx))
                .value
                .map_err(|e| format!("{e}"))?;
            for (i, path) in [&[][..], &[b"a".as_ref()], &[b"a", b"b"], &[b"b", b"a"]]
                .iter()
                .enumerate()
            {
                let p = RocksDbStorage::build_prefix(SubtreePath::from(*path)).value;
                let x = st
                    .get_immediate_storage_context_by_subtree_prefix(p, &tx)
                    .value;
                for k in [b"t", b"i"] {
                    let got = x.get(k).value.map_err(|e| format!("{e}"))?;
                    ensure_eq!(got, Some(vec![i as u8]), "read by prefix");
                }
            }
            Ok(())
        },
    );
}

fn d11(ctx: &Ctx) {
    ctx.assume(
        "The storage engine below is a small in-memory stand-in with RocksDB's interface \
         (shims/rocksdb): ordered columns, atomic batches, optimistic transactions.",
    );
    ctx.case(|| "writes without a batch".into(), no_batch);
    paths(ctx);
    iterators(ctx);
    let depth = ctx.pick(4, 5);
    for (name, start, cmds) in worlds() {
        ctx.bound(format!(
            "{name}: every program of up to {depth} of {} commands",
            cmds.len()
        ));
        let mut progs: Vec<Vec<usize>> = vec![];
        kit::sequences_upto(cmds.len(), depth, |s| progs.push(s.to_vec()));
        ctx.par(&progs, |s| {
            let prog: Vec<&Cmd> = s.iter().map(|i| &cmds[*i]).collect();
            ctx.case(
                || format!("{name}: {prog:?}"),
                || {
                    let looked = program(ctx, &start, &prog)?;
                    ctx.outcome(if looked { "run" } else { "not enabled" });
                    Ok(())
                },
            );
        });
        // Longer programs with everything decided before the last commands.
        let tail = ctx.pick(2, 3);
        let apply = cmds.iter().position(|c| matches!(c, Cmd::Apply)).unwrap();
        let commit = cmds.iter().position(|c| matches!(c, Cmd::Commit)).unwrap();
        let mut progs: Vec<Vec<usize>> = vec![];
        for a in kit::all_sequences(cmds.len(), 2) {
            for b in kit::all_sequences(cmds.len(), tail - 1) {
                progs.push([&a[..], &[apply], &b[..], &[apply]].concat());
                progs.push([&a[..], &[apply, commit], &b[..], &[apply]].concat());
            }
        }
        ctx.par(&progs, |s| {
            let prog: Vec<&Cmd> = s.iter().map(|i| &cmds[*i]).collect();
            ctx.case(
                || format!("{name}: {prog:?}"),
                || program(ctx, &start, &prog).map(|_| ()),
            );
        });
    }
}
