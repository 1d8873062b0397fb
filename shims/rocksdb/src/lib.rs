//! An in-memory *environment model* of the rust-rocksdb API surface that
//! `grovedb-storage` is written against (OptimisticTransactionDB, transactions,
//! write batches, raw iterators, checkpoints).
//!
//! It is the closed environment the model checker explores the real GroveDB
//! code in: every source of nondeterminism of the real engine (what survived a
//! crash, which call failed, which transaction committed first) is a decision
//! of the harness, taken through [`model`].
//!
//! Semantics modelled (RocksDB's documented contract):
//! * a `write`/`commit` is atomic and totally ordered; a crash keeps a prefix
//!   of the sequence of atomic writes ([`model::crash_to`]);
//! * optimistic transactions read committed state overlaid with their own
//!   writes, and `commit` fails with `Busy` when a key written by the
//!   transaction was changed by somebody else after the transaction first
//!   wrote it (after it was started, if it was started with a snapshot);
//! * raw iterators see a snapshot of committed state taken at creation, plus
//!   the transaction's own writes;
//! * `rollback` drops the transaction's writes; dropping a transaction too;
//! * a checkpoint is an independent copy of the committed state.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    fmt,
    marker::PhantomData,
    ops::Bound,
    path::{Path, PathBuf},
    sync::{Arc, Mutex, MutexGuard},
};

pub const DEFAULT_COLUMN_FAMILY_NAME: &str = "default";

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type CfId = usize;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrorKind {
    NotFound,
    Corruption,
    InvalidArgument,
    IOError,
    Busy,
    TryAgain,
    Unknown,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error {
    kind: ErrorKind,
    message: String,
}

impl Error {
    fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error {
            kind,
            message: message.into(),
        }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind.clone()
    }
    pub fn into_string(self) -> String {
        self.message
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.message)
    }
}
impl std::error::Error for Error {}

// ---------------------------------------------------------------- options

#[derive(Clone, Default)]
pub struct Options {
    create_if_missing: bool,
    create_missing_column_families: bool,
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }
    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_column_families = v;
    }
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
}

#[derive(Clone, Default)]
pub struct WriteOptions {}

#[derive(Clone, Default)]
pub struct OptimisticTransactionOptions {
    snapshot: bool,
}
impl OptimisticTransactionOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_snapshot(&mut self, snapshot: bool) {
        self.snapshot = snapshot;
    }
}

pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new(name: impl Into<String>, _opts: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}

pub struct ColumnFamily {
    id: CfId,
}

pub trait AsColumnFamilyRef {
    #[doc(hidden)]
    fn cf_id(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn cf_id(&self) -> usize {
        self.id
    }
}
impl<T: AsColumnFamilyRef> AsColumnFamilyRef for &T {
    fn cf_id(&self) -> usize {
        (**self).cf_id()
    }
}

// ---------------------------------------------------------------- state

/// One committed state: the contents of every column family.
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Snapshot {
    cfs: Vec<(String, Arc<Map>)>,
}

impl Snapshot {
    /// `(column family, key, value)` of every entry, in order.
    pub fn entries(&self) -> Vec<(String, Vec<u8>, Vec<u8>)> {
        let mut out = vec![];
        for (n, m) in &self.cfs {
            for (k, v) in m.iter() {
                out.push((n.clone(), k.clone(), v.clone()));
            }
        }
        out
    }
    pub fn cf(&self, name: &str) -> Option<&BTreeMap<Vec<u8>, Vec<u8>>> {
        self.cfs.iter().find(|(n, _)| n == name).map(|(_, m)| &**m)
    }
    /// Overwrites (or removes, with `None`) one raw entry.
    pub fn set(&mut self, cf: &str, key: &[u8], value: Option<Vec<u8>>) {
        for (n, m) in &mut self.cfs {
            if n == cf {
                let m = Arc::make_mut(m);
                match value {
                    Some(v) => {
                        m.insert(key.to_vec(), v);
                    }
                    None => {
                        m.remove(key);
                    }
                }
                return;
            }
        }
    }
    pub fn len(&self) -> usize {
        self.cfs.iter().map(|(_, m)| m.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

#[derive(Default)]
struct State {
    now: Snapshot,
    seq: u64,
    /// sequence number of the last modification of a key
    modified: HashMap<(CfId, Vec<u8>), u64>,
    /// states after each atomic write, when recording
    log: Option<Vec<Snapshot>>,
}

impl State {
    fn map(&self, cf: CfId) -> &Arc<Map> {
        &self.now.cfs[cf].1
    }
    fn apply(&mut self, ops: &[Op]) {
        self.seq += 1;
        let seq = self.seq;
        for op in ops {
            match op {
                Op::Put(cf, k, v) => {
                    self.modified.insert((*cf, k.clone()), seq);
                    Arc::make_mut(&mut self.now.cfs[*cf].1).insert(k.clone(), v.clone());
                }
                Op::Delete(cf, k) => {
                    self.modified.insert((*cf, k.clone()), seq);
                    Arc::make_mut(&mut self.now.cfs[*cf].1).remove(k);
                }
            }
        }
        if let Some(log) = &mut self.log {
            log.push(self.now.clone());
        }
    }
}

type Shared = Arc<Mutex<State>>;

fn lock(s: &Shared) -> MutexGuard<'_, State> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

/// Every database of this process. Real directories are identified by the
/// random id in their `CURRENT` file, so that deleting or moving a directory
/// deletes or moves the database; paths below [`model::MEM`] never touch the
/// file system.
static REGISTRY: Mutex<Option<HashMap<String, Shared>>> = Mutex::new(None);

fn registry<R>(f: impl FnOnce(&mut HashMap<String, Shared>) -> R) -> R {
    let mut g = REGISTRY.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HashMap::new))
}

fn fresh_id() -> String {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    format!(
        "{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    )
}

fn is_mem(path: &Path) -> bool {
    path.starts_with(model::MEM)
}

fn io(e: std::io::Error) -> Error {
    Error::new(ErrorKind::IOError, format!("IO error: {e}"))
}

fn locate(path: &Path) -> Option<Shared> {
    let id = if is_mem(path) {
        path.to_string_lossy().into_owned()
    } else {
        std::fs::read_to_string(path.join("CURRENT")).ok()?
    };
    registry(|r| r.get(&id).cloned())
}

fn create(path: &Path, state: State) -> Result<Shared, Error> {
    let shared = Arc::new(Mutex::new(state));
    let id = if is_mem(path) {
        path.to_string_lossy().into_owned()
    } else {
        std::fs::create_dir_all(path).map_err(io)?;
        let id = fresh_id();
        std::fs::write(path.join("CURRENT"), &id).map_err(io)?;
        id
    };
    registry(|r| r.insert(id, shared.clone()));
    Ok(shared)
}

// ---------------------------------------------------------------- batches

#[derive(Clone, Debug)]
enum Op {
    Put(CfId, Vec<u8>, Vec<u8>),
    Delete(CfId, Vec<u8>),
}

#[derive(Default, Clone)]
pub struct WriteBatchWithTransaction<const TRANSACTION: bool> {
    ops: Vec<Op>,
}

pub type WriteBatch = WriteBatchWithTransaction<false>;

impl<const T: bool> WriteBatchWithTransaction<T> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.ops
            .push(Op::Put(0, k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &mut self,
        cf: &impl AsColumnFamilyRef,
        k: K,
        v: V,
    ) {
        self.ops
            .push(Op::Put(cf.cf_id(), k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.ops.push(Op::Delete(0, k.as_ref().to_vec()));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K) {
        self.ops.push(Op::Delete(cf.cf_id(), k.as_ref().to_vec()));
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear();
    }
}

// ---------------------------------------------------------------- database

pub struct SingleThreaded;

pub struct OptimisticTransactionDB<T = SingleThreaded> {
    shared: Shared,
    cfs: Vec<(String, ColumnFamily)>,
    _t: PhantomData<T>,
    path: PathBuf,
}

impl OptimisticTransactionDB {
    pub fn open_cf_descriptors<P, I>(opts: &Options, path: P, cfs: I) -> Result<Self, Error>
    where
        P: AsRef<Path>,
        I: IntoIterator<Item = ColumnFamilyDescriptor>,
    {
        model::event(model::Call::Open)?;
        let path = path.as_ref();
        let mut names = vec![DEFAULT_COLUMN_FAMILY_NAME.to_string()];
        for d in cfs {
            if d.name != DEFAULT_COLUMN_FAMILY_NAME {
                names.push(d.name);
            }
        }
        let shared = match locate(path) {
            Some(s) => s,
            None => {
                if !opts.create_if_missing {
                    return Err(Error::new(
                        ErrorKind::InvalidArgument,
                        format!(
                            "Invalid argument: {}/CURRENT: does not exist (create_if_missing is \
                             false)",
                            path.display()
                        ),
                    ));
                }
                create(path, State::default())?
            }
        };
        {
            let mut st = lock(&shared);
            for n in &names {
                if !st.now.cfs.iter().any(|(m, _)| m == n) {
                    if n != DEFAULT_COLUMN_FAMILY_NAME && !opts.create_missing_column_families {
                        return Err(Error::new(
                            ErrorKind::InvalidArgument,
                            format!("Invalid argument: Column family not found: {n}"),
                        ));
                    }
                    st.now.cfs.push((n.clone(), Arc::new(Map::new())));
                }
            }
        }
        let cfs = {
            let st = lock(&shared);
            st.now
                .cfs
                .iter()
                .enumerate()
                .map(|(id, (n, _))| (n.clone(), ColumnFamily { id }))
                .collect()
        };
        Ok(OptimisticTransactionDB {
            shared,
            cfs,
            _t: PhantomData,
            path: path.to_path_buf(),
        })
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.iter().find(|(n, _)| n == name).map(|(_, c)| c)
    }

    fn read(&self, cf: CfId, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        model::event(model::Call::Get)?;
        Ok(lock(&self.shared).map(cf).get(key).cloned())
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }

    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.cf_id(), key.as_ref())
    }

    pub fn write<const B: bool>(&self, batch: WriteBatchWithTransaction<B>) -> Result<(), Error> {
        model::event(model::Call::Write)?;
        lock(&self.shared).apply(&batch.ops);
        Ok(())
    }

    pub fn delete_range_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        from: K,
        to: K,
    ) -> Result<(), Error> {
        model::event(model::Call::Write)?;
        let mut st = lock(&self.shared);
        let ops: Vec<Op> = st
            .map(cf.cf_id())
            .range::<[u8], _>((
                Bound::Included(from.as_ref()),
                Bound::Excluded(to.as_ref()),
            ))
            .map(|(k, _)| Op::Delete(cf.cf_id(), k.clone()))
            .collect();
        st.apply(&ops);
        Ok(())
    }

    pub fn transaction(&self) -> Transaction<'_, Self> {
        self.transaction_opt(&WriteOptions::default(), &Default::default())
    }

    pub fn transaction_opt(
        &self,
        _write: &WriteOptions,
        opts: &OptimisticTransactionOptions,
    ) -> Transaction<'_, Self> {
        let _ = model::event(model::Call::Begin);
        Transaction {
            shared: self.shared.clone(),
            inner: Arc::new(Mutex::new(TxState::default())),
            snapshot: opts.snapshot.then(|| lock(&self.shared).seq),
            _db: PhantomData,
        }
    }

    pub fn flush(&self) -> Result<(), Error> {
        model::event(model::Call::Flush)
    }

    pub fn raw_iterator_cf(
        &self,
        cf: &impl AsColumnFamilyRef,
    ) -> DBRawIteratorWithThreadMode<'_, Self> {
        let _ = model::event(model::Call::IterNew);
        DBRawIteratorWithThreadMode {
            base: lock(&self.shared).map(cf.cf_id()).clone(),
            tx: None,
            cf: cf.cf_id(),
            current: None,
            failed: None,
            _db: PhantomData,
        }
    }
}

// ---------------------------------------------------------------- transactions

#[derive(Default)]
struct TxState {
    /// own writes: None is a deletion
    writes: BTreeMap<(CfId, Vec<u8>), Option<Vec<u8>>>,
    /// database sequence number when the key was first written here
    tracked: BTreeMap<(CfId, Vec<u8>), u64>,
}

type TxShared = Arc<Mutex<TxState>>;

fn txlock(s: &TxShared) -> MutexGuard<'_, TxState> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

pub struct Transaction<'db, DB> {
    shared: Shared,
    inner: TxShared,
    /// sequence number of its snapshot
    snapshot: Option<u64>,
    _db: PhantomData<&'db DB>,
}

impl<'db, DB> Transaction<'db, DB> {
    fn record(&self, cf: CfId, key: &[u8], value: Option<Vec<u8>>) {
        let seq = self.snapshot.unwrap_or_else(|| lock(&self.shared).seq);
        let mut tx = txlock(&self.inner);
        let k = (cf, key.to_vec());
        tx.tracked.entry(k.clone()).or_insert(seq);
        tx.writes.insert(k, value);
    }

    fn read(&self, cf: CfId, key: &[u8]) -> Result<Option<Vec<u8>>, Error> {
        model::event(model::Call::Get)?;
        if let Some(v) = txlock(&self.inner).writes.get(&(cf, key.to_vec())) {
            return Ok(v.clone());
        }
        Ok(lock(&self.shared).map(cf).get(key).cloned())
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.read(0, key.as_ref())
    }
    pub fn get_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<Option<Vec<u8>>, Error> {
        self.read(cf.cf_id(), key.as_ref())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        model::event(model::Call::TxWrite)?;
        self.record(0, key.as_ref(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
        value: V,
    ) -> Result<(), Error> {
        model::event(model::Call::TxWrite)?;
        self.record(cf.cf_id(), key.as_ref(), Some(value.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        model::event(model::Call::TxWrite)?;
        self.record(0, key.as_ref(), None);
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(
        &self,
        cf: &impl AsColumnFamilyRef,
        key: K,
    ) -> Result<(), Error> {
        model::event(model::Call::TxWrite)?;
        self.record(cf.cf_id(), key.as_ref(), None);
        Ok(())
    }

    /// Replays a write batch into this transaction.
    pub fn rebuild_from_writebatch(
        &self,
        batch: &WriteBatchWithTransaction<true>,
    ) -> Result<(), Error> {
        model::event(model::Call::TxWrite)?;
        for op in &batch.ops {
            match op {
                Op::Put(cf, k, v) => self.record(*cf, k, Some(v.clone())),
                Op::Delete(cf, k) => self.record(*cf, k, None),
            }
        }
        Ok(())
    }

    pub fn raw_iterator<'a>(&'a self) -> DBRawIteratorWithThreadMode<'a, Self> {
        let _ = model::event(model::Call::IterNew);
        DBRawIteratorWithThreadMode {
            base: lock(&self.shared).map(0).clone(),
            tx: Some(self.inner.clone()),
            cf: 0,
            current: None,
            failed: None,
            _db: PhantomData,
        }
    }

    pub fn commit(self) -> Result<(), Error> {
        model::event(model::Call::Commit)?;
        let tx = txlock(&self.inner);
        let mut st = lock(&self.shared);
        for (k, seq) in &tx.tracked {
            if st.modified.get(k).is_some_and(|m| m > seq) {
                return Err(Error::new(ErrorKind::Busy, "Resource busy: "));
            }
        }
        if tx.writes.is_empty() {
            return Ok(());
        }
        let ops: Vec<Op> = tx
            .writes
            .iter()
            .map(|((cf, k), v)| match v {
                Some(v) => Op::Put(*cf, k.clone(), v.clone()),
                None => Op::Delete(*cf, k.clone()),
            })
            .collect();
        st.apply(&ops);
        Ok(())
    }

    pub fn rollback(&self) -> Result<(), Error> {
        *txlock(&self.inner) = TxState::default();
        Ok(())
    }
}

// ---------------------------------------------------------------- iterators

pub struct DBRawIteratorWithThreadMode<'a, D> {
    base: Arc<Map>,
    tx: Option<TxShared>,
    cf: CfId,
    current: Option<(Vec<u8>, Vec<u8>)>,
    failed: Option<Error>,
    _db: PhantomData<&'a D>,
}

impl<D> DBRawIteratorWithThreadMode<'_, D> {
    fn forward(&self, mut from: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        loop {
            let bound = match &from {
                Bound::Included(k) => Bound::Included(k.as_slice()),
                Bound::Excluded(k) => Bound::Excluded(k.as_slice()),
                Bound::Unbounded => Bound::Unbounded,
            };
            let base = self.base.range::<[u8], _>((bound, Bound::Unbounded)).next();
            let own = self.tx.as_ref().and_then(|t| {
                let t = txlock(t);
                let lo = match &from {
                    Bound::Included(k) => Bound::Included((self.cf, k.clone())),
                    Bound::Excluded(k) => Bound::Excluded((self.cf, k.clone())),
                    Bound::Unbounded => Bound::Included((self.cf, vec![])),
                };
                let r = t
                    .writes
                    .range((lo, Bound::Excluded((self.cf + 1, vec![]))))
                    .next()
                    .map(|((_, k), v)| (k.clone(), v.clone()));
                r
            });
            match (base, own) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if *k < ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(ov)))) => return Some((ok, ov)),
                (_, Some((ok, None))) => from = Bound::Excluded(ok),
            }
        }
    }

    fn backward(&self, mut to: Bound<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
        loop {
            let bound = match &to {
                Bound::Included(k) => Bound::Included(k.as_slice()),
                Bound::Excluded(k) => Bound::Excluded(k.as_slice()),
                Bound::Unbounded => Bound::Unbounded,
            };
            let base = self
                .base
                .range::<[u8], _>((Bound::Unbounded, bound))
                .next_back();
            let own = self.tx.as_ref().and_then(|t| {
                let t = txlock(t);
                let hi = match &to {
                    Bound::Included(k) => Bound::Included((self.cf, k.clone())),
                    Bound::Excluded(k) => Bound::Excluded((self.cf, k.clone())),
                    Bound::Unbounded => Bound::Excluded((self.cf + 1, vec![])),
                };
                let r = t
                    .writes
                    .range((Bound::Included((self.cf, vec![])), hi))
                    .next_back()
                    .map(|((_, k), v)| (k.clone(), v.clone()));
                r
            });
            match (base, own) {
                (None, None) => return None,
                (Some((k, v)), None) => return Some((k.clone(), v.clone())),
                (Some((k, v)), Some((ok, _))) if *k > ok => return Some((k.clone(), v.clone())),
                (_, Some((ok, Some(ov)))) => return Some((ok, ov)),
                (_, Some((ok, None))) => to = Bound::Excluded(ok),
            }
        }
    }

    /// A failed move leaves the iterator invalid, with a status that says why.
    fn go(&mut self, to: impl FnOnce(&Self) -> Option<(Vec<u8>, Vec<u8>)>) {
        match model::event(model::Call::IterMove) {
            Ok(()) => {
                self.failed = None;
                self.current = to(self);
            }
            Err(e) => {
                self.failed = Some(e);
                self.current = None;
            }
        }
    }
    pub fn seek_to_first(&mut self) {
        self.go(|i| i.forward(Bound::Unbounded));
    }
    pub fn seek_to_last(&mut self) {
        self.go(|i| i.backward(Bound::Unbounded));
    }
    pub fn seek<K: AsRef<[u8]>>(&mut self, key: K) {
        self.go(|i| i.forward(Bound::Included(key.as_ref().to_vec())));
    }
    pub fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.go(|i| i.backward(Bound::Included(key.as_ref().to_vec())));
    }
    pub fn next(&mut self) {
        if let Some((k, _)) = self.current.take() {
            self.go(|i| i.forward(Bound::Excluded(k)));
        }
    }
    pub fn prev(&mut self) {
        if let Some((k, _)) = self.current.take() {
            self.go(|i| i.backward(Bound::Excluded(k)));
        }
    }
    pub fn valid(&self) -> bool {
        self.current.is_some()
    }
    pub fn status(&self) -> Result<(), Error> {
        self.failed.clone().map_or(Ok(()), Err)
    }
    pub fn key(&self) -> Option<&[u8]> {
        self.current.as_ref().map(|(k, _)| k.as_slice())
    }
    pub fn value(&self) -> Option<&[u8]> {
        self.current.as_ref().map(|(_, v)| v.as_slice())
    }
}

// ---------------------------------------------------------------- checkpoints

pub mod checkpoint {
    use super::*;

    pub struct Checkpoint<'db> {
        shared: Shared,
        _db: PhantomData<&'db ()>,
    }

    impl<'db> Checkpoint<'db> {
        pub fn new(db: &'db OptimisticTransactionDB) -> Result<Self, Error> {
            Ok(Checkpoint {
                shared: db.shared.clone(),
                _db: PhantomData,
            })
        }
        pub fn create_checkpoint<P: AsRef<Path>>(&self, path: P) -> Result<(), Error> {
            self.create_checkpoint_with_log_size(path, 0)
        }
        pub fn create_checkpoint_with_log_size<P: AsRef<Path>>(
            &self,
            path: P,
            _log_size_for_flush: u64,
        ) -> Result<(), Error> {
            model::event(model::Call::Checkpoint)?;
            let path = path.as_ref();
            if locate(path).is_some() || (!is_mem(path) && path.exists()) {
                return Err(Error::new(
                    ErrorKind::InvalidArgument,
                    "Invalid argument: Directory exists",
                ));
            }
            let now = lock(&self.shared).now.clone();
            create(
                path,
                State {
                    now,
                    ..Default::default()
                },
            )?;
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- control

/// The harness's side of the environment model.
pub mod model {
    use super::*;

    /// Databases opened below this path live in memory only.
    pub const MEM: &str = "/vmem";

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Call {
        Open,
        Get,
        Write,
        TxWrite,
        Commit,
        Flush,
        Checkpoint,
        /// start of a transaction: can not fail, but takes its snapshot
        Begin,
        /// creation of an iterator: can not fail, but takes its view
        IterNew,
        /// a move of an iterator: reports a failure by its status only
        IterMove,
    }

    /// The calls that report their failure by their result.
    pub const FALLIBLE: &[Call] = &[
        Call::Open,
        Call::Get,
        Call::Write,
        Call::TxWrite,
        Call::Commit,
        Call::Flush,
        Call::Checkpoint,
    ];
    /// The calls that see what others committed.
    pub const SCHEDULE: &[Call] = &[
        Call::Begin,
        Call::Get,
        Call::Write,
        Call::TxWrite,
        Call::Commit,
        Call::IterNew,
    ];

    #[derive(Default)]
    struct Faults {
        count: u64,
        fail_at: Option<u64>,
        only: Option<&'static [Call]>,
        fired: bool,
        hook: Option<(u64, Box<dyn FnOnce()>)>,
    }

    thread_local! {
        static FAULTS: RefCell<Faults> = RefCell::new(Faults::default());
    }

    pub(super) fn event(call: Call) -> Result<(), Error> {
        let hook = FAULTS.with(|f| {
            let mut f = f.borrow_mut();
            if !f.only.unwrap_or(FALLIBLE).contains(&call) {
                return Ok(None);
            }
            let n = f.count;
            f.count += 1;
            if f.fail_at == Some(n) {
                f.fired = true;
                return Err(Error::new(
                    ErrorKind::IOError,
                    format!("IO error: injected at {call:?} #{n}"),
                ));
            }
            if f.hook.as_ref().is_some_and(|(k, _)| *k == n) {
                f.fired = true;
                return Ok(f.hook.take());
            }
            Ok(None)
        })?;
        if let Some((_, hook)) = hook {
            // what it calls is not counted
            let saved = FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()));
            hook();
            FAULTS.with(|f| *f.borrow_mut() = saved);
        }
        Ok(())
    }

    /// Restarts counting environment calls of this thread (of some kinds, if
    /// given) and makes call number `fail_at` (if any) fail.
    pub fn arm(only: Option<&'static [Call]>, fail_at: Option<u64>) {
        FAULTS.with(|f| {
            *f.borrow_mut() = Faults {
                fail_at,
                only,
                ..Default::default()
            }
        });
    }

    /// Runs `f` just before call number `n` of this thread (of some kinds, if
    /// given): what another thread does there, as seen by this one.
    pub fn at_call(only: Option<&'static [Call]>, n: u64, f: impl FnOnce() + 'static) {
        FAULTS.with(|x| {
            *x.borrow_mut() = Faults {
                only,
                hook: Some((n, Box::new(f))),
                ..Default::default()
            }
        });
    }

    /// Number of calls seen since [`arm`], and whether the fault was injected
    /// (the hook was run).
    pub fn disarm() -> (u64, bool) {
        FAULTS.with(|f| {
            let mut f = f.borrow_mut();
            let r = (f.count, f.fired);
            *f = Faults::default();
            r
        })
    }

    /// The committed state of the database at `path`.
    pub fn snapshot(path: impl AsRef<Path>) -> Option<Snapshot> {
        locate(path.as_ref()).map(|s| lock(&s).now.clone())
    }

    /// Makes `path` a database with exactly this committed state (a new one:
    /// handles that are open on an older database of this name keep theirs).
    pub fn restore(path: impl AsRef<Path>, snap: &Snapshot) {
        create(
            path.as_ref(),
            State {
                now: snap.clone(),
                ..Default::default()
            },
        )
        .expect("restore");
    }

    /// Forgets the database at `path`.
    pub fn remove(path: impl AsRef<Path>) {
        let id = path.as_ref().to_string_lossy().into_owned();
        registry(|r| r.remove(&id));
    }

    /// Starts recording the state after every atomic write of the database at
    /// `path`; the first entry is the current state.
    pub fn record(path: impl AsRef<Path>) {
        if let Some(s) = locate(path.as_ref()) {
            let mut s = lock(&s);
            let first = s.now.clone();
            s.log = Some(vec![first]);
        }
    }

    /// The recorded states: entry i is what a crash after i atomic writes
    /// leaves behind.
    pub fn recorded(path: impl AsRef<Path>) -> Vec<Snapshot> {
        locate(path.as_ref())
            .and_then(|s| lock(&s).log.clone())
            .unwrap_or_default()
    }
}
