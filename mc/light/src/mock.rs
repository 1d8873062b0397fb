//! An in-memory storage context with deferred writes and fault injection.
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
};

use grovedb_costs::{
    storage_cost::{key_value_cost::KeyValueStorageCost, StorageCost}, ChildrenSizesWithIsSumTree, CostContext,
    CostResult, CostsExt, OperationCost,
};
use grovedb_storage::{Batch, Error, RawIterator, StorageContext};

#[derive(Default)]
pub struct Mem {
    pub data: RefCell<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub pending: RefCell<Vec<(Vec<u8>, Vec<u8>)>>,
    /// Writes stay invisible to reads until `flush` (as in a batch).
    pub deferred: Cell<bool>,
    /// Operations until the injected failure; counts down on reads or writes.
    pub fail_get: Cell<Option<u64>>,
    pub fail_put: Cell<Option<u64>>,
    pub gets: Cell<u64>,
    pub puts: Cell<u64>,
}

impl Mem {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn flush(&self) {
        self.data.borrow_mut().extend(self.pending.take());
    }
    pub fn heal(&self) {
        self.fail_get.set(None);
        self.fail_put.set(None);
    }
    fn count(c: &Cell<Option<u64>>) -> Result<(), Error> {
        match c.get() {
            Some(0) => Err(Error::StorageError("injected".into())),
            Some(n) => {
                c.set(Some(n - 1));
                Ok(())
            }
            None => Ok(()),
        }
    }
}

/// What this storage charges for a write.
pub fn put_cost(key: usize, value: usize) -> OperationCost {
    OperationCost {
        storage_cost: StorageCost {
            added_bytes: (key + value) as u32,
            ..Default::default()
        },
        ..Default::default()
    }
}

/// Shared handle: the trees own their storage.
#[derive(Clone, Copy)]
pub struct M<'a>(pub &'a Mem);

impl<'db> StorageContext<'db> for M<'_> {
    type Batch = NoBatch;
    type RawIterator = NoIter;

    fn get<K: AsRef<[u8]>>(&self, key: K) -> CostResult<Option<Vec<u8>>, Error> {
        self.0.gets.set(self.0.gets.get() + 1);
        let r = Mem::count(&self.0.fail_get)
            .map(|_| self.0.data.borrow().get(key.as_ref()).cloned());
        let n = r.as_ref().ok().and_then(|v| v.as_ref()).map_or(0, |v| v.len());
        r.wrap_with_cost(OperationCost {
            seek_count: 1,
            storage_loaded_bytes: n as u64,
            ..Default::default()
        })
    }

    fn put<K: AsRef<[u8]>>(
        &self,
        key: K,
        value: &[u8],
        _: ChildrenSizesWithIsSumTree,
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        self.0.puts.set(self.0.puts.get() + 1);
        let r = Mem::count(&self.0.fail_put).map(|_| {
            let kv = (key.as_ref().to_vec(), value.to_vec());
            if self.0.deferred.get() {
                self.0.pending.borrow_mut().push(kv);
            } else {
                self.0.data.borrow_mut().insert(kv.0, kv.1);
            }
        });
        r.wrap_with_cost(put_cost(key.as_ref().len(), value.len()))
    }

    fn put_aux<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("put_aux")
    }
    fn put_root<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("put_root")
    }
    fn put_meta<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("put_meta")
    }
    fn delete<K: AsRef<[u8]>>(
        &self,
        key: K,
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        self.0.data.borrow_mut().remove(key.as_ref());
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn delete_aux<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("delete_aux")
    }
    fn delete_root<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("delete_root")
    }
    fn delete_meta<K: AsRef<[u8]>>(
        &self,
        _: K,
        _: Option<KeyValueStorageCost>,
    ) -> CostResult<(), Error> {
        unimplemented!("delete_meta")
    }
    fn get_aux<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!("get_aux")
    }
    fn get_root<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!("get_root")
    }
    fn get_meta<K: AsRef<[u8]>>(&self, _: K) -> CostResult<Option<Vec<u8>>, Error> {
        unimplemented!("get_meta")
    }
    fn new_batch(&self) -> Self::Batch {
        NoBatch
    }
    fn commit_batch(&self, _: Self::Batch) -> CostResult<(), Error> {
        Ok(()).wrap_with_cost(OperationCost::default())
    }
    fn raw_iter(&self) -> Self::RawIterator {
        unimplemented!("raw_iter")
    }
}

pub struct NoBatch;

impl Batch for NoBatch {
    fn put<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: ChildrenSizesWithIsSumTree,
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_aux<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn put_root<K: AsRef<[u8]>>(
        &mut self,
        _: K,
        _: &[u8],
        _: Option<KeyValueStorageCost>,
    ) -> Result<(), grovedb_costs::error::Error> {
        unimplemented!()
    }
    fn delete<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
    fn delete_aux<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
    fn delete_root<K: AsRef<[u8]>>(&mut self, _: K, _: Option<KeyValueStorageCost>) {
        unimplemented!()
    }
}

pub struct NoIter;

impl RawIterator for NoIter {
    fn seek_to_first(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn seek<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, _: K) -> CostContext<()> {
        unimplemented!()
    }
    fn next(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn prev(&mut self) -> CostContext<()> {
        unimplemented!()
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        unimplemented!()
    }
    fn valid(&self) -> CostContext<bool> {
        unimplemented!()
    }
}
