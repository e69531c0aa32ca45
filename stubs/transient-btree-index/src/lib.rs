//! Verification stand-in for the disk-backed map: the same contract on an in-memory BTreeMap.
use std::collections::BTreeMap;
#[derive(Debug, Clone, thiserror::Error)]
#[error("btree index error")]
pub struct Error;
#[derive(Debug, Clone, Default)]
pub struct BtreeConfig {}
impl BtreeConfig { pub fn fixed_key_size(self, _: usize) -> Self { self } pub fn max_key_size(self, _: usize) -> Self { self } pub fn fixed_value_size(self, _: usize) -> Self { self } pub fn max_value_size(self, _: usize) -> Self { self } pub fn order(self, _: usize) -> Self { self } pub fn block_cache_size(self, _: usize) -> Self { self } }
extern "C" { fn ftruncate64(fd: i32, len: i64) -> i32; }
/// the growth of the file behind the index, which can fail
fn grow() -> Result<(), Error> { const EBADF: i32 = 9; if unsafe { ftruncate64(-1, 0) } != 0 && std::io::Error::last_os_error().raw_os_error() != Some(EBADF) { Err(Error) } else { Ok(()) } }
pub struct BtreeIndex<K, V> { m: BTreeMap<K, V> }
impl<K: Ord + Clone, V: Clone> BtreeIndex<K, V> {
    pub fn with_capacity(_: BtreeConfig, _: usize) -> Result<Self, Error> { grow()?; Ok(BtreeIndex { m: BTreeMap::new() }) }
    pub fn get(&self, k: &K) -> Result<Option<V>, Error> { Ok(self.m.get(k).cloned()) }
    pub fn contains_key(&self, k: &K) -> Result<bool, Error> { Ok(self.m.contains_key(k)) }
    pub fn insert(&mut self, k: K, v: V) -> Result<Option<V>, Error> { grow()?; Ok(self.m.insert(k, v)) }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn swap(&mut self, a: &K, b: &K) -> Result<(), Error> { if let (Some(x), Some(y)) = (self.m.get(a).cloned(), self.m.get(b).cloned()) { self.m.insert(a.clone(), y); self.m.insert(b.clone(), x); } Ok(()) }
    pub fn range<R: std::ops::RangeBounds<K>>(&self, r: R) -> Result<Box<dyn Iterator<Item = Result<(K, V), Error>> + '_>, Error> { Ok(Box::new(self.m.range(r).map(|(k, v)| Ok((k.clone(), v.clone()))))) }
    pub fn into_iter(self) -> Result<Box<dyn Iterator<Item = Result<(K, V), Error>>>, Error> where K: 'static, V: 'static { Ok(Box::new(self.m.into_iter().map(Ok))) }
}
