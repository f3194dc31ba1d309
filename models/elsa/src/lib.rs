//! Model of `elsa::FrozenMap`: an append-only map with stable references (entries are boxed).
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ops::Deref;
pub struct FrozenMap<K, V> { m: UnsafeCell<Vec<(K, Box<V>)>> }
impl<K, V> Default for FrozenMap<K, V> { fn default() -> Self { Self::new() } }
impl<K: Clone, V: Clone> Clone for FrozenMap<K, V> {
    fn clone(&self) -> Self { FrozenMap { m: UnsafeCell::new(unsafe { &*self.m.get() }.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) } }
}
impl<K, V> FrozenMap<K, V> {
    pub fn new() -> Self { FrozenMap { m: UnsafeCell::new(Vec::new()) } }
}
impl<K: Eq, V> FrozenMap<K, V> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        unsafe { &*self.m.get() }.iter().find(|e| e.0.borrow() == k).map(|e| &*e.1)
    }
}
impl<K: Eq, V: Deref> FrozenMap<K, V> {
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V::Target> where K: Borrow<Q> { self.find(k).map(|v| &**v) }
    /// the value that is in the map afterwards; an existing entry stays
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        if self.find(&k).is_none() { unsafe { &mut *self.m.get() }.push((k, Box::new(v))); return &**unsafe { &*self.m.get() }.last().unwrap().1; }
        self.get(&k).unwrap()
    }
    pub fn map_get<Q: ?Sized + Eq, T, F: FnOnce(&V) -> T>(&self, k: &Q, f: F) -> Option<T> where K: Borrow<Q> { self.find(k).map(f) }
}
impl<K: Ord, V> FrozenMap<K, V> {
    pub fn into_map(self) -> BTreeMap<K, V> { self.m.into_inner().into_iter().map(|(k, v)| (k, *v)).collect() }
}
