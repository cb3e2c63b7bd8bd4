//! Real collections, except that hash maps hash deterministically and do not reserve gigabytes.
pub use ::std::collections::*;
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut, Index};

const MAX_RESERVE: usize = 4096;

thread_local! {
    static SEED: ::std::cell::Cell<u64> = const { ::std::cell::Cell::new(0) };
}
/// For the harness: changes the iteration order of hash maps.
pub fn verif_seed(s: u64) {
    SEED.with(|x| x.set(s));
}

#[derive(Clone, Debug)]
pub struct RandomState(u64);
impl RandomState {
    pub fn new() -> Self {
        RandomState(SEED.with(|x| x.get()))
    }
}
impl Default for RandomState {
    fn default() -> Self {
        RandomState::new()
    }
}
impl BuildHasher for RandomState {
    type Hasher = ::std::collections::hash_map::DefaultHasher;
    #[allow(deprecated)]
    fn build_hasher(&self) -> Self::Hasher {
        let mut h = ::std::collections::hash_map::DefaultHasher::new();
        if self.0 != 0 {
            h.write_u64(self.0);
        }
        h
    }
}

pub mod hash_map {
    pub use super::{HashMap, RandomState};
    pub use ::std::collections::hash_map::{
        DefaultHasher, Drain, Entry, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut,
    };
}
pub mod hash_set {
    pub use super::HashSet;
    pub use ::std::collections::hash_set::{Difference, Drain, Intersection, IntoIter, Iter, SymmetricDifference, Union};
}

type RealMap<K, V, S> = ::std::collections::HashMap<K, V, S>;
type RealSet<T, S> = ::std::collections::HashSet<T, S>;

pub struct HashMap<K, V, S = RandomState>(RealMap<K, V, S>);

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        HashMap(RealMap::with_hasher(RandomState::new()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(RealMap::with_capacity_and_hasher(n.min(MAX_RESERVE), RandomState::new()))
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub const fn with_hasher(s: S) -> Self {
        HashMap(RealMap::with_hasher(s))
    }
    pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
        HashMap(RealMap::with_capacity_and_hasher(n.min(MAX_RESERVE), s))
    }
    pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n.min(MAX_RESERVE))
    }
}
impl<K, V, S> Deref for HashMap<K, V, S> {
    type Target = RealMap<K, V, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V, S> DerefMut for HashMap<K, V, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap(RealMap::default())
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap(self.0.clone())
    }
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        HashMap(RealMap::from_iter(i))
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.0[k]
    }
}
impl<K: serde::Serialize, V: serde::Serialize, S> serde::Serialize for HashMap<K, V, S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.collect_map(self.0.iter())
    }
}
impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S: BuildHasher + Default> serde::Deserialize<'de> for HashMap<K, V, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        RealMap::deserialize(d).map(HashMap)
    }
}

pub struct HashSet<T, S = RandomState>(RealSet<T, S>);

impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        HashSet(RealSet::with_hasher(RandomState::new()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(RealSet::with_capacity_and_hasher(n.min(MAX_RESERVE), RandomState::new()))
    }
}
impl<T, S> HashSet<T, S> {
    pub const fn with_hasher(s: S) -> Self {
        HashSet(RealSet::with_hasher(s))
    }
    pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
        HashSet(RealSet::with_capacity_and_hasher(n.min(MAX_RESERVE), s))
    }
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn reserve(&mut self, n: usize) {
        self.0.reserve(n.min(MAX_RESERVE))
    }
}
impl<T, S> Deref for HashSet<T, S> {
    type Target = RealSet<T, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T, S> DerefMut for HashSet<T, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<T, S: Default> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet(RealSet::default())
    }
}
impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet(self.0.clone())
    }
}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        HashSet(RealSet::from_iter(i))
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = hash_set::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = hash_set::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
