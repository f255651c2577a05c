//! Hash maps whose iteration order is chosen by the explorer.
//!
//! Real maps iterate in an order that depends on random keys and addresses; here the order is
//! ascending or descending by allocation number, or (with `Bounds::perms`) every permutation.

use super::alloc::in_arena;
use super::rt::*;
use std::collections::hash_map as hm;
use std::collections::hash_set as hs;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut};

#[derive(Clone, Copy, Default, Debug)]
pub struct Fixed;
#[derive(Clone, Default)]
pub struct FixedHasher(u64);
impl BuildHasher for Fixed {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(0)
    }
}
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ u64::from(x);
        }
    }
    fn write_usize(&mut self, i: usize) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(i as u64);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(i);
    }
}

/// Captures the address a key consists of.
struct KeyHasher(u64);
impl Hasher for KeyHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(0x100_0000_01b3) ^ u64::from(x);
        }
    }
    fn write_usize(&mut self, i: usize) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(i as u64);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(i);
    }
}

fn key_of<K: Hash>(k: &K) -> u64 {
    let mut h = KeyHasher(0);
    k.hash(&mut h);
    let v = h.finish();
    if in_arena(v as usize) {
        v & !0xfff
    } else {
        v
    }
}

fn order<T>(mut v: Vec<(u64, T)>) -> Vec<T> {
    v.sort_by_key(|x| x.0);
    let r = rt();
    if is_model() {
        if r.order_desc {
            v.reverse();
        }
        if r.bounds.perms && v.len() > 1 && v.len() <= 4 {
            let mut out = Vec::with_capacity(v.len());
            while v.len() > 1 {
                let c = choose(K_FREE, v.len());
                out.push(v.remove(c).1);
            }
            out.push(v.pop().unwrap().1);
            return out;
        }
    }
    v.into_iter().map(|x| x.1).collect()
}

pub struct HashMap<K, V>(hm::HashMap<K, V, Fixed>);
pub struct HashSet<K>(hs::HashSet<K, Fixed>);

impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(hm::HashMap::with_hasher(Fixed))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(hm::HashMap::with_capacity_and_hasher(n.min(1024), Fixed))
    }
}
impl<K: Hash + Eq, V> HashMap<K, V> {
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        order(self.0.iter().map(|(k, v)| (key_of(k), (k, v))).collect()).into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
        order(self.0.iter_mut().map(|(k, v)| (key_of(k), (k, v))).collect()).into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        order(self.0.drain().map(|(k, v)| (key_of(&k), (k, v))).collect()).into_iter()
    }
    pub fn keys(&self) -> std::vec::IntoIter<&K> {
        order(self.0.keys().map(|k| (key_of(k), k)).collect()).into_iter()
    }
    pub fn values(&self) -> std::vec::IntoIter<&V> {
        order(self.0.iter().map(|(k, v)| (key_of(k), v)).collect()).into_iter()
    }
    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
        order(self.0.iter_mut().map(|(k, v)| (key_of(k), v)).collect()).into_iter()
    }
    pub fn into_keys(self) -> std::vec::IntoIter<K> {
        order(self.0.into_keys().map(|k| (key_of(&k), k)).collect()).into_iter()
    }
    pub fn into_values(self) -> std::vec::IntoIter<V> {
        order(self.0.into_iter().map(|(k, v)| (key_of(&k), v)).collect()).into_iter()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let all = self.drain();
        for (k, mut v) in all {
            if f(&k, &mut v) {
                self.0.insert(k, v);
            }
        }
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K, V> Deref for HashMap<K, V> {
    type Target = hm::HashMap<K, V, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Hash + Eq, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        order(self.0.into_iter().map(|(k, v)| (key_of(&k), (k, v))).collect()).into_iter()
    }
}
impl<'a, K: Hash + Eq, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K: Hash + Eq, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K: Hash + Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}
impl<K: Hash + Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<K: Hash + Eq, V> std::ops::Index<&K> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V {
        &self.0[k]
    }
}
impl<'a, K: Hash + Eq + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<K: Hash + Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Hash + Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Hash + Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap(self.0.clone())
    }
}

impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(hs::HashSet::with_hasher(Fixed))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(hs::HashSet::with_capacity_and_hasher(n.min(1024), Fixed))
    }
}
impl<K: Hash + Eq> HashSet<K> {
    pub fn iter(&self) -> std::vec::IntoIter<&K> {
        order(self.0.iter().map(|k| (key_of(k), k)).collect()).into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<K> {
        order(self.0.drain().map(|k| (key_of(&k), k)).collect()).into_iter()
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K> Deref for HashSet<K> {
    type Target = hs::HashSet<K, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Hash + Eq> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::vec::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        order(self.0.into_iter().map(|k| (key_of(&k), k)).collect()).into_iter()
    }
}
impl<'a, K: Hash + Eq> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = std::vec::IntoIter<&'a K>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<K: Hash + Eq> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}
impl<K: Hash + Eq> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<'a, K: Hash + Eq + Copy> Extend<&'a K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, i: I) {
        self.0.extend(i);
    }
}
impl<K: Hash + Eq, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Hash + Eq> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Hash + Eq> Eq for HashSet<K> {}
impl<K: fmt::Debug> fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Clone> Clone for HashSet<K> {
    fn clone(&self) -> Self {
        HashSet(self.0.clone())
    }
}
