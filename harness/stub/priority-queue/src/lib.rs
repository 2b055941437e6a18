//! Stand-in for the priority queue, which is not available here.
use indexmap::IndexMap;
use std::hash::{BuildHasher, Hash};
#[derive(Clone, Debug)]
pub struct PriorityQueue<I, P, H = std::collections::hash_map::RandomState> {
    map: IndexMap<I, P, H>,
}
impl<I, P, H: Default> Default for PriorityQueue<I, P, H> {
    fn default() -> Self {
        PriorityQueue { map: IndexMap::with_hasher(H::default()) }
    }
}
impl<I: Hash + Eq, P: Ord, H: BuildHasher> PriorityQueue<I, P, H> {
    pub fn with_hasher(h: H) -> Self {
        PriorityQueue { map: IndexMap::with_hasher(h) }
    }
    pub fn push(&mut self, i: I, p: P) -> Option<P> {
        self.map.insert(i, p)
    }
    fn best(&self) -> Option<usize> {
        (0..self.map.len()).reduce(|a, b| if self.map[b] > self.map[a] { b } else { a })
    }
    pub fn pop(&mut self) -> Option<(I, P)> {
        let k = self.best()?;
        self.map.swap_remove_index(k)
    }
    pub fn peek(&self) -> Option<(&I, &P)> {
        self.map.get_index(self.best()?)
    }
    pub fn change_priority(&mut self, i: &I, p: P) -> Option<P> {
        self.map.get_mut(i).map(|q| std::mem::replace(q, p))
    }
    pub fn get_priority(&self, i: &I) -> Option<&P> {
        self.map.get(i)
    }
    pub fn remove(&mut self, i: &I) -> Option<(I, P)> {
        self.map.swap_remove_entry(i)
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear()
    }
    pub fn contains(&self, i: &I) -> bool {
        self.map.contains_key(i)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&I, &P)> {
        self.map.iter()
    }
}
