//! Stand-in for the string interner, which is not available here.
use std::collections::HashMap;
use std::marker::PhantomData;

/// # Safety
/// as in the original
pub unsafe trait Key: Copy + Eq {
    fn into_usize(self) -> usize;
    fn try_from_usize(int: usize) -> Option<Self>;
}

#[derive(Debug, Clone)]
pub struct Rodeo<K> {
    keys: HashMap<String, usize>,
    strings: Vec<String>,
    k: PhantomData<K>,
}

impl<K: Key> Default for Rodeo<K> {
    fn default() -> Self {
        Self::new()
    }
}

impl<K: Key> Rodeo<K> {
    pub fn new() -> Self {
        Rodeo { keys: HashMap::new(), strings: Vec::new(), k: PhantomData }
    }
    pub fn get(&self, s: impl AsRef<str>) -> Option<K> {
        self.keys.get(s.as_ref()).map(|i| K::try_from_usize(*i).unwrap())
    }
    pub fn get_or_intern(&mut self, s: impl AsRef<str>) -> K {
        if let Some(k) = self.get(s.as_ref()) {
            return k;
        }
        let n = self.strings.len();
        self.strings.push(s.as_ref().to_string());
        self.keys.insert(s.as_ref().to_string(), n);
        K::try_from_usize(n).expect("too many strings")
    }
    pub fn contains(&self, s: impl AsRef<str>) -> bool {
        self.keys.contains_key(s.as_ref())
    }
    pub fn resolve(&self, k: &K) -> &str {
        &self.strings[k.into_usize()]
    }
    /// # Safety
    /// as in the original; here it panics
    pub unsafe fn resolve_unchecked(&self, k: &K) -> &str {
        self.resolve(k)
    }
    pub fn len(&self) -> usize {
        self.strings.len()
    }
}

impl<K> serde::Serialize for Rodeo<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.strings.serialize(s)
    }
}
impl<'de, K: Key> serde::Deserialize<'de> for Rodeo<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let mut r = Rodeo::new();
        for s in Vec::<String>::deserialize(d)? {
            r.get_or_intern(s);
        }
        Ok(r)
    }
}
