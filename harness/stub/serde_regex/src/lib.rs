//! Stand-in: regular expressions as their texts.
use regex::Regex;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub fn serialize<S: Serializer>(v: &[Regex], s: S) -> Result<S::Ok, S::Error> {
    v.iter().map(|r| r.as_str()).collect::<Vec<_>>().serialize(s)
}
pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<Regex>, D::Error> {
    Vec::<String>::deserialize(d)?.iter().map(|s| Regex::new(s).map_err(serde::de::Error::custom)).collect()
}
