//! Stand-in for `serde_yaml` 0.8: block mappings of plain or quoted scalars (all that a consensus
//! configuration file uses), with the same scalar typing rules.
use serde::de::{self, value::StrDeserializer, IntoDeserializer, MapAccess, Visitor};
use std::{fmt, io::Read};

#[derive(Debug)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
struct Scalar {
    text: String,
    quoted: bool,
}
fn parse(s: &str) -> Result<Vec<(String, Scalar)>> {
    let mut out: Vec<(String, Scalar)> = vec![];
    for line in s.lines() {
        let t = line.trim_end();
        if t.trim().is_empty() || t.trim_start().starts_with('#') || t == "---" {
            continue;
        }
        if t.starts_with(' ') {
            return Err(Error("unexpected indentation".into()));
        }
        let (k, v) = t
            .split_once(": ")
            .or_else(|| t.strip_suffix(':').map(|k| (k, "")))
            .ok_or(Error(format!("expected a mapping entry: {t}")))?;
        let mut v = v.trim();
        let mut quoted = false;
        if let Some(q) = v.chars().next().filter(|c| *c == '\'' || *c == '"') {
            let end = v[1..].find(q).ok_or(Error("unterminated quote".into()))?;
            v = &v[1..1 + end];
            quoted = true;
        } else if let Some(i) = v.find(" #") {
            v = v[..i].trim_end();
        }
        if out.iter().any(|e| e.0 == k) {
            return Err(Error(format!("duplicate key {k}")));
        }
        out.push((k.trim().to_string(), Scalar { text: v.to_string(), quoted }));
    }
    Ok(out)
}
fn as_int(s: &str) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x") {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(h) = s.strip_prefix("0o") {
        return u128::from_str_radix(h, 8).ok();
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}
impl<'de> de::Deserializer<'de> for Scalar {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if self.quoted {
            return v.visit_string(self.text);
        }
        match self.text.as_str() {
            "" | "~" | "null" => return v.visit_unit(),
            "true" => return v.visit_bool(true),
            "false" => return v.visit_bool(false),
            _ => {}
        }
        match as_int(&self.text) {
            Some(n) if n <= u64::MAX as u128 => v.visit_u64(n as u64),
            Some(n) => v.visit_u128(n),
            None => v.visit_string(self.text),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_str(&self.text)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_str(&self.text)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value> {
        v.visit_enum(self.text.as_str().into_deserializer())
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
    bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
struct Doc(std::vec::IntoIter<(String, Scalar)>, Option<Scalar>);
impl<'de> MapAccess<'de> for Doc {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>> {
        match self.0.next() {
            Some((key, v)) => {
                self.1 = Some(v);
                let d: StrDeserializer<'_, Error> = key.as_str().into_deserializer();
                k.deserialize(d).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value> {
        s.deserialize(self.1.take().unwrap())
    }
}
struct Root(Doc);
impl<'de> de::Deserializer<'de> for Root {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_map(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
    bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any str
    string option newtype_struct enum }
}
pub fn from_str<T: de::DeserializeOwned>(s: &str) -> Result<T> {
    T::deserialize(Root(Doc(parse(s)?.into_iter(), None)))
}
pub fn from_slice<T: de::DeserializeOwned>(s: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?)
}
pub fn from_reader<R: Read, T: de::DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = vec![];
    r.read_to_end(&mut s).map_err(|e| Error(e.to_string()))?;
    from_slice(&s)
}
