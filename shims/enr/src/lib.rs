//! Stand-in for `enr`: keeps the textual form only.
use std::marker::PhantomData;
pub mod k256 {
    pub mod ecdsa {
        #[derive(Debug, Clone)]
        pub struct SigningKey;
    }
}
#[derive(Debug, Clone)]
pub struct Enr<K>(String, PhantomData<K>);
impl<K> serde::Serialize for Enr<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de, K> serde::Deserialize<'de> for Enr<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        if s.starts_with("enr:") {
            Ok(Enr(s, PhantomData))
        } else {
            Err(serde::de::Error::custom("invalid ENR"))
        }
    }
}
impl<K> PartialEq for Enr<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K> std::fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
