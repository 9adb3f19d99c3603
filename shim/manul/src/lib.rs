//! Interface-only stand-in for the `manul` git dependency, which is not available offline.
//! Only the handful of plain data types that synedrion's entities and Shamir code use are here.
#![no_std]
extern crate alloc;

mod protocol_ids {
    use core::fmt::Debug;
    use serde::{Deserialize, Serialize};
    pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}
    impl<T> PartyId for T where T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}
}
#[cfg(feature = "rounds")]
mod rounds;
pub mod protocol {
    pub use crate::session::LocalError;
    pub use crate::protocol_ids::PartyId;
    #[cfg(feature = "rounds")]
    pub use crate::rounds::*;
}
pub mod session {
    use alloc::string::String;
    #[derive(Debug, Clone)]
    pub struct LocalError(String);
    impl LocalError {
        pub fn new(message: impl Into<String>) -> Self {
            Self(message.into())
        }
    }
    impl core::fmt::Display for LocalError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str(&self.0)
        }
    }
}
pub mod utils {
    use alloc::{collections::BTreeMap, vec::Vec};
    use core::ops::Deref;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SerializableMap<K, V>(BTreeMap<K, V>);
    impl<K, V> Deref for SerializableMap<K, V> {
        type Target = BTreeMap<K, V>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> core::ops::DerefMut for SerializableMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
        fn from(source: BTreeMap<K, V>) -> Self {
            Self(source)
        }
    }
    impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
        fn from(source: SerializableMap<K, V>) -> Self {
            source.0
        }
    }
    impl<K: Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
        fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
            serializer.collect_seq(self.0.iter())
        }
    }
    impl<'de, K: Ord + Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
            let v = Vec::<(K, V)>::deserialize(deserializer)?;
            Ok(Self(v.into_iter().collect()))
        }
    }
}
