//! stand-in for fxhash: the same interface over the hasher of std
pub type FxHashMap<K, V> = std::collections::HashMap<K, V>;
pub type FxHashSet<K> = std::collections::HashSet<K>;
