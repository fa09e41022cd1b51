//! key types and hashers that a hash table may meet
use std::hash::{BuildHasher, Hash, Hasher};

/// everything collides
#[derive(Clone, Default, Debug)]
pub struct OneBucket;
pub struct OneHasher;
impl Hasher for OneHasher { fn finish(&self) -> u64 { 7 } fn write(&mut self, _: &[u8]) {} }
impl BuildHasher for OneBucket { type Hasher = OneHasher; fn build_hasher(&self) -> OneHasher { OneHasher } }

/// equality looks at the id only
#[derive(Clone, Copy, Debug)]
pub struct Id(pub u32, pub u32);
impl PartialEq for Id { fn eq(&self, o: &Id) -> bool { self.0 == o.0 } }
impl Eq for Id {}
impl Hash for Id { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl PartialOrd for Id { fn partial_cmp(&self, o: &Id) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Id { fn cmp(&self, o: &Id) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
