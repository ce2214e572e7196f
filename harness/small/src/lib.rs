//! Those modules of bfffs-core that need nothing of FreeBSD, straight from /repo
#![allow(clippy::all, unused, dead_code)]
#[path = "/repo/bfffs-core/src/cache/mod.rs"]
pub mod cache;
#[path = "/repo/bfffs-core/src/property.rs"]
pub mod property;
pub mod raid {
    #[path = "/repo/bfffs-core/src/raid/codec.rs"]
    pub mod codec;
    #[path = "/repo/bfffs-core/src/raid/declust.rs"]
    pub mod declust;
    #[path = "/repo/bfffs-core/src/raid/prime_s.rs"]
    pub mod prime_s;
    #[path = "/repo/bfffs-core/src/raid/sgcursor.rs"]
    pub mod sgcursor;

    // The real enum has other members which are of no interest here
    #[enum_dispatch::enum_dispatch]
    #[derive(Clone)]
    pub enum LocatorImpl { PrimeS(prime_s::PrimeS) }
    pub use declust::*;
}
#[path = "/repo/bfffs-core/src/types.rs"]
pub mod types;
#[path = "/repo/bfffs-core/src/util.rs"]
pub mod util;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;
pub use crate::types::*;
pub use crate::util::*;

/// Exercise the real macro, which is private to its crate
pub mod getter {
    use crate::cache::{self, Cache, Cacheable, CacheRef, Key};
    use divbuf::{DivBuf, DivBufShared};
    use std::sync::{Arc, Mutex};
    use futures::{Future, FutureExt, TryFutureExt};
    use std::pin::Pin;
    type Read = Pin<Box<dyn Future<Output = crate::types::Result<Box<DivBufShared>>> + Send>>;

    /// What DDML::get and IDML::get do
    pub fn get(cache: &Arc<Mutex<Cache>>, key: Key, read: impl FnOnce() -> Read)
        -> Pin<Box<dyn Future<Output = crate::types::Result<Box<DivBuf>>> + Send>>
    {
        cache::get_or_insert!(DivBufShared, DivBuf, cache, key, read())
    }
}


/// Exercise what's private to its crate
pub fn inheritable(p: property::Property) -> property::Property { p.inheritable() }
pub fn inheritable_name(p: property::PropertyName) -> property::PropertyName { p.inheritable() }
