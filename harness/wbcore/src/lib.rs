//! bfffs-core's writeback and cache modules, compiled so that std::sync is Shuttle's.
#![allow(clippy::all, unused, dead_code)]
extern crate shimstd as std;
#[path = "/repo/bfffs-core/src/cache/mod.rs"]
pub mod cache;
#[path = "/repo/bfffs-core/src/types.rs"]
pub mod types;
#[path = "/repo/bfffs-core/src/util.rs"]
pub mod util;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;
pub use crate::types::*;
pub use crate::util::*;

/// Exercise the real macro, which is private to its crate
pub mod getter {
    use crate::cache::{self, Cache, Cacheable, CacheRef, Key};
    use divbuf::{DivBuf, DivBufShared};
    use std::sync::{Arc, Mutex};
    use futures::{Future, FutureExt, TryFutureExt};
    use std::pin::Pin;
    type Read = Pin<Box<dyn Future<Output = crate::types::Result<Box<DivBufShared>>> + Send>>;

    /// What DDML::get and IDML::get do
    pub fn get(cache: &Arc<Mutex<Cache>>, key: Key, read: impl FnOnce() -> Read)
        -> Pin<Box<dyn Future<Output = crate::types::Result<Box<DivBuf>>> + Send>>
    {
        cache::get_or_insert!(DivBufShared, DivBuf, cache, key, read())
    }
}
