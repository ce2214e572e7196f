//! A pool on scratch files whose devices are modelled by the tokio-file shim
use bfffs_core::{
    cache::Cache, cluster::Cluster, database::*, ddml::DDML, fs::Fs, idml::IDML, mirror::Mirror, pool::Pool, Uuid,
};
use serde_json::Value;
use std::{
    io::Write, num::NonZeroU64, path::PathBuf,
    sync::{Arc, Mutex},
};

pub struct Out(pub std::io::LineWriter<std::fs::File>, Option<Vec<Value>>);
impl Out {
    pub fn new(p: &str) -> Self { Out(std::io::LineWriter::new(std::fs::File::create(p).unwrap()), None) }
    pub fn ev(&mut self, v: Value) {
        if let Some(b) = &mut self.1 { b.push(v) } else { writeln!(self.0, "{v}").unwrap(); }
    }
    pub fn hold(&mut self) { self.1 = Some(vec![]) }
    pub fn unhold(&mut self) -> Vec<Value> { self.1.take().unwrap() }
}

/// A directory that goes away
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = base.join(format!("bfffs-verif-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Clone, Debug)]
pub struct Layout { pub disks: usize, pub m: usize, pub k: i16, pub f: i16, pub nclusters: usize, pub fsize: u64,
    pub cs: Option<u64>, pub zone: Option<u64> }
impl Layout {
    pub fn single() -> Self { Layout { disks: 1, m: 1, k: 1, f: 0, nclusters: 1, fsize: 256 << 20, cs: None, zone: Some(2048) } }
}

pub struct Rig { pub scratch: Scratch, pub lay: Layout, pub paths: Vec<PathBuf>, pub devs: Vec<Arc<tokio_file::Device>>,
    /// Disks that can't be found any more
    pub missing: Vec<usize>,
    /// Give the space driver the current IDML
    pub keep: bool,
    pub idml: Mutex<std::sync::Weak<IDML>> }
impl Rig {
    pub fn new(lay: Layout) -> Self {
        let scratch = Scratch::new();
        let mut paths = vec![];
        let mut devs = vec![];
        for i in 0..lay.disks {
            let p = scratch.0.join(format!("vdev.{i}"));
            let f = std::fs::File::create(&p).unwrap();
            f.set_len(lay.fsize).unwrap();
            devs.push(tokio_file::device(&p));
            paths.push(p);
        }
        Rig { scratch, lay, paths, devs, missing: vec![], keep: false, idml: Default::default() }
    }
    pub fn pool(&self) -> Pool {
        let l = &self.lay;
        let clusters = self.paths.chunks(l.disks / l.nclusters).map(|cp| {
            let mirrors = cp.chunks(l.m)
                .map(|mp| Mirror::create(mp, l.zone.map(|z| NonZeroU64::new(z).unwrap())).unwrap()).collect::<Vec<_>>();
            Cluster::create(bfffs_core::raid::create(l.cs.map(|c| NonZeroU64::new(c).unwrap()), l.k, l.f, mirrors))
        }).collect::<Vec<_>>();
        Pool::create("tp".to_string(), clusters)
    }
    pub fn format(&self, cachesize: usize) -> Database {
        let cache = Arc::new(Mutex::new(Cache::with_capacity(cachesize)));
        let ddml = Arc::new(DDML::create(self.pool(), cache.clone()));
        let idml = Arc::new(IDML::create(ddml, cache));
        *self.idml.lock().unwrap() = Arc::downgrade(&idml);
        Database::create(idml)
    }
    pub async fn import(&self, cachesize: usize, wbs: Option<usize>) -> bfffs_core::Result<Database> {
        if self.keep { return self.import_idml(cachesize, wbs).await }
        let mut m = Manager::default();
        m.cache_size(cachesize);
        if let Some(w) = wbs { m.writeback_size(w) }
        for (i, p) in self.paths.iter().enumerate() { if !self.missing.contains(&i) { m.taste(p).await?; } }
        m.import_by_name("tp").await
    }
    async fn import_idml(&self, cachesize: usize, wbs: Option<usize>) -> bfffs_core::Result<Database> {
        let mut m = bfffs_core::idml::Manager::default();
        for (i, p) in self.paths.iter().enumerate() { if !self.missing.contains(&i) { m.taste(p).await?; } }
        let uuid = m.importable_pools().iter().find(|x| x.0 == "tp").map(|x| x.1).ok_or(bfffs_core::Error::ENOENT)?;
        let cache = Arc::new(Mutex::new(Cache::with_capacity(cachesize)));
        let (idml, lr) = m.import(uuid, cache, wbs.unwrap_or(268_435_456)).await?;
        let idml = Arc::new(idml);
        *self.idml.lock().unwrap() = Arc::downgrade(&idml);
        Ok(Database::open(idml, lr))
    }
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}
/// Unwraps once all of the background tasks' references are gone
pub async fn close(db: Arc<Database>) {
    let mut db = db;
    for _ in 0..1000 {
        match Arc::try_unwrap(db) {
            Ok(d) => { d.shutdown().await; return }
            Err(d) => { db = d; tokio::task::yield_now().await }
        }
    }
    panic!("the database is still in use");
}

thread_local!{ static PANIC: std::cell::RefCell<String> = Default::default(); }
/// Says where, but not with all of some buffer's contents
pub fn quiet_panics() {
    let loud = std::env::var("VERIF_PANIC").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit_once("/repo/").map(|x| x.1).unwrap_or(l.file()), l.line())).unwrap_or_default();
        let m: String = m.chars().take(150).collect();
        if loud {
            eprintln!("PANIC {loc}: {m}");
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            for l in bt.lines().filter(|l| l.contains("/repo/bfffs") || l.contains("drv/src")).take(30) { eprintln!("   {}", l.trim()); }
        }
        PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_empty() { *p = format!("{loc}: {m}") } });
    }));
}
/// The first panic since this was last called
pub fn last_panic() -> String { PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }
