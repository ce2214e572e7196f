//! Datasets: their hierarchy and properties, as the Controller shows them
use crate::{crash::layouts, fsd::*, rig::*, space::Dump};
use bfffs_core::{cache::Cache, controller::*, database::Database, fs::*, property::{Property, PropertyName, PropertySource}};
use futures::{FutureExt, StreamExt};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell}, collections::BTreeMap, ffi::OsStr, panic::AssertUnwindSafe, rc::Rc, sync::Arc, time::Duration,
};

struct Ep { c: RefCell<Arc<Controller>>, rows: RefCell<Vec<Value>>, op: Cell<u64>, dead: Cell<bool>,
    /// By who mounted it, and its name
    up: RefCell<BTreeMap<(usize, String), Arc<Fs>>> }
fn comps(n: &str) -> Vec<&str> { n.split('/').collect() }
fn err(e: bfffs_core::Error) -> Value { json!({"r": ename(e.into())}) }
impl Ep {
    fn row(&self, v: Value) { if !self.dead.get() { self.rows.borrow_mut().push(v) } }
    fn bad(&self, t: String) { self.row(json!({"e":"bad","what":t})); self.dead.set(true); }
    async fn op(&self, what: Value, f: impl std::future::Future<Output = bfffs_core::Result<Value>>) -> String {
        let id = self.op.get();
        self.op.set(id + 1);
        let at = self.rows.borrow().len();
        let mut r = what;
        r["e"] = json!("inv");
        r["id"] = json!(id);
        self.row(r);
        match tokio::time::timeout(Duration::from_secs(100_000), AssertUnwindSafe(f).catch_unwind()).await {
            Err(_) => { self.bad("stuck".into()); "bad".into() }
            Ok(Ok(x)) => {
                let v = match x { Ok(v) => v, Err(e) => err(e) };
                let r = v["r"].as_str().unwrap().to_string();
                if !self.dead.get() { for (k, x) in v.as_object().unwrap() { self.rows.borrow_mut()[at][k] = x.clone() } }
                self.row(json!({"e":"ret","id":id}));
                r
            }
            Ok(Err(_)) => { self.bad(format!("PANIC {}", last_panic())); "bad".into() }
        }
    }
    async fn create(&self, n: &str) {
        let c = self.c.borrow().clone();
        self.op(json!({"op":"create","n":comps(n)}), async { let t = c.create_fs(n).await?; Ok(json!({"r":"ok","tid":tid(t)})) }).await;
    }
    async fn destroy(&self, n: &str) {
        let c = self.c.borrow().clone();
        self.op(json!({"op":"destroy","n":comps(n)}), async { c.destroy_fs(n).await?; Ok(json!({"r":"ok"})) }).await;
    }
    async fn mount(&self, who: usize, n: &str) {
        let c = self.c.borrow().clone();
        let got = Rc::new(RefCell::new(None));
        let g2 = got.clone();
        self.op(json!({"op":"mount","n":comps(n)}), async move { *g2.borrow_mut() = Some(c.new_fs(n).await?); Ok(json!({"r":"ok"})) }).await;
        let f = got.borrow_mut().take();
        if let Some(f) = f { self.up.borrow_mut().insert((who, n.to_string()), f); }
    }
    /// The kernel has let go of it
    async fn umount(&self, who: usize, n: &str) {
        let Some(f) = self.up.borrow_mut().remove(&(who, n.to_string())) else { return };
        self.op(json!({"op":"umount","n":comps(n)}), async { drop(f); Ok(json!({"r":"ok"})) }).await;
    }
    async fn set(&self, n: &str, p: Property) {
        let c = self.c.borrow().clone();
        let (k, v) = show(&p);
        let abs = v.starts_with('/');
        self.op(json!({"op":"set","n":comps(n),"k":k,"v":v,"abs":abs}), async { c.set_prop(n, p).await?; Ok(json!({"r":"ok"})) }).await;
    }
    async fn get(&self, n: &str, k: PropertyName) {
        let c = self.c.borrow().clone();
        self.op(json!({"op":"get","n":comps(n),"k":k.to_string()}), async {
            let (p, s) = c.get_prop(n.to_string(), k).await?;
            let s = match s { PropertySource::None => -2, PropertySource::Default => -1, PropertySource::Set(i) => i as i32 };
            Ok(json!({"r":"ok","v":show(&p).1,"src":s}))
        }).await;
    }
    async fn list(&self, n: &str, r: &mut StdRng) {
        let c = self.c.borrow().clone();
        let cut = [0, 1, 2, 5][r.gen_range(0..4)];
        self.op(json!({"op":"list","n":comps(n),"cut":cut}), async {
            let mut out = vec![];
            let mut offs = None;
            // Perhaps in several parts
            loop {
                let mut s = Box::pin(c.list_fs(n, offs));
                let mut k = 0;
                let mut more = false;
                while let Some(d) = s.next().await {
                    let d = match d { Ok(d) => d, Err(e) => {
                        // Nothing comes after an error
                        if s.next().await.is_some() { return Ok(json!({"r":"goes on"})) }
                        return Err(e)
                    }};
                    offs = Some(d.offs);
                    out.push(json!([format!("/{}", d.name), tid(d.id)]));
                    k += 1;
                    if k == cut { more = true; break }
                }
                if !more { break }
            }
            Ok(json!({"r":"ok","c":out}))
        }).await;
    }
    async fn touch(&self, who: usize, n: &str, k: &str) {
        let Some(f) = self.up.borrow().get(&(who, n.to_string())).cloned() else { return };
        let h = f.root().handle();
        self.op(json!({"op":"touch","n":comps(n),"k":k}), async {
            match f.lookup(None, &h, OsStr::new(k)).await {
                Ok(x) => f.inactive(x).await,
                Err(_) => { let x = f.create(&h, OsStr::new(k), 0o644, 0, 0).await.unwrap(); f.inactive(x).await; }
            }
            Ok(json!({"r":"ok"}))
        }).await;
    }
    async fn files(&self, who: usize, n: &str) {
        let Some(f) = self.up.borrow().get(&(who, n.to_string())).cloned() else { return };
        self.op(json!({"op":"files","n":comps(n)}), async {
            let mut m = vec![];
            let h = f.root().handle();
            let mut st = Box::pin(f.readdir(&h, 0));
            while let Some(d) = st.next().await {
                let d = d.map_err(|_| bfffs_core::Error::EIO)?;
                let nm: Vec<u8> = d.d_name[..d.d_namlen as usize].iter().map(|x| *x as u8).collect();
                let nm = String::from_utf8(nm).unwrap();
                if nm != "." && nm != ".." { m.push(nm) }
            }
            Ok(json!({"r":"ok","c":m}))
        }).await;
    }
    /// With nothing else under way
    async fn look(&self, r: &mut StdRng, names: &[String]) {
        let mut b = vec![];
        let c = self.c.borrow().clone();
        c.dump_forest(&mut b).await.unwrap();
        // The entries that aren't of names
        let ids: Vec<Value> = Dump::parse(&b).items().into_iter().filter(|x| x.0["offset"] == 0).map(|x| x.0["tree_id"].clone()).collect();
        self.row(json!({"e":"trees","ids":ids}));
        for n in names {
            if r.gen_bool(0.5) { self.list(n, r).await }
            for k in [PropertyName::Atime, PropertyName::RecordSize, PropertyName::Mountpoint, PropertyName::Name] {
                if r.gen_bool(0.3) { self.get(n, k).await }
            }
            for w in 0..5 { if r.gen_bool(0.5) { self.files(w, n).await } }
        }
    }
    async fn step(&self, who: usize, r: &mut StdRng, names: &[String], mix: &[u32; 8], conc: bool) {
        let n = names.choose(r).unwrap();
        let mut x = r.gen_range(0..mix.iter().sum::<u32>());
        let mut kind = 0;
        while x >= mix[kind] { x -= mix[kind]; kind += 1; }
        match kind {
            0 => self.create(n).await,
            1 => self.destroy(n).await,
            2 => self.mount(who, n).await,
            3 => self.umount(who, n).await,
            4 => {
                let p = match r.gen_range(0..4) {
                    0 => Property::Atime(r.gen()),
                    1 => Property::RecordSize(r.gen_range(12..18)),
                    _ => {
                        // Other properties of mounted file systems can't be changed yet
                        if conc || self.up.borrow().keys().any(|k| k.1.trim_end_matches('/') == n.trim_end_matches('/')) { Property::Atime(r.gen()) }
                        else { Property::mountpoint(["/mnt", "/x/y", "relative", "/mnt/z", ""][r.gen_range(0..5)]) }
                    }
                };
                self.set(n, p).await
            }
            5 => self.get(n, [PropertyName::Atime, PropertyName::RecordSize, PropertyName::Mountpoint, PropertyName::Name][r.gen_range(0..4)]).await,
            6 => if !conc { self.list(n, r).await } else { self.get(n, PropertyName::Atime).await },
            _ => if r.gen_bool(0.5) { self.touch(who, n, ["a", "b", "c"][r.gen_range(0..3)]).await } else { self.files(who, n).await },
        }
    }
}
fn show(p: &Property) -> (String, String) {
    match p {
        Property::Atime(b) => ("atime".into(), (*b as u8).to_string()),
        Property::RecordSize(i) => ("recordsize".into(), i.to_string()),
        Property::BaseMountpoint(s) | Property::Mountpoint(s) => ("mountpoint".into(), s.to_string()),
        Property::Name(s) => ("name".into(), format!("/{s}")),
        _ => ("?".into(), format!("{p:?}")),
    }
}
fn tid(t: TreeID) -> u64 { t.0 }

/// Names of all kinds, mostly good
fn pool_names(r: &mut StdRng) -> Vec<String> {
    let cs = ["a", "b", "c", "tp", "é x"];
    let k = r.gen_range(1..4);
    let mut v = vec!["tp".to_string()];
    for a in &cs[..k] {
        v.push(format!("tp/{a}"));
        for b in &cs[..k] {
            v.push(format!("tp/{a}/{b}"));
            if r.gen_bool(0.3) { v.push(format!("tp/{a}/{b}/{a}")) }
        }
    }
    if r.gen_bool(0.6) {
        let odd = ["tp2", "tpa", "tpa/b", "tp2/a", "a", "", "/tp", "t", "Tp/a", "tp/", "tp//a", "tp/a/", "tp/a//b", "tp//", "tp/nil/a", "/"];
        for _ in 0..r.gen_range(1..6) { v.push(odd[r.gen_range(0..odd.len())].to_string()) }
    }
    v
}

async fn episode(seed: u64, r: &mut StdRng) -> Vec<Value> {
    let ls = layouts();
    let mut lay = if r.gen_bool(0.7) { Layout::single() } else { ls[r.gen_range(0..ls.len())].clone() };
    lay.zone = Some(256);
    let rig = Rig::new(lay);
    let d = [0, 2, 10, 40][r.gen_range(0..4)];
    for x in &rig.devs { let mut st = x.st.lock().unwrap(); st.rng ^= r.gen::<u64>() | 1; st.max_delay = d; }
    let cache = [300_000, 1_000_000, 16_000_000][r.gen_range(0..3)];
    let ep = Rc::new(Ep { c: RefCell::new(Arc::new(Controller::new(rig.format(cache)))), rows: Default::default(), op: Cell::new(1), dead: Cell::new(false), up: Default::default() });
    ep.row(json!({"e":"new","seed":seed}));
    let names = pool_names(r);
    if r.gen_bool(0.9) { ep.create("tp").await }
    for _ in 0..r.gen_range(1..6) {
        if ep.dead.get() { break }
        let mix = [[10, 3, 1, 1, 3, 5, 3, 0], [4, 4, 1, 1, 1, 1, 1, 1], [5, 1, 5, 3, 2, 2, 1, 8], [3, 1, 0, 0, 10, 20, 1, 0], [10, 10, 0, 0, 0, 0, 3, 0], [10, 10, 2, 2, 6, 6, 0, 0]][r.gen_range(0..6)];
        if r.gen_bool(0.5) {
            // Some that everything is below
            for n in &names { if r.gen_bool(0.3) { ep.create(n).await } }
        }
        if r.gen_bool(0.5) {
            for _ in 0..r.gen_range(3..30) {
                if ep.dead.get() { break }
                ep.step(0, r, &names, &mix, false).await
            }
        } else {
            let set = tokio::task::LocalSet::new();
            let mut hs = vec![];
            let tasks = r.gen_range(2..5);
            let few: Vec<String> = names.choose_multiple(r, 4).cloned().collect();
            // Whether what's needed has to be read
            let c = ep.c.borrow().clone();
            if r.gen_bool(0.6) { let _ = c.sync_transaction().await; c.drop_cache(); }
            let left = Rc::new(Cell::new(tasks));
            let total = r.gen_range(4..20);
            for w in 0..tasks {
                let (ep, left, few, mut q) = (ep.clone(), left.clone(), few.clone(), StdRng::seed_from_u64(r.gen()));
                hs.push(set.spawn_local(async move {
                    for _ in 0..total / tasks + 1 {
                        ep.step(w, &mut q, &few, &mix, true).await;
                        if q.gen_bool(0.3) { for _ in 0..q.gen_range(0..20) { tokio::task::yield_now().await } }
                        if ep.dead.get() { break }
                    }
                    left.set(left.get() - 1);
                }));
            }
            for kind in 0..2 {
                if r.gen_bool(0.5) { continue }
                let (c, left, ep, mut q) = (c.clone(), left.clone(), ep.clone(), StdRng::seed_from_u64(r.gen()));
                hs.push(set.spawn_local(async move {
                    for _ in 0..20 {
                        for _ in 0..q.gen_range(0..60) { tokio::task::yield_now().await }
                        if left.get() == 0 || ep.dead.get() { break }
                        if kind == 0 {
                            match AssertUnwindSafe(c.sync_transaction()).catch_unwind().await {
                                Ok(Ok(())) => (),
                                Ok(Err(e)) => ep.bad(format!("sync: {e:?}")),
                                Err(_) => ep.bad(format!("sync: PANIC {}", last_panic())),
                            }
                        } else { c.drop_cache() }
                    }
                }));
            }
            let w = set.run_until(async { tokio::time::timeout(Duration::from_secs(1_000_000), futures::future::join_all(hs)).await }).await;
            match w {
                Err(_) => ep.bad("stuck".into()),
                Ok(v) => if v.iter().any(|x| x.is_err()) { ep.bad(format!("PANIC {}", last_panic())) },
            }
        }
        if ep.dead.get() { break }
        ep.look(r, &names).await;
        if r.gen_bool(0.5) {
            let x = ep.c.borrow().sync_transaction().await;
            if let Err(e) = x { ep.bad(format!("sync: {e:?}")) }
        }
        if r.gen_bool(0.4) && !ep.dead.get() {
            ep.up.borrow_mut().clear();
            let x = ep.c.borrow().sync_transaction().await;
            let check = match x { Ok(()) => match ep.c.borrow().check().await { Ok(b) => b.to_string(), Err(e) => format!("{e:?}") }, Err(e) => format!("sync {e:?}") };
            // As if it crashed just then
            match rig.import(cache, None).await {
                Ok(db) => { *ep.c.borrow_mut() = Arc::new(Controller::new(db)); ep.row(json!({"e":"reopen","r":"ok","check":check})); }
                Err(e) => { ep.row(json!({"e":"reopen","r":ename(e.into()),"check":check})); ep.dead.set(true); break }
            }
            ep.look(r, &names).await;
        }
    }
    ep.up.borrow_mut().clear();
    let rows = ep.rows.borrow().clone();
    rows
}
pub fn run(path: &str, seed: u64, scale: usize) {
    let mut out = Out::new(path);
    let only: Option<usize> = std::env::var("VERIF_EP").ok().map(|x| x.parse().unwrap());
    for ep in (0..scale).filter(|e| only.is_none_or(|o| o == *e)) {
        let rt = runtime();
        rt.block_on(async {
            let _ = last_panic();
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let rows = match AssertUnwindSafe(episode(seed * 1000 + ep as u64, &mut r)).catch_unwind().await {
                Ok(v) => v,
                Err(_) => vec![json!({"e":"new"}), json!({"e":"bad","what":last_panic()})],
            };
            for v in rows { out.ev(v) }
        });
        drop(rt);
        tokio_file::clear();
    }
}
