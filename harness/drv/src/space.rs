//! What becomes of the pool's space
use crate::{crash::*, fsd::*, rig::*};
use bfffs_core::{database::*, fs::*, fs_tree::ExtAttrNamespace, idml::IDML};
use futures::FutureExt;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio_file::Rec;
use std::{
    collections::{BTreeMap, BTreeSet, HashMap}, ffi::OsString, panic::AssertUnwindSafe, sync::Arc, time::SystemTime,
};

/// A tree as it's stored
pub struct Dump { limits: Value, height: u64, root: Value, nodes: HashMap<String, Value> }
impl Dump {
    pub fn parse(b: &[u8]) -> Dump {
        let mut it = serde_json::Deserializer::from_slice(b).into_iter::<Value>();
        let t = it.next().unwrap().unwrap();
        let mut nodes = HashMap::new();
        for x in it {
            for p in x.unwrap().as_array().unwrap() { nodes.insert(p[0].to_string(), p[1].clone()); }
        }
        Dump { limits: t["limits"].clone(), height: t["root"]["height"].as_u64().unwrap(), root: t["root"]["elem"].clone(), nodes }
    }
    /// Every node: (address or null, element in the parent, index of the parent, level, node)
    pub fn walk(&self) -> Vec<(Value, Value, usize, u64, Value)> {
        let mut out: Vec<(Value, Value, usize, u64, Value)> = vec![];
        let mut todo = vec![(self.root.clone(), 0, self.height)];
        while let Some((elem, par, lvl)) = todo.pop() {
            let p = &elem["ptr"];
            let (addr, node) = if let Some(a) = p.get("Addr") { (a.clone(), self.nodes.get(&a.to_string()).cloned().unwrap_or(Value::Null)) }
                else { (Value::Null, p["Mem"].clone()) };
            let me = out.len() + 1;
            if let Some(i) = node.get("Int") {
                for c in i["children"].as_array().unwrap().iter().rev() { todo.push((c.clone(), me, lvl.wrapping_sub(1))); }
            }
            out.push((addr, json!({"key":elem["key"],"txgs":elem["txgs"]}), par, lvl, node));
        }
        out
    }
    pub fn items(&self) -> Vec<(Value, Value)> {
        let mut v = vec![];
        for (_, _, _, _, n) in self.walk() {
            if let Some(l) = n.get("Leaf") { for x in l["items"].as_array().unwrap() { v.push((x[0].clone(), x[1].clone())); } }
        }
        v
    }
}
/// Keys as numbers
pub fn key(k: &Value) -> u128 {
    match k {
        Value::Number(n) => n.as_u64().unwrap() as u128,
        Value::String(s) => { let (o, t, f) = fskey(s); (o as u128) << 64 | (t as u128) << 56 | f as u128 }
        _ if k.get("lba").is_some() => (k["cluster"].as_u64().unwrap() as u128) << 64 | k["lba"].as_u64().unwrap() as u128,
        _ => (k["tree_id"].as_u64().unwrap() as u128) << 64 | k["offset"].as_u64().unwrap() as u128,
    }
}
fn fskey(s: &str) -> (u64, u64, u64) {
    let v: Vec<&str> = s.split('-').collect();
    (u64::from_str_radix(v[0], 16).unwrap(), v[1].parse().unwrap(), u64::from_str_radix(v[2], 16).unwrap())
}
fn drp(d: &Value) -> (u64, u64, u64) {
    (d["pba"]["cluster"].as_u64().unwrap(), d["pba"]["lba"].as_u64().unwrap(), d["csize"].as_u64().unwrap().div_ceil(4096))
}
fn small(n: u64) -> u64 { n.min(1 << 30) }
/// The tree's shape, with its keys' ranks
pub fn shape(name: &str, d: &Dump) -> Value {
    let w = d.walk();
    let mut ks: BTreeSet<u128> = BTreeSet::new();
    for (_, e, _, _, n) in &w {
        ks.insert(key(&e["key"]));
        if let Some(l) = n.get("Leaf") {
            let it = l["items"].as_array().unwrap();
            if let Some(x) = it.first() { ks.insert(key(&x[0])); }
            if let Some(x) = it.last() { ks.insert(key(&x[0])); }
        }
    }
    let rank: HashMap<u128, usize> = ks.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    let nodes: Vec<Value> = w.iter().map(|(a, e, par, lvl, n)| {
        let (ty, len, lo, hi) = if let Some(l) = n.get("Leaf") {
            let it = l["items"].as_array().unwrap();
            let mut sorted = true;
            for p in it.windows(2) { if key(&p[0][0]) >= key(&p[1][0]) { sorted = false } }
            (if sorted { "leaf" } else { "unsorted" }, it.len(), it.first().map_or(-1, |x| rank[&key(&x[0])] as i64), it.last().map_or(-1, |x| rank[&key(&x[0])] as i64))
        } else if let Some(i) = n.get("Int") {
            let c = i["children"].as_array().unwrap();
            ("int", c.len(), c.first().map_or(-1, |x| rank[&key(&x["key"])] as i64), c.last().map_or(-1, |x| rank[&key(&x["key"])] as i64))
        } else { ("lost", 0, -1, -1) };
        json!([par, lvl, ty, rank[&key(&e["key"])], len, lo, hi, e["txgs"]["start"], e["txgs"]["end"], !a.is_null()])
    }).collect();
    let l = &d.limits;
    json!({"e":"tree","tree":name,"height":d.height,"limits":[l["min_int_fanout"],l["max_int_fanout"],l["min_leaf_fanout"],l["max_leaf_fanout"]],"nodes":nodes})
}
fn xlen(b: &Value) -> u64 { b["buf"].as_array().map_or(0, |v| v.iter().map(|l| l.as_str().unwrap().split('|').nth(1).unwrap().len() as u64 / 2).sum()) }
/// A file system's contents
fn content(t: u64, why: &str, d: &Dump, open: &[u64], rids: &mut Vec<u64>) -> Value {
    let (mut inos, mut ents, mut xt, mut xa, mut dying, mut bad) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let mut xattr = |o: u64, h: u64, v: &Value, rids: &mut Vec<u64>| {
        let mut f = |x: &Value, k: &str, len: u64| xa.push(json!([o, x["namespace"], x["name"].to_string(), small(len), k]));
        if let Some(x) = v.get("Inline") { f(x, "inline", xlen(&x["extent"])); }
        else { let x = &v["Blob"]; rids.push(x["extent"]["rid"].as_u64().unwrap()); f(x, "blob", x["extent"]["lsize"].as_u64().unwrap()); }
    };
    for (k, v) in d.items() {
        let (o, ty, off) = fskey(k.as_str().unwrap());
        let Some((var, x)) = v.as_object().and_then(|m| m.iter().next()) else { bad.push(json!(k)); continue };
        match (ty, var.as_str()) {
            (0, "DirEntry") => ents.push(json!([o, x["name"], x["ino"], x["dtype"]])),
            (0, "DirEntries") => for x in x.as_array().unwrap() { ents.push(json!([o, x["name"], x["ino"], x["dtype"]])) },
            (1, "Inode") if off == 0 => {
                let ft = &x["file_type"];
                let (ft, rs) = if let Some(s) = ft.as_str() { (s.to_string(), 0) } else {
                    let (a, b) = ft.as_object().unwrap().iter().next().unwrap();
                    (a.clone(), if a == "Reg" { 1u64 << b.as_u64().unwrap() } else { 0 })
                };
                inos.push(json!([o, ft, small(x["nlink"].as_u64().unwrap()), small(x["size"].as_u64().unwrap()), small(x["bytes"].as_u64().unwrap()), rs]));
            }
            (2, "InlineExtent") => xt.push(json!([o, small(off), small(xlen(x)), "inline"])),
            (2, "BlobExtent") => { rids.push(x["rid"].as_u64().unwrap()); xt.push(json!([o, small(off), small(x["lsize"].as_u64().unwrap()), "blob"])) }
            (3, "ExtAttr") => xattr(o, off, x, rids),
            (3, "ExtAttrs") => for x in x.as_array().unwrap() { xattr(o, off, x, rids) },
            (4, "Property") if o == 0 => {}
            (5, "DyingInode") if o == 0 => dying.push(u64::from_str_radix(x.as_str().unwrap(), 16).unwrap()),
            _ => bad.push(json!(k)),
        }
    }
    json!({"e":"fs","tree":t,"why":why,"inos":inos,"ents":ents,"xt":xt,"xa":xa,"dying":dying,"bad":bad,"open":open})
}
/// The states of the cluster's zones
fn zones(text: &str) -> Vec<String> {
    let mut it = text.lines();
    let total: usize = it.next().unwrap().strip_prefix("FreeSpaceMap: ").unwrap().split(' ').next().unwrap().parse().unwrap();
    let mut v: Vec<String> = vec![];
    let mut last = String::new();
    for l in it.skip(2) {
        let c: Vec<&str> = l.split('|').collect();
        let z = usize::from_str_radix(c[0].trim(), 16).unwrap();
        while v.len() < z { v.push(last.clone()); }
        last = c[1].trim().to_string();
        v.push(last.clone());
    }
    while v.len() < total { v.push(last.clone()); }
    v
}

/// All there is to know of a pool that has just been synced.  `open` are the inodes of file system `top` that are open.
async fn look(db: &Arc<Database>, idml: &Arc<IDML>, top: TreeID, open: &[u64], why: &str) -> bfffs_core::Result<Vec<Value>> {
    let mut rows = vec![];
    let mut b = vec![];
    db.dump_ridt(&mut b).await?;
    let ridt = Dump::parse(&b);
    b.clear();
    db.dump_alloct(&mut b).await?;
    let alloct = Dump::parse(&b);
    b.clear();
    db.dump_forest(&mut b).await?;
    let forest = Dump::parse(&b);
    let mut refs: Vec<u64> = vec![];
    let mut mem = 0;
    let mut ids = vec![];
    let mut tents = vec![];
    for (a, _, _, _, _) in forest.walk() { if let Some(a) = a.as_u64() { refs.push(a) } else { mem += 1 } }
    for (k, v) in forest.items() {
        let t = k["tree_id"].as_u64().unwrap();
        if let Some(x) = v.get("Tree") { ids.push(json!([t, x["parent"].as_u64().map_or(-1, |x| x as i64)])); }
        else { let x = &v["TreeEnt"]; tents.push(json!([t, x["tree_id"], x["name"]])); }
    }
    rows.push(shape("ridt", &ridt));
    rows.push(shape("alloct", &alloct));
    rows.push(shape("forest", &forest));
    for x in &ids {
        let t = x[0].as_u64().unwrap();
        let id = TreeID(t);
        b.clear();
        db.dump_fs(&mut b, id).await?;
        let fst = Dump::parse(&b);
        for (a, _, _, _, _) in fst.walk() { if let Some(a) = a.as_u64() { refs.push(a) } else { mem += 1 } }
        rows.push(shape(&format!("fs{t}"), &fst));
        rows.push(content(t, why, &fst, if id == top { open } else { &[] }, &mut refs));
    }
    let mut exts = vec![];
    let mut dn = vec![];
    for (name, t) in [("ridt", &ridt), ("alloct", &alloct)] {
        for (a, e, par, lvl, _) in t.walk() {
            if a.is_null() { mem += 1; continue }
            let (c, l, n) = drp(&a);
            exts.push((c, l, n, -1));
            // A root that is a leaf may have had an older child merged into it
            let lvl = if par == 0 { lvl.max(2) } else { lvl };
            dn.push(json!([c, l, n, name, lvl, e["txgs"]["start"], e["txgs"]["end"]]));
        }
    }
    let mut recs = vec![];
    for (k, v) in ridt.items() {
        let (c, l, n) = drp(&v["drp"]);
        exts.push((c, l, n, k.as_i64().unwrap()));
        let x = &v["drp"];
        let ck = x["checksum"].as_u64().unwrap();
        recs.push(json!([k, c, l, n, v["refcount"], x["lsize"], x["csize"], x["compressed"], (ck ^ ck >> 32) & 0x3fff_ffff]));
    }
    let allc: Vec<Value> = alloct.items().iter().map(|(k, v)| json!([k["cluster"], k["lba"], v])).collect();
    exts.sort();
    let states: Vec<Vec<String>> = db.dump_fsm().await.iter().map(|t| zones(t)).collect();
    let closed: Vec<Value> = idml.list_closed_zones().await
        .map(|z| json!([z.pba.cluster, z.zid, z.pba.lba, z.total_blocks, z.freed_blocks, z.txgs.start.0, z.txgs.end.0])).collect();
    let st = db.stat().await;
    rows.push(json!({"e":"snap","why":why,"used":small(st.used),"size":small(st.size),"states":states,"closed":closed,
        "exts":exts.iter().map(|x| json!([x.0, x.1, x.2, x.3])).collect::<Vec<_>>(),
        "recs":recs,"dn":dn,"allc":allc,"refs":refs,"mem":mem,"trees":ids,"tents":tents}));
    Ok(rows)
}

/// The names of the rows that are wanted; what else the driver recorded only says what went wrong
fn keep(rows: Vec<Value>, d: &mut Drv) {
    for x in rows {
        match x["e"].as_str().unwrap() {
            "tree" | "fs" | "snap" | "bad" | "new" | "crash" => d.out.ev(x),
            "remount" if x["r"] != "ok" || x["check"] != "true" => d.out.ev(json!({"e":"bad","what":format!("remount: {} {}", x["r"], x["check"])})),
            "remount" => d.out.ev(json!({"e":"remount"})),
            e if x["r"] == "PANIC" => d.out.ev(json!({"e":"bad","what":format!("{e}: {}", x["panic"])})),
            _ => {}
        }
    }
}
/// What is found after a power failure, and after what was being deleted then has been
fn found(lay: Layout, js: Vec<Vec<Rec>>, t: u64, how: u8, seed: u64, tree: TreeID) -> Vec<Value> {
    std::thread::spawn(move || {
        let _ = last_panic();
        let rt = runtime();
        let r = rt.block_on(AssertUnwindSafe(async {
            let mut rng = StdRng::seed_from_u64(seed);
            let mut rig = Rig::new(lay.clone());
            rig.keep = true;
            for (i, j) in js.iter().enumerate() { save(&image(j, t, how, &mut rng, &Blocks::new()), &rig.paths[i], lay.fsize); }
            let mut rows = vec![json!({"e":"crash"})];
            let db = match rig.import(16_000_000, None).await {
                Ok(d) => Arc::new(d),
                Err(e) => return vec![json!({"e":"bad","what":format!("import: {}", ename(i32::from(e)))})],
            };
            let idml: Arc<IDML> = rig.idml.lock().unwrap().upgrade().unwrap();
            match look(&db, &idml, tree, &[], "found").await { Ok(r) => rows.extend(r), Err(e) => rows.push(json!({"e":"bad","what":ename(e.into())})) }
            let fs = Fs::new(db.clone(), tree).await;
            fs.sync().await;
            match look(&db, &idml, tree, &[], "after").await { Ok(r) => rows.extend(r), Err(e) => rows.push(json!({"e":"bad","what":ename(e.into())})) }
            rows
        }).catch_unwind());
        r.unwrap_or_else(|_| vec![json!({"e":"bad","what":format!("after a power failure: {}", last_panic())})])
    }).join().unwrap_or_else(|_| vec![json!({"e":"bad","what":"after a power failure"})])
}

struct Sp { scale: u64, d: Drv, r: StdRng, subs: Vec<(TreeID, String)>, n: usize }
impl Sp {
    /// Records all there is to know of a pool that has just been synced
    async fn snap(&mut self, why: &str) {
        let db = self.d.db.clone().unwrap();
        let idml: Arc<IDML> = self.d.rig.idml.lock().unwrap().upgrade().unwrap();
        let open: Vec<u64> = self.d.open.iter().copied().collect();
        match AssertUnwindSafe(look(&db, &idml, self.d.tree, &open, why)).catch_unwind().await {
            Ok(Ok(rows)) => for x in rows { self.d.ev(x); },
            Ok(Err(e)) => { self.d.ev(json!({"e":"bad","what":ename(e.into())})); self.d.dead = true }
            Err(_) => { self.d.ev(json!({"e":"bad","what":last_panic()})); self.d.dead = true }
        }
    }
    async fn sync_snap(&mut self, why: &str) {
        if self.d.dead { return }
        self.d.sync().await;
        if !self.d.dead { self.snap(why).await }
    }
    async fn clean(&mut self) {
        self.sync_snap("before").await;
        if self.d.dead { return }
        let db = self.d.db.clone().unwrap();
        let r = AssertUnwindSafe(async { db.clean().await }).catch_unwind().await;
        drop(db);
        match r {
            Ok(Ok(())) => {}
            _ => { self.d.ev(json!({"e":"bad","what":format!("clean: {}", last_panic())})); self.d.dead = true; return }
        }
        self.sync_snap("cleaned").await;
    }
    async fn dataset(&mut self) {
        let db = self.d.db.clone().unwrap();
        let top = self.d.tree;
        if !self.subs.is_empty() && self.r.gen_bool(0.2) {
            // What fails mustn't leave anything behind
            let n = self.subs[self.r.gen_range(0..self.subs.len())].1.clone();
            if db.create_fs(Some(top), n).await.is_ok() { self.d.ev(json!({"e":"bad","what":"created twice"})) }
        } else if !self.subs.is_empty() && self.r.gen_bool(0.5) {
            let k = self.r.gen_range(0..self.subs.len());
            let (id, n) = self.subs.swap_remove(k);
            if let Err(e) = db.destroy_fs(Some(top), id, &n).await { self.d.ev(json!({"e":"bad","what":format!("destroy: {}", ename(e.into()))})) }
        } else {
            self.n += 1;
            let n = format!("sub{}", self.n);
            let id = db.create_fs(Some(top), n.clone()).await.unwrap();
            let fs = Fs::new(db.clone(), id).await;
            let root = fs.root().handle();
            for k in 0..self.r.gen_range(0..4) {
                let fd = fs.create(&root, &os(&format!("a{k}")), 0o644, 0, 0).await.unwrap();
                let h = fd.handle();
                for j in 0..self.r.gen_range(0..4u64) { fs.write(&h, j * 4096 * self.r.gen_range(1..50), &vec![j as u8 + 1; 4096 * 2][..], 0).await.unwrap(); }
                if self.r.gen_bool(0.3) { fs.setextattr(&h, ExtAttrNamespace::User, &os("big"), &vec![7; 5000][..]).await.unwrap(); }
                fs.inactive(fd).await;
            }
            self.subs.push((id, n));
        }
    }
    /// Many keys, for trees with many nodes
    async fn many(&mut self) {
        let Some(i) = self.d.pick_file() else { return };
        let h = self.d.h(i);
        let n = self.r.gen_range(200..4000) * self.scale.min(2);
        let k0 = self.r.gen_range(0..2) * 1000;
        let del = self.r.gen_bool(0.4);
        let step = self.r.gen_range(1..4);
        let fs = self.d.fs.take().unwrap();
        let r = AssertUnwindSafe(async {
            for k in (k0..k0 + n).step_by(step) {
                let nm = os(&format!("m{k}"));
                let _ = if del { fs.deleteextattr(&h, ExtAttrNamespace::System, &nm).await }
                    else { fs.setextattr(&h, ExtAttrNamespace::System, &nm, &b"x"[..]).await };
            }
        }).catch_unwind().await;
        self.d.fs = Some(fs);
        if r.is_err() { self.d.ev(json!({"e":"bad","what":last_panic()})); self.d.dead = true }
    }
    /// A file of many records, most of which soon go again
    async fn bulk(&mut self) {
        let n = format!("bulk{}", self.r.gen_range(0..4));
        if !self.d.nodes[&1].kids.contains_key(&n) { self.d.create_at("reg", 1, n.clone()).await; }
        if self.d.dead { return }
        let i = self.d.nodes[&1].kids[&n];
        if self.d.nodes[&i].ty != "reg" { return }
        let k = self.r.gen_range(1..100u64) * self.scale;
        let o = self.r.gen_range(0..40 * self.scale) << 12;
        self.d.write_at(i, o, k << 12).await;
    }
    /// Writes a good deal more than the pool holds
    async fn churn(&mut self) {
        let cap = self.d.rig.lay.fsize / 4096;
        let mut done = 0;
        let mut round = 0;
        while done < 3 * cap && !self.d.dead {
            let n = format!("bulk{}", round % 3);
            if !self.d.nodes[&1].kids.contains_key(&n) { self.d.create_at("reg", 1, n.clone()).await; }
            if self.d.dead { return }
            let i = self.d.nodes[&1].kids[&n];
            let k = self.r.gen_range(20..60u64);
            self.d.write_at(i, self.r.gen_range(0..60) << 12, k << 12).await;
            done += k;
            round += 1;
            if self.d.dead { return }
            if round % 2 == 0 { self.d.sync().await }
            if round % 8 == 0 { self.clean().await }
        }
    }
    async fn empty(&mut self) {
        for _ in 0..50 {
            if self.d.dead { return }
            for i in self.d.held.keys().copied().collect::<Vec<_>>() { 
                let _ = i;
                self.d.forget().await;
                if self.d.dead { return }
            }
            let mut all = vec![];
            for (i, n) in &self.d.nodes { if n.ty == "dir" { for (k, c) in &n.kids { all.push((*i, k.clone(), self.d.nodes[c].ty == "dir" && !self.d.nodes[c].kids.is_empty(), self.d.nodes[c].ty == "dir")); } } }
            if all.is_empty() { break }
            for (p, n, full, dir) in all {
                if full || self.d.dead { continue }
                if dir { self.d.rmdir_at(p, n).await } else { self.d.unlink_at(p, n).await }
            }
        }
        while !self.d.held.is_empty() && !self.d.dead { self.d.forget().await; }
        if self.d.dead { return }
        let db = self.d.db.clone().unwrap();
        let top = self.d.tree;
        for (id, n) in std::mem::take(&mut self.subs) { let _ = db.destroy_fs(Some(top), id, &n).await; }
        drop(db);
        self.sync_snap("empty").await;
    }
}
pub fn run(path: &str, seed: u64, scale: usize) {
    let base = SystemTime::now();
    let mut out = Some(Out::new(path));
    for ep in 0..scale {
        let rt = runtime();
        let only = std::env::var("VERIF_EP").ok().map(|x| x.parse::<usize>().unwrap());
        if only.is_some_and(|x| x != ep) { continue }
        rt.block_on(async {
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let ls = layouts();
            let mut lay = ls[ep % ls.len()].clone();
            lay.zone = Some([32, 64, 256][r.gen_range(0..3)]);
            let huge = ep % 10 == 7;
            let churn = ep % 10 == 4;
            if huge { lay.zone = Some(256); lay.fsize = 128 << 20; }
            if churn { lay.zone = Some([32, 64][r.gen_range(0..2)]); lay.fsize = 6 << 20; }
            let mut d = Drv::kept(out.take().unwrap(), seed * 7919 + ep as u64, lay, 12, r.gen_bool(0.2), 16_000_000, base, !huge && !churn).await;
            d.max_off = 6 << 12;
            let mut s = Sp { scale: if huge { 8 } else { 1 }, d, r, subs: vec![], n: 0 };
            let bulk = s.r.gen_range(0.0..0.15);
            let many = if s.r.gen_bool(0.25) { 0.02 } else { 0.0 };
            s.d.out.hold();
            s.sync_snap("new").await;
            let t0 = tokio_file::now();
            for _ in 0..150 {
                if s.d.dead { break }
                let x: f64 = s.r.gen();
                if x < 0.05 { s.sync_snap("sync").await }
                else if x < 0.07 { s.clean().await }
                else if x < 0.09 { s.dataset().await }
                else if x < 0.09 + bulk { s.bulk().await }
                else if x < 0.09 + bulk + many { s.many().await }
                else { s.d.step("crash").await }
            }
            if churn && !s.d.dead { s.churn().await }
            s.clean().await;
            if !s.d.dead { s.empty().await }
            s.clean().await;
            if !s.d.dead && s.r.gen_bool(0.5) { s.d.remount().await; s.sync_snap("empty").await }
            if !s.d.dead && !huge && !churn {
                for _ in 0..4 {
                    let js: Vec<Vec<Rec>> = s.d.rig.devs.iter().map(|x| x.st.lock().unwrap().journal.clone()).collect();
                    let t = s.r.gen_range(t0..=tokio_file::now());
                    for x in found(s.d.rig.lay.clone(), js, t, s.r.gen_range(0..4), s.r.gen(), s.d.tree) { s.d.ev(x); }
                }
            }
            let rows = s.d.out.unhold();
            keep(rows, &mut s.d);
            let Drv { out: o, fs, db, .. } = s.d;
            out = Some(o);
            drop(fs);
        });
        drop(rt);
        tokio_file::clear();
    }
}
