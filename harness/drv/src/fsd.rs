//! Random histories of one file system, as a VFS would make them
use crate::rig::*;
use bfffs_core::{database::*, fs::*, property::Property, types::SGList};
use futures::{FutureExt, StreamExt, TryStreamExt};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet}, ffi::OsString, os::unix::ffi::{OsStrExt, OsStringExt}, panic::AssertUnwindSafe, sync::Arc,
    time::SystemTime,
};

pub fn g(p: u64) -> u8 { ((p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) & 0x7f) as u8 }
pub fn pattern(tag: u8, off: u64, len: usize) -> Vec<u8> { (0..len as u64).map(|i| tag + g(off + i)).collect() }
/// Decodes file contents into runs of [start, end, tag]
pub fn decode(off: u64, b: &[u8]) -> Vec<(u64, u64, i64)> {
    let mut r: Vec<(u64, u64, i64)> = vec![];
    for (i, x) in b.iter().enumerate() {
        if *x == 0 { continue }
        let p = off + i as u64;
        let t = *x as i64 - g(p) as i64;
        let t = if (1..=127).contains(&t) { t } else { -1 };
        match r.last_mut() {
            Some(l) if l.1 == p && l.2 == t => l.1 += 1,
            _ => r.push((p, p + 1, t)),
        }
        if r.len() > 200 { break }
    }
    r
}
pub fn ename(e: i32) -> String {
    match e {
        libc::ENOENT => "ENOENT", libc::ENOTEMPTY => "ENOTEMPTY", libc::EEXIST => "EEXIST", libc::EINVAL => "EINVAL",
        libc::ENXIO => "ENXIO", libc::ENOATTR => "ENOATTR", libc::ENOTDIR => "ENOTDIR", libc::EIO => "EIO",
        libc::EINTEGRITY => "EINTEGRITY", libc::ENOSPC => "ENOSPC", libc::EBUSY => "EBUSY",
        x => return format!("E{x}"),
    }.to_string()
}
pub fn attr_json(x: &GetAttr, rel: impl Fn(Timespec) -> i64) -> Value {
    let ty = match x.mode.file_type() {
        libc::S_IFREG => "reg", libc::S_IFDIR => "dir", libc::S_IFLNK => "lnk", libc::S_IFIFO => "fifo",
        libc::S_IFSOCK => "sock", libc::S_IFCHR => "chr", libc::S_IFBLK => "blk", _ => "?" };
    json!({"ino":x.ino,"ty":ty,"perm":x.mode.perm(),"uid":x.uid,"gid":x.gid,"nlink":x.nlink.min(1<<30),"size":x.size.min(1<<30),
        "bytes":x.bytes.min(1<<30),"rdev":x.rdev as u64,"blk":x.blksize,"flags":x.flags,
        "at":rel(x.atime),"mt":rel(x.mtime),"ct":rel(x.ctime),"bt":rel(x.birthtime)})
}
pub fn os(n: &str) -> OsString { OsString::from_vec(n.chars().map(|c| c as u32 as u8).collect()) }
/// Every name that the driver might use whose hash is the same as this one's
pub fn col(n: &str) -> Vec<String> {
    if n.starts_with('~') { (0..5).map(|i| format!("{}{i}", &n[..2])).collect() } else { vec![] }
}
pub fn sn(b: &[u8]) -> String { b.iter().map(|x| *x as char).collect() }

#[derive(Clone, Debug)]
pub struct Node { pub ty: &'static str, pub par: u64, pub kids: BTreeMap<String, u64>, pub links: BTreeSet<(u64, String)>, pub size: u64,
    pub xa: BTreeSet<String>, pub rs: u64 }
struct Session { id: u64, dir: u64, cookies: Vec<i64>, eof: bool }

pub struct Drv {
    pub out: Out, pub rng: StdRng, pub rig: Rig, pub db: Option<Arc<Database>>, pub fs: Option<Fs>, pub tree: TreeID,
    pub nodes: BTreeMap<u64, Node>, pub held: BTreeMap<u64, FileDataMut>, pub open: BTreeSet<u64>,
    sessions: Vec<Session>, sid: u64, base: SystemTime, rs_exp: u8, atime: bool, cachesize: usize, pub dead: bool, pub events: usize,
    pub big: bool, pub max_off: u64, kept: std::collections::VecDeque<(u64, Vec<u8>, SGList)>,
}
fn handle(par: Option<u64>, ino: u64) -> FileData { FileDataMut::new_for_tests(par, ino).handle() }

impl Drv {
    pub fn us(&self) -> i64 { SystemTime::now().duration_since(self.base).map(|d| d.as_micros() as i64).unwrap_or(-1) }
    fn ts(&self, us: i64) -> Timespec {
        let b = self.base.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as i64 + us * 1000;
        Timespec { sec: b.div_euclid(1_000_000_000), nsec: b.rem_euclid(1_000_000_000) as u32 }
    }
    fn rel(&self, t: Timespec) -> i64 {
        let b = self.base.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as i64;
        let x = (t.sec.saturating_mul(1_000_000_000)).saturating_add(t.nsec as i64).saturating_sub(b).div_euclid(1000);
        x.clamp(-2_000_000_000, 2_000_000_000)
    }
    pub async fn new(out: Out, seed: u64, lay: Layout, rs_exp: u8, atime: bool, cachesize: usize, base: SystemTime) -> Self {
        Self::make(out, seed, lay, rs_exp, atime, cachesize, base, 0).await
    }
    /// Its IDML can be examined
    pub async fn kept(out: Out, seed: u64, lay: Layout, rs_exp: u8, atime: bool, cachesize: usize, base: SystemTime, rec: bool) -> Self {
        Self::make(out, seed, lay, rs_exp, atime, cachesize, base, if rec { 3 } else { 2 }).await
    }
    /// With a journal of all the devices' writes
    pub async fn recorded(out: Out, seed: u64, lay: Layout, rs_exp: u8, atime: bool, cachesize: usize, base: SystemTime) -> Self {
        Self::make(out, seed, lay, rs_exp, atime, cachesize, base, 1).await
    }
    async fn make(out: Out, seed: u64, lay: Layout, rs_exp: u8, atime: bool, cachesize: usize, base: SystemTime, how: u8) -> Self {
        let rec = how & 1 == 1;
        let mut rig = Rig::new(lay);
        rig.keep = how & 2 == 2;
        for d in &rig.devs { let mut st = d.st.lock().unwrap(); st.rng ^= seed.wrapping_mul(77) | 1; st.record = rec; st.record_data = rec; }
        let db = Arc::new(rig.format(cachesize));
        let tree = db.create_fs(None, "").await.unwrap();
        let fs = Fs::new(db.clone(), tree).await;
        fs.set_prop(Property::RecordSize(rs_exp)).await.unwrap();
        fs.set_prop(Property::Atime(atime)).await.unwrap();
        let mut nodes = BTreeMap::new();
        nodes.insert(1, Node { ty: "dir", par: 1, kids: Default::default(), links: Default::default(), size: 0, xa: Default::default(), rs: 0 });
        let mut s = Drv { out, rng: StdRng::seed_from_u64(seed), rig, db: Some(db), fs: Some(fs), tree, nodes, held: Default::default(),
            open: Default::default(), sessions: vec![], sid: 0, base, rs_exp, atime, cachesize, dead: false, events: 0, big: false,
            max_off: 10 << rs_exp, kept: Default::default() };
        // A pool that was never synced need not survive
        if rec { s.fs().sync().await; }
        let t = s.us() + 1;
        let ra = s.fs().getattr(&handle(None, 1)).await.unwrap();
        s.ev(json!({"e":"new","rs":1u64<<rs_exp,"atime":atime,"t":t,"top":1,"crash":rec, "uid":ra.uid,"gid":ra.gid,"perm":ra.mode.perm()}));
        s
    }
    pub fn fs(&self) -> &Fs { self.fs.as_ref().unwrap() }
    pub fn ev(&mut self, v: Value) { self.events += 1; self.out.ev(v) }
    pub fn h(&self, ino: u64) -> FileData {
        let n = &self.nodes[&ino];
        handle(if n.ty == "dir" && ino != 1 { Some(n.par) } else { None }, ino)
    }
    pub fn dirs(&self) -> Vec<u64> { self.nodes.iter().filter(|(i, n)| n.ty == "dir" && !self.open.contains(i)).map(|(i, _)| *i).collect() }
    pub fn pick_dir(&mut self) -> u64 { let d = self.dirs(); *d.choose(&mut self.rng).unwrap() }
    pub fn pick_ino(&mut self, f: impl Fn(&Node) -> bool) -> Option<u64> {
        let v: Vec<u64> = self.nodes.iter().filter(|(_, n)| f(n)).map(|(i, _)| *i).collect();
        v.choose(&mut self.rng).copied()
    }
    pub fn pick_name(&mut self) -> String {
        let r = self.rng.gen_range(0..100);
        if self.big { return format!("n{}", self.rng.gen_range(0..400)) }
        if r < 45 { format!("f{}", self.rng.gen_range(0..8)) }
        else if r < 80 { format!("~a{}", self.rng.gen_range(0..5)) }
        else if r < 89 { format!("~b{}", self.rng.gen_range(0..3)) }
        else if r < 92 { [".h", "..x", "..."][self.rng.gen_range(0..3)].to_string() }
        else if r < 96 { "L".repeat(255) }
        else { sn(&[0xff, 0x80, b' ', 0x7f]) }
    }
    /// A name in that directory, more likely than not one that exists
    fn pick_kid(&mut self, d: u64) -> String {
        let k: Vec<String> = self.nodes[&d].kids.keys().cloned().collect();
        if !k.is_empty() && self.rng.gen_range(0..10) < 8 { k.choose(&mut self.rng).unwrap().clone() } else { self.pick_name() }
    }
    async fn run<R>(&mut self, f: impl std::future::Future<Output = R>) -> Result<(R, i64, i64), ()> {
        let t0 = self.us();
        match AssertUnwindSafe(f).catch_unwind().await {
            Ok(r) => { let t1 = self.us() + 1; Ok((r, t0, t1)) }
            Err(_) => { Err(()) }
        }
    }
    /// Records an operation
    pub fn op(&mut self, op: &str, mut v: Value, r: Result<Value, i32>, t: (i64, i64)) {
        let o = v.as_object_mut().unwrap();
        o.insert("e".into(), op.into());
        o.insert("t0".into(), t.0.into());
        o.insert("t1".into(), t.1.into());
        match r {
            Ok(Value::Object(m)) => { o.insert("r".into(), "ok".into()); for (k, x) in m { o.insert(k, x); } }
            Ok(_) => { o.insert("r".into(), "ok".into()); }
            Err(e) => { o.insert("r".into(), ename(e).into()); }
        }
        self.ev(v);
    }
    fn panicked(&mut self, op: &str, mut v: Value) {
        let o = v.as_object_mut().unwrap();
        o.insert("e".into(), op.into());
        o.insert("r".into(), "PANIC".into());
        o.insert("panic".into(), last_panic().into());
        o.insert("t0".into(), 0.into());
        o.insert("t1".into(), 0.into());
        self.ev(v);
        self.dead = true;
    }
}
/// Runs an Fs call, handling panics
macro_rules! call { ($s:ident, $op:expr, $args:expr, |$fs:ident| $body:expr) => {{
    let $fs = $s.fs.take().unwrap();
    let t0 = $s.us();
    let r = AssertUnwindSafe(async { $body }).catch_unwind().await;
    let t1 = $s.us() + 1;
    $s.fs = Some($fs);
    match r {
        Ok(r) => (r, (t0, t1)),
        Err(_) => { $s.panicked($op, $args); return }
    }
}} }

impl Drv {
    pub async fn create(&mut self, ty: &'static str) {
        let p = self.pick_dir();
        let n = self.pick_name();
        if self.nodes[&p].kids.contains_key(&n) { return }
        self.create_at(ty, p, n).await
    }
    pub async fn create_at(&mut self, ty: &'static str, p: u64, n: String) {
        let (perm, uid, gid) = ([0o644u16, 0o755, 0o7777, 0][self.rng.gen_range(0..4)], self.rng.gen_range(0..3) * 1000u32, self.rng.gen_range(0..2) * 5u32);
        let rdev = self.rng.gen_range(1..1000u64);
        let tgt = format!("t{}", self.rng.gen_range(0..1000));
        let a = json!({"p":p,"n":n,"col":col(&n),"ty":ty,"perm":perm,"uid":uid,"gid":gid,
            "rdev": if ty == "chr" || ty == "blk" { rdev } else { 0 }, "tgt": if ty == "lnk" { tgt.as_str() } else { "" },
            "rs": if ty == "reg" { 1u64 << self.rs_exp } else { 4096 }});
        let ph = self.h(p);
        let on = os(&n);
        let (r, t) = call!(self, "create", a, |fs| match ty {
            "reg" => fs.create(&ph, &on, perm, uid, gid).await,
            "dir" => fs.mkdir(&ph, &on, perm, uid, gid).await,
            "lnk" => fs.symlink(&ph, &on, perm, uid, gid, &os(&tgt)).await,
            "fifo" => fs.mkfifo(&ph, &on, perm, uid, gid).await,
            "sock" => fs.mksock(&ph, &on, perm, uid, gid).await,
            "chr" => fs.mkchar(&ph, &on, perm, uid, gid, rdev as _).await,
            _ => fs.mkblock(&ph, &on, perm, uid, gid, rdev as _).await,
        });
        let held = self.rng.gen_bool(0.5);
        let r = match r {
            Ok(fd) => {
                let ino = fd.ino();
                self.nodes.insert(ino, Node { ty, par: p, kids: Default::default(), links: [(p, n.clone())].into(), size: 0, xa: Default::default(),
                    rs: 1 << self.rs_exp });
                self.nodes.get_mut(&p).unwrap().kids.insert(n, ino);
                let par = fd.parent().unwrap_or(0);
                if held { self.held.insert(ino, fd); } else { self.fs().inactive(fd).await; }
                Ok(json!({"ino":ino,"par":par}))
            }
            Err(e) => Err(e),
        };
        self.op("create", a, r, t);
    }
    pub async fn lookup(&mut self) {
        let p = self.pick_dir();
        let n = match self.rng.gen_range(0..12) { 0 => ".".to_string(), 1 => "..".to_string(), _ => self.pick_kid(p) };
        if p == 1 && (n == "." || n == "..") { return }
        let a = json!({"p":p,"n":n});
        let ph = self.h(p);
        let gp = self.h(self.nodes[&p].par);
        let on = os(&n);
        let (r, t) = call!(self, "lookup", a, |fs| fs.lookup(Some(&gp), &ph, &on).await);
        let r = r.map(|fd| json!({"ino":fd.ino(),"par":fd.parent().unwrap_or(0)}));
        self.op("lookup", a, r, t);
    }
    pub async fn ilookup(&mut self) {
        let ino = if self.rng.gen_bool(0.2) { self.rng.gen_range(2..60) } else { self.pick_ino(|_| true).unwrap() };
        if ino == 1 { return }
        let a = json!({"i":ino});
        let (r, t) = call!(self, "ilookup", a, |fs| fs.ilookup(ino).await);
        let r = r.map(|fd| json!({"ino":fd.ino(),"par":fd.parent().unwrap_or(0)}));
        self.op("ilookup", a, r, t);
    }
    pub async fn link(&mut self) {
        let p = self.pick_dir();
        let n = self.pick_name();
        if self.nodes[&p].kids.contains_key(&n) { return }
        let Some(ino) = self.pick_ino(|n| n.ty != "dir" && !n.links.is_empty()) else { return };
        let a = json!({"p":p,"n":n,"i":ino,"col":col(&n)});
        let (ph, fh, on) = (self.h(p), self.h(ino), os(&n));
        let (r, t) = call!(self, "link", a, |fs| fs.link(&ph, &fh, &on).await);
        if r.is_ok() {
            self.nodes.get_mut(&p).unwrap().kids.insert(n.clone(), ino);
            self.nodes.get_mut(&ino).unwrap().links.insert((p, n));
        }
        self.op("link", a, r.map(|_| json!({})), t);
    }
    fn drop_link(&mut self, p: u64, n: &str, keep: bool) {
        let ino = self.nodes.get_mut(&p).unwrap().kids.remove(n).unwrap();
        let node = self.nodes.get_mut(&ino).unwrap();
        node.links.remove(&(p, n.to_string()));
        if node.links.is_empty() {
            if keep { self.open.insert(ino); } else { self.nodes.remove(&ino); self.held.remove(&ino); }
        }
    }
    pub async fn unlink(&mut self) {
        let p = self.pick_dir();
        let n = self.pick_kid(p);
        self.unlink_at(p, n).await
    }
    pub async fn unlink_at(&mut self, p: u64, n: String) {
        let ino = self.nodes[&p].kids.get(&n).copied();
        if ino.is_some_and(|i| self.nodes[&i].ty == "dir") { return }
        let held = ino.is_some_and(|i| self.held.contains_key(&i));
        let a = json!({"p":p,"n":n,"held":held,"col":col(&n)});
        let (ph, on) = (self.h(p), os(&n));
        let fh = if held { Some(self.h(ino.unwrap())) } else { None };
        let (r, t) = call!(self, "unlink", a, |fs| fs.unlink(&ph, fh.as_ref(), &on).await);
        if r.is_ok() && ino.is_some() { self.drop_link(p, &n, held); }
        self.op("unlink", a, r.map(|_| json!({})), t);
    }
    pub async fn forget(&mut self) {
        let v: Vec<u64> = self.held.keys().copied().collect();
        let Some(ino) = v.choose(&mut self.rng).copied() else { return };
        let fd = self.held.remove(&ino).unwrap();
        let a = json!({"i":ino});
        let (_, t) = call!(self, "forget", a, |fs| fs.inactive(fd).await);
        if self.open.remove(&ino) { self.nodes.remove(&ino); }
        self.op("forget", a, Ok(json!({})), t);
    }
    pub async fn hold(&mut self) {
        let p = self.pick_dir();
        let n = self.pick_kid(p);
        let Some(ino) = self.nodes[&p].kids.get(&n).copied() else { return };
        if self.held.contains_key(&ino) { return }
        let par = if self.nodes[&ino].ty == "dir" { Some(p) } else { None };
        self.held.insert(ino, FileDataMut::new_for_tests(par, ino));
    }
    pub async fn rmdir(&mut self) {
        let p = self.pick_dir();
        let n = self.pick_kid(p);
        self.rmdir_at(p, n).await
    }
    pub async fn rmdir_at(&mut self, p: u64, n: String) {
        let ino = self.nodes[&p].kids.get(&n).copied();
        if ino.is_some_and(|i| self.nodes[&i].ty != "dir") { return }
        let a = json!({"p":p,"n":n,"col":col(&n)});
        let (ph, on) = (self.h(p), os(&n));
        let (r, t) = call!(self, "rmdir", a, |fs| fs.rmdir(&ph, &on).await);
        if r.is_ok() && ino.is_some() {
            self.drop_link(p, &n, false);
            self.sessions.retain(|s| Some(s.dir) != ino);
        }
        self.op("rmdir", a, r.map(|_| json!({})), t);
    }
    fn is_under(&self, mut d: u64, anc: u64) -> bool {
        loop { if d == anc { return true } if d == 1 { return false } d = self.nodes[&d].par; }
    }
    pub async fn rename(&mut self) {
        let (p, q) = (self.pick_dir(), self.pick_dir());
        let q = if self.rng.gen_bool(0.3) { p } else { q };
        if self.rng.gen_ratio(1, 40) && p != 1 {
            let n = if self.rng.gen_bool(0.5) { "." } else { ".." };
            let a = json!({"p":p,"n":n,"q":q,"m":"zz","i":p,"col":[]});
            let (ph, qh) = (self.h(p), self.h(q));
            let (r, t) = call!(self, "rename", a, |fs| fs.rename(&ph, &ph, &os(n), &qh, None, &os("zz")).await);
            self.op("rename", a, r.map(|i| json!({"ino":i})), t);
            return
        }
        let n = self.pick_kid(p);
        let m = self.pick_kid(q);
        let Some(ino) = self.nodes[&p].kids.get(&n).copied() else { return };
        let dst = self.nodes[&q].kids.get(&m).copied();
        let isdir = self.nodes[&ino].ty == "dir";
        // What the VFS rules out
        if dst == Some(ino) || (isdir && self.is_under(q, ino)) { return }
        if let Some(d) = dst {
            if (self.nodes[&d].ty == "dir") != isdir { return }
            if self.is_under(p, d) && isdir { /* only if it is not empty */ }
        }
        let cols = [col(&n), col(&m)].concat();
        let a = json!({"p":p,"n":n,"q":q,"m":m,"i":ino,"col":cols});
        let (ph, fh, qh) = (self.h(p), self.h(ino), self.h(q));
        let (on, om) = (os(&n), os(&m));
        let (r, t) = call!(self, "rename", a, |fs| fs.rename(&ph, &fh, &on, &qh, dst, &om).await);
        if r.is_ok() {
            if let Some(d) = dst {
                self.drop_link(q, &m, false);
                if isdir { self.sessions.retain(|s| s.dir != d); }
            }
            self.nodes.get_mut(&p).unwrap().kids.remove(&n);
            self.nodes.get_mut(&q).unwrap().kids.insert(m.clone(), ino);
            let node = self.nodes.get_mut(&ino).unwrap();
            node.links.remove(&(p, n));
            node.links.insert((q, m));
            if isdir { node.par = q; }
            if let Some(fd) = self.held.get_mut(&ino) { fd.reparent(q); }
        }
        self.op("rename", a, r.map(|i| json!({"ino":i})), t);
    }
    pub async fn getattr(&mut self) { let i = self.pick_ino(|_| true).unwrap(); self.getattr_of(i).await }
    pub async fn getattr_of(&mut self, i: u64) {
        let a = json!({"i":i});
        let fh = self.h(i);
        let (r, t) = call!(self, "getattr", a, |fs| fs.getattr(&fh).await);
        let r = r.map(|x| attr_json(&x, |t| self.rel(t)));
        self.op("getattr", a, r, t);
    }
    fn pick_off(&mut self, size: u64, rs: u64) -> u64 {
        let m = self.max_off;
        let x = match self.rng.gen_range(0..6) {
            0 => 0, 1 => size, 2 => self.rng.gen_range(0..=(m / rs)) * rs,
            3 => (self.rng.gen_range(0..=(m / rs)) * rs + self.rng.gen_range(0..5)).saturating_sub(2),
            _ => self.rng.gen_range(0..=m) };
        x.min(m)
    }
    fn pick_len(&mut self, off: u64, size: u64, rs: u64) -> u64 {
        match self.rng.gen_range(0..8) {
            0 => 1, 1 => rs, 2 => size.saturating_sub(off), 3 => rs - off % rs, 4 => self.rng.gen_range(0..=rs),
            5 => self.rng.gen_range(1..4) * rs, 6 => (2 * rs - off % rs).saturating_sub(self.rng.gen_range(0..3)),
            _ => self.rng.gen_range(0..=3 * rs) }
    }
    pub fn pick_file(&mut self) -> Option<u64> { self.pick_ino(|n| n.ty == "reg") }
    pub async fn setattr(&mut self, trunc: bool) {
        let Some(i) = (if trunc { self.pick_file() } else { self.pick_ino(|_| true) }) else { return };
        let mut at = SetAttr::default();
        let mut a = json!({"i":i});
        let o = a.as_object_mut().unwrap();
        if trunc {
            let (s, rs) = (self.nodes[&i].size, self.nodes[&i].rs);
            let z = if self.rng.gen_bool(0.3) { s } else { self.pick_off(s, rs) };
            at.size = Some(z); o.insert("size".into(), z.into());
            self.nodes.get_mut(&i).unwrap().size = z;
        }
        if self.rng.gen_bool(if trunc { 0.1 } else { 0.4 }) { let x = self.rng.gen_range(0..0o10000u16); at.perm = Some(x); o.insert("perm".into(), x.into()); }
        if self.rng.gen_bool(if trunc { 0.1 } else { 0.4 }) { let x = self.rng.gen_range(0..100u32); at.uid = Some(x); o.insert("uid".into(), x.into()); }
        if self.rng.gen_bool(if trunc { 0.1 } else { 0.4 }) { let x = self.rng.gen_range(0..100u32); at.gid = Some(x); o.insert("gid".into(), x.into()); }
        if self.rng.gen_bool(0.2) { let x = self.rng.gen_range(0..100u64); at.flags = Some(x); o.insert("flags".into(), x.into()); }
        for (k, f) in [("at", 0), ("mt", 1), ("ct", 2), ("bt", 3)] {
            if self.rng.gen_bool(if f == 2 { 0.1 } else { 0.25 }) {
                let x = self.rng.gen_range(-1_000_000..0i64);
                let t = self.ts(x);
                match f { 0 => at.atime = Some(t), 1 => at.mtime = Some(t), 2 => at.ctime = Some(t), _ => at.birthtime = Some(t) }
                o.insert(k.into(), x.into());
            }
        }
        let fh = self.h(i);
        let (r, t) = call!(self, "setattr", a, |fs| fs.setattr(&fh, at).await);
        self.op("setattr", a, r.map(|_| json!({})), t);
    }
    pub async fn write(&mut self) {
        let Some(i) = self.pick_file() else { return };
        let (s, rs) = (self.nodes[&i].size, self.nodes[&i].rs);
        let off = self.pick_off(s, rs);
        let len = self.pick_len(off, s, rs).max(1);
        self.write_at(i, off, len).await
    }
    pub async fn write_at(&mut self, i: u64, off: u64, len: u64) {
        let tag = self.rng.gen_range(1..=127u8);
        let b = pattern(tag, off, len as usize);
        let a = json!({"i":i,"off":off,"len":len,"tag":tag});
        let fh = self.h(i);
        let (r, t) = call!(self, "write", a, |fs| fs.write(&fh, off, &b[..], 0).await);
        if r.is_ok() { let n = self.nodes.get_mut(&i).unwrap(); n.size = n.size.max(off + len); }
        self.op("write", a, r.map(|n| json!({"cnt":n})), t);
    }
    pub async fn read(&mut self) {
        let Some(i) = self.pick_file() else { return };
        let (s, rs) = (self.nodes[&i].size, self.nodes[&i].rs);
        let off = self.pick_off(s, rs);
        let len = if self.rng.gen_bool(0.2) { s + 10 } else { self.pick_len(off, s, rs) };
        self.read_at(i, off, len).await
    }
    pub async fn read_at(&mut self, i: u64, off: u64, len: u64) {
        let a = json!({"i":i,"off":off,"len":len});
        let fh = self.h(i);
        let (r, t) = call!(self, "read", a, |fs| fs.read(&fh, off, len as usize).await);
        let keep = self.rng.gen_bool(0.25);
        let mut kept = None;
        let r = r.map(|sg| {
            let mut b = vec![];
            for x in sg.iter() { b.extend_from_slice(&x[..]) }
            let j = json!({"cnt":b.len(),"runs":decode(off, &b)});
            if keep { kept = Some((off, b, sg)); }
            j
        });
        self.op("read", a, r, t);
        // What a reader was given must not change under it, nor may its reference get in the way of later operations.
        if let Some(k) = kept { self.kept.push_back(k); }
        while self.kept.len() > 3 || (!self.kept.is_empty() && self.rng.gen_bool(0.1)) { self.drop_kept(); }
    }
    pub fn drop_kept(&mut self) {
        let Some((off, b, sg)) = self.kept.pop_front() else { return };
        let mut now = vec![];
        for x in sg.iter() { now.extend_from_slice(&x[..]) }
        if now != b { self.out.ev(json!({"e":"kept","r":"changed","off":off,"was":decode(off, &b),"now":decode(off, &now)})); }
    }
    pub async fn dealloc(&mut self) {
        let Some(i) = self.pick_file() else { return };
        let (s, rs) = (self.nodes[&i].size, self.nodes[&i].rs);
        let off = self.pick_off(s, rs);
        let len = self.pick_len(off, s, rs);
        let a = json!({"i":i,"off":off,"len":len});
        let fh = self.h(i);
        let (r, t) = call!(self, "dealloc", a, |fs| fs.deallocate(&fh, off, len).await);
        self.op("dealloc", a, r.map(|_| json!({})), t);
    }
    pub async fn lseek(&mut self) {
        let Some(i) = self.pick_file() else { return };
        let (s, rs) = (self.nodes[&i].size, self.nodes[&i].rs);
        let off = self.pick_off(s, rs);
        let w = self.rng.gen_bool(0.5);
        let a = json!({"i":i,"off":off,"wh":if w { "hole" } else { "data" }});
        let fh = self.h(i);
        let (r, t) = call!(self, "lseek", a, |fs| fs.lseek(&fh, off, if w { SeekWhence::Hole } else { SeekWhence::Data }).await);
        self.op("lseek", a, r.map(|o| json!({"to":o.min(1<<30)})), t);
    }
    pub async fn readlink(&mut self) {
        let Some(i) = self.pick_ino(|n| n.ty == "lnk") else { return };
        let a = json!({"i":i});
        let fh = self.h(i);
        let (r, t) = call!(self, "readlink", a, |fs| fs.readlink(&fh).await);
        self.op("readlink", a, r.map(|x| json!({"tgt":sn(x.as_bytes())})), t);
    }
    fn xname(&mut self) -> (ExtAttrNamespace, &'static str, String) {
        let (ns, s) = if self.rng.gen_bool(0.6) { (ExtAttrNamespace::User, "U") } else { (ExtAttrNamespace::System, "S") };
        let n = match self.rng.gen_range(0..10) { 0..=4 => format!("~x{}", self.rng.gen_range(0..3)), 5..=8 => format!("x{}", self.rng.gen_range(0..3)), _ => "X".repeat(255) };
        (ns, s, n)
    }
    pub async fn xattr(&mut self) {
        let i = self.pick_ino(|_| true).unwrap();
        let fh = self.h(i);
        let (ns, s, n) = self.xname();
        let on = os(&n);
        let key = format!("{s}:{n}");
        match self.rng.gen_range(0..10) {
            0..=3 => {
                let len = match self.rng.gen_range(0..6) { 0 => 0, 1 => self.rng.gen_range(1..10), 2 => self.rng.gen_range(4000..9000), 3 => 4096, _ => self.rng.gen_range(0..300) };
                let tag = if len == 0 { 0 } else { self.rng.gen_range(1..=127u8) };
                let b = pattern(tag, 0, len);
                let a = json!({"i":i,"x":key,"len":len,"tag":tag});
                let (r, t) = call!(self, "setx", a, |fs| fs.setextattr(&fh, ns, &on, &b).await);
                self.op("setx", a, r.map(|_| json!({})), t);
            }
            4..=5 => {
                let a = json!({"i":i,"x":key});
                let (r, t) = call!(self, "getx", a, |fs| fs.getextattr(&fh, ns, &on).await);
                let r = r.map(|b| {
                    let d = decode(0, &b[..]);
                    let tag = if b.is_empty() { 0 } else if d.len() == 1 && d[0].0 == 0 && d[0].1 == b.len() as u64 { d[0].2 } else { -1 };
                    json!({"len":b.len(),"tag":tag})
                });
                self.op("getx", a, r, t);
            }
            6 => {
                let a = json!({"i":i,"x":key});
                let (r, t) = call!(self, "getxlen", a, |fs| fs.getextattrlen(&fh, ns, &on).await);
                self.op("getxlen", a, r.map(|l| json!({"len":l})), t);
            }
            7 => {
                let a = json!({"i":i,"x":key});
                let (r, t) = call!(self, "delx", a, |fs| fs.deleteextattr(&fh, ns, &on).await);
                self.op("delx", a, r.map(|_| json!({})), t);
            }
            _ => {
                self.listx(i).await
            }
        }
    }
    pub async fn listx(&mut self, i: u64) {
        let fh = self.h(i);
        let a = json!({"i":i});
        let (r, t) = call!(self, "listx", a, |fs| {
            let f = |b: &mut Vec<u8>, x: &ExtAttr| {
                b.push(if x.namespace() == ExtAttrNamespace::User { b'U' } else { b'S' });
                b.push(b':');
                b.extend_from_slice(x.name().as_bytes());
                b.push(0);
            };
            let v = fs.listextattr(&fh, 64, f).await;
            let l = fs.listextattrlen(&fh, |x: &ExtAttr| 3 + x.name().as_bytes().len() as u32).await;
            v.and_then(|v| l.map(|l| (v, l)))
        });
        let r = r.map(|(v, l)| {
            let mut names: Vec<String> = v.split(|x| *x == 0).filter(|x| !x.is_empty()).map(sn).collect();
            names.sort();
            json!({"names":names,"lenok":l as usize == v.len()})
        });
        self.op("listx", a, r, t);
    }
    pub async fn readdir(&mut self, all: bool) {
        let cont: Vec<usize> = (0..self.sessions.len()).filter(|i| !self.sessions[*i].eof).collect();
        let i = if !all && !cont.is_empty() && self.rng.gen_bool(0.7) { *cont.choose(&mut self.rng).unwrap() } else {
            let dir = self.pick_dir();
            self.sid += 1;
            if self.sessions.len() > 3 { self.sessions.remove(0); }
            self.sessions.push(Session { id: self.sid, dir, cookies: vec![], eof: false });
            self.sessions.len() - 1
        };
        let n = if all { usize::MAX } else if self.big { self.rng.gen_range(1..200) } else { self.rng.gen_range(1..5) };
        self.readdir_chunk(i, n).await
    }
    pub async fn readdir_full(&mut self, dir: u64) {
        self.sid += 1;
        if self.sessions.len() > 3 { self.sessions.remove(0); }
        self.sessions.push(Session { id: self.sid, dir, cookies: vec![], eof: false });
        let i = self.sessions.len() - 1;
        self.readdir_chunk(i, usize::MAX).await
    }
    async fn readdir_chunk(&mut self, i: usize, n: usize) {
        // Go back to an earlier position now and then
        let l = self.sessions[i].cookies.len();
        let k = if l > 0 && n != usize::MAX && self.rng.gen_ratio(1, 8) { self.rng.gen_range(0..=l) } else { l };
        self.sessions[i].cookies.truncate(k);
        let cookie = self.sessions[i].cookies.last().copied().unwrap_or(0);
        let dir = self.sessions[i].dir;
        let a = json!({"s":self.sessions[i].id,"d":dir,"k":k});
        let fh = self.h(dir);
        let lim = n.min(2000);
        let (r, t) = call!(self, "readdir", a, |fs| {
            let mut st = Box::pin(fs.readdir(&fh, cookie));
            let mut v = vec![];
            let mut eof = false;
            let mut err = None;
            while v.len() < lim {
                match st.next().await {
                    None => { eof = true; break }
                    Some(Ok(d)) => v.push(d),
                    Some(Err(e)) => { err = Some(e); break }
                }
            }
            match err { Some(e) => Err(e), None => Ok((v, eof)) }
        });
        let r = r.map(|(v, eof)| {
            let mut ents = vec![];
            for d in v {
                self.sessions[i].cookies.push(d.d_off);
                let nm: Vec<u8> = d.d_name[..d.d_namlen as usize].iter().map(|x| *x as u8).collect();
                let ty = match d.d_type { libc::DT_REG => "reg", libc::DT_DIR => "dir", libc::DT_LNK => "lnk", libc::DT_FIFO => "fifo",
                    libc::DT_SOCK => "sock", libc::DT_CHR => "chr", libc::DT_BLK => "blk", _ => "?" };
                ents.push(json!([sn(&nm), d.d_fileno, ty]));
            }
            self.sessions[i].eof = eof;
            json!({"ents":ents,"eof":eof})
        });
        self.op("readdir", a, r, t);
    }
    pub async fn sync(&mut self) {
        let (_, t) = call!(self, "sync", json!({}), |fs| fs.sync().await);
        self.op("sync", json!({}), Ok(json!({})), t);
    }
    /// Lets the background flusher run, drops caches: nothing that a user could see
    pub async fn quiet(&mut self) {
        let k = self.rng.gen_range(0..4);
        let db = self.db.clone().unwrap();
        let (_, t) = call!(self, "nop", json!({}), |fs| match k {
            0 => tokio::time::sleep(std::time::Duration::from_millis(150)).await,
            1 => db.drop_cache(),
            2 => db.clean().await.unwrap(),
            _ => tokio::time::sleep(std::time::Duration::from_millis(5200)).await,
        });
        self.op("nop", json!({"k":k}), Ok(json!({})), t);
    }
    pub async fn setprop(&mut self) {
        let e = self.rng.gen_range(12..15u8);
        let at = self.rng.gen_bool(0.5);
        let (r, t) = call!(self, "setprop", json!({}), |fs| {
            fs.set_prop(Property::RecordSize(e)).await.and(fs.set_prop(Property::Atime(at)).await)
        });
        self.rs_exp = e;
        self.atime = at;
        self.op("setprop", json!({"atime":at}), r.map(|_| json!({})).map_err(|e| e.into()), t);
    }
    /// Stops the file system with whatever is open, and opens it again
    pub async fn remount(&mut self) {
        self.sync().await;
        if self.dead { return }
        self.remount_nosync().await
    }
    pub async fn remount_nosync(&mut self) {
        let t0 = self.us();
        let r = AssertUnwindSafe(async {
            drop(self.fs.take());
            close(self.db.take().unwrap()).await;
            let db = Arc::new(self.rig.import(self.cachesize, None).await.map_err(i32::from)?);
            let ok = AssertUnwindSafe(db.check()).catch_unwind().await;
            self.db = Some(db.clone());
            self.fs = Some(Fs::new(db, self.tree).await);
            Ok::<_, i32>(match ok { Ok(Ok(true)) => "true", Ok(Ok(false)) => "false", Ok(Err(_)) => "err", Err(_) => "PANIC" })
        }).catch_unwind().await;
        let t1 = self.us() + 1;
        match r {
            Ok(r) => {
                if r.is_err() { self.dead = true }
                self.sessions.clear();
                self.held.clear();
                for i in std::mem::take(&mut self.open) { self.nodes.remove(&i); }
                self.op("remount", json!({}), r.map(|c| json!({"check":c})), (t0, t1));
            }
            Err(_) => { self.panicked("remount", json!({})) }
        }
    }
    /// Everything a user could see
    pub async fn walk(&mut self) {
        let all: Vec<u64> = self.nodes.keys().copied().collect();
        for i in all {
            if self.dead { return }
            self.getattr_of(i).await;
            if self.dead { return }
            match self.nodes[&i].ty {
                "dir" if !self.open.contains(&i) => self.readdir_full(i).await,
                "reg" => { let s = self.nodes[&i].size; self.read_at(i, 0, s + 100).await }
                _ => {}
            }
            if self.dead { return }
            self.listx(i).await;
        }
    }
    pub async fn step(&mut self, profile: &str) {
        let w: &[(&str, u32)] = match profile {
            "ns" => &[("create", 12), ("mkdir", 8), ("other", 4), ("lookup", 10), ("ilookup", 3), ("link", 8), ("unlink", 10), ("rmdir", 5),
                ("rename", 16), ("getattr", 10), ("readdirall", 6), ("forget", 3), ("hold", 3), ("sync", 1), ("quiet", 1), ("remount", 1), ("write", 2), ("read", 1), ("readlink", 1)],
            "data" => &[("create", 2), ("unlink", 1), ("write", 26), ("read", 26), ("trunc", 8), ("dealloc", 12), ("lseek", 12), ("getattr", 10),
                ("sync", 1), ("quiet", 2), ("remount", 1), ("setprop", 1)],
            "readdir" => &[("create", 14), ("mkdir", 3), ("link", 6), ("unlink", 6), ("rename", 4), ("readdir", 40), ("readdirall", 4), ("sync", 1), ("quiet", 1), ("remount", 1)],
            "xattr" => &[("create", 3), ("mkdir", 1), ("other", 1), ("unlink", 1), ("xattr", 50), ("rename", 1), ("sync", 1), ("quiet", 2), ("remount", 1), ("write", 2)],
            "attr" => &[("create", 6), ("mkdir", 4), ("other", 6), ("setattr", 20), ("trunc", 5), ("getattr", 40), ("write", 6), ("read", 8), ("link", 4), ("unlink", 4),
                ("rename", 5), ("dealloc", 3), ("rmdir", 2), ("readlink", 4), ("setprop", 2), ("sync", 1), ("quiet", 1), ("remount", 1), ("xattr", 2)],
            "crash" => &[("create", 12), ("mkdir", 5), ("other", 2), ("link", 4), ("unlink", 8), ("rmdir", 3), ("rename", 8), ("write", 20), ("trunc", 5),
                ("dealloc", 4), ("xattr", 10), ("setattr", 4), ("forget", 3), ("hold", 2), ("remount", 1)],
            "dying" => &[("create", 12), ("hold", 8), ("unlink", 14), ("forget", 8), ("write", 10), ("read", 8), ("getattr", 8), ("xattr", 3), ("trunc", 2), ("link", 3),
                ("remount", 2), ("sync", 1), ("quiet", 1), ("ilookup", 4), ("dealloc", 1)],
            _ => &[("create", 8), ("mkdir", 4), ("other", 3), ("lookup", 4), ("link", 4), ("unlink", 6), ("rmdir", 3), ("rename", 6), ("getattr", 6), ("readdir", 6),
                ("write", 10), ("read", 8), ("trunc", 3), ("dealloc", 3), ("lseek", 3), ("xattr", 6), ("setattr", 3), ("forget", 3), ("hold", 3), ("sync", 2), ("quiet", 2),
                ("remount", 1), ("setprop", 1)],
        };
        let op = w.choose_weighted(&mut self.rng, |x| x.1).unwrap().0;
        match op {
            "create" => self.create("reg").await,
            "mkdir" => self.create("dir").await,
            "other" => { let t = *["lnk", "fifo", "sock", "chr", "blk"].choose(&mut self.rng).unwrap(); self.create(t).await }
            "lookup" => self.lookup().await,
            "ilookup" => self.ilookup().await,
            "link" => self.link().await,
            "unlink" => self.unlink().await,
            "rmdir" => self.rmdir().await,
            "rename" => self.rename().await,
            "getattr" => self.getattr().await,
            "setattr" => self.setattr(false).await,
            "trunc" => self.setattr(true).await,
            "write" => self.write().await,
            "read" => self.read().await,
            "dealloc" => self.dealloc().await,
            "lseek" => self.lseek().await,
            "readlink" => self.readlink().await,
            "xattr" => self.xattr().await,
            "readdir" => self.readdir(false).await,
            "readdirall" => self.readdir(true).await,
            "forget" => self.forget().await,
            "hold" => self.hold().await,
            "sync" => self.sync().await,
            "quiet" => self.quiet().await,
            "setprop" => self.setprop().await,
            "remount" => self.remount().await,
            x => panic!("{x}"),
        }
    }
}

pub fn run(profile: &str, path: &str, seed: u64, scale: usize) {
    let base = SystemTime::now();
    let mut out = Some(Out::new(path));
    for ep in 0..scale {
        let rt = runtime();
        rt.block_on(async {
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let rs = if r.gen_bool(0.7) { 12 } else { 13 };
            let cache = if r.gen_bool(0.3) { 4_000_000 } else { 16_000_000 };
            let at = r.gen_bool(0.4);
            let mut d = Drv::new(out.take().unwrap(), seed * 7919 + ep as u64, Layout::single(), rs, at, cache, base).await;
            d.big = ep % 5 == 4 && (profile == "readdir" || profile == "ns");
            let steps = if d.big { 1200 } else { 300 };
            for _ in 0..steps {
                if d.dead { break }
                d.step(profile).await;
            }
            if !d.dead { d.walk().await }
            if !d.dead { d.remount().await }
            if !d.dead { d.walk().await }
            // The rest just goes away
            let Drv { out: o, fs, db, .. } = d;
            out = Some(o);
            drop(fs);
        });
        drop(rt);
        tokio_file::clear();
    }
}
