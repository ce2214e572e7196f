//! Concurrent users, and what a power failure leaves of their work
use crate::{crash::*, fsd::*, rig::*};
use bfffs_core::{database::*, fs::*, fs_tree::{ExtAttr, ExtAttrNamespace}, property::Property};
use futures::{FutureExt, StreamExt};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Map, Value};
use std::{
    cell::{Cell, RefCell}, collections::{BTreeMap, BTreeSet}, ffi::OsStr, os::unix::ffi::OsStrExt, panic::AssertUnwindSafe, rc::Rc, sync::Arc,
    time::{Duration, SystemTime},
};
use tokio_file::{Ev, Kind, Rec};

type State = BTreeMap<String, i64>;
const NR: usize = 6;

struct Log { rows: RefCell<Vec<(u64, Value)>>, dead: Cell<bool> }
impl Log {
    fn row(&self, v: Value) { self.rows.borrow_mut().push((tokio_file::now(), v)) }
    fn bad(&self, i: usize, what: String) { self.dead.set(true); self.row(json!({"e":"bad","i":i,"what":what})) }
}
/// Lets the others run, as often as the disks do
fn turn() -> impl std::future::Future<Output = ()> {
    let mut done = false;
    futures::future::poll_fn(move |cx| {
        if done { return std::task::Poll::Ready(()) }
        done = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
}
/// Record j of task i's file, as its nth operation writes it
fn content(i: usize, n: i64, j: usize, len: usize) -> Vec<u8> {
    let mut b = Vec::with_capacity(len);
    let h = (n as u64) | (i as u64) << 32 | (j as u64) << 40;
    b.extend_from_slice(&h.to_le_bytes());
    let mut x = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    while b.len() < len {
        if n % 2 == 0 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
        b.extend_from_slice(&x.to_le_bytes());
    }
    b
}
fn uncontent(i: usize, j: usize, b: &[u8]) -> i64 {
    if b.iter().all(|x| *x == 0) { return 0 }
    let h = u64::from_le_bytes(b[..8].try_into().unwrap());
    let n = (h & 0xffff_ffff) as i64;
    if b == &content(i, n, j, b.len())[..] { n } else { -1 }
}
async fn names(fs: &Fs, h: &FileData) -> Result<BTreeMap<String, u64>, i32> {
    let mut m = BTreeMap::new();
    let mut st = Box::pin(fs.readdir(h, 0));
    while let Some(d) = st.next().await {
        let d = d?;
        let nm: Vec<u8> = d.d_name[..d.d_namlen as usize].iter().map(|x| *x as u8).collect();
        let nm = sn(&nm);
        if nm != "." && nm != ".." && m.insert(nm, d.d_fileno).is_some() { return Err(libc::EEXIST) }
    }
    Ok(m)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty { File, Dir, Ds }
#[derive(Clone, Debug)]
struct Spec { i: usize, ty: Ty, tree: usize, rs: usize, width: usize, ops: i64, pace: u64 }

/// What there is of a task's work
async fn observe(db: &Arc<Database>, fs: &Fs, tree: TreeID, s: &Spec) -> Result<State, i32> {
    let mut st = State::new();
    let root = fs.root().handle();
    match s.ty {
        Ty::File => {
            let pre = format!("f{}@", s.i);
            let nm = names(fs, &root).await?;
            let mut it = nm.iter().filter(|(n, _)| n.starts_with(&pre));
            let Some((n, ino)) = it.next() else { return Err(libc::ENOENT) };
            if it.next().is_some() { return Err(libc::EEXIST) }
            st.insert("name".into(), n[pre.len()..].parse().unwrap());
            let h = FileDataMut::new_for_tests(None, *ino).handle();
            let a = fs.getattr(&h).await?;
            st.insert("uid".into(), a.uid as i64);
            st.insert("nlink".into(), a.nlink as i64 - 1);
            let x = fs.getextattr(&h, ExtAttrNamespace::User, OsStr::new("x")).await;
            match x {
                Ok(x) => { st.insert("x".into(), String::from_utf8_lossy(&x[..]).parse().unwrap_or(-1)); }
                Err(libc::ENOATTR) => {}
                Err(e) => return Err(e),
            }
            let sg = fs.read(&h, 0, s.rs * (NR + 1)).await?;
            let mut b = vec![];
            for x in sg.iter() { b.extend_from_slice(&x[..]) }
            if b.len() as u64 != a.size || b.len() % s.rs != 0 { return Err(libc::EMSGSIZE) }
            for (j, c) in b.chunks(s.rs).enumerate() { st.insert(format!("r{j}"), uncontent(s.i, j, c)); }
        }
        Ty::Dir => {
            let par = fs.lookup(None, &root, &os(&format!("d{}", s.i))).await?;
            let h = par.handle();
            for (n, ino) in names(fs, &h).await? {
                let g = fs.getattr(&FileDataMut::new_for_tests(if n.starts_with('k') { Some(h.ino()) } else { None }, ino).handle()).await?;
                let k: i64 = n[1..].parse().unwrap();
                st.insert(format!("e{k}"), if g.uid as i64 == k { k } else { -1 });
            }
        }
        Ty::Ds => {
            let mut t = Box::pin(db.readdir(tree, 0));
            let mut v = vec![];
            while let Some(d) = t.next().await { v.push(d.map_err(i32::from)?) }
            for d in v {
                let Some(k) = d.name.strip_prefix(&format!("ds{}-", s.i)) else { continue };
                let k: i64 = k.parse().unwrap();
                // It has to be usable
                let f2 = Fs::new(db.clone(), d.id).await;
                let n = names(&f2, &f2.root().handle()).await?;
                if !n.is_empty() { return Err(libc::ENOTEMPTY) }
                st.insert(format!("e{k}"), k);
            }
        }
    }
    st.retain(|_, v| *v != 0);
    Ok(st)
}

/// How many of its operations
fn prefix(h: &[State], s: &State) -> i64 { h.iter().rposition(|x| x == s).map(|k| k as i64).unwrap_or(-1) }
struct Task { hist: Rc<RefCell<Vec<State>>>, s: Spec, log: Rc<Log>, db: Arc<Database>, fs: Rc<Fs>, tree: TreeID, st: State, rng: StdRng, ino: u64, name: String, live: Vec<i64> }
impl Task {
    async fn op(&mut self, n: i64) -> Result<(), i32> {
        let s = self.s.clone();
        let mut set: BTreeMap<String, i64> = BTreeMap::new();
        let root = self.fs.root().handle();
        match s.ty {
            Ty::File => {
                let h = FileDataMut::new_for_tests(None, self.ino).handle();
                match self.rng.gen_range(0..12) {
                    0 => {
                        set.insert("name".into(), n);
                        self.begin(n, &set);
                        let new = format!("f{}@{n}", s.i);
                        self.fs.rename(&root, &h, &os(&self.name), &root, None, &os(&new)).await?;
                        self.name = new;
                    }
                    1 => {
                        set.insert("uid".into(), n);
                        self.begin(n, &set);
                        self.fs.setattr(&h, SetAttr { uid: Some(n as u32), ..Default::default() }).await?;
                    }
                    2 | 3 => {
                        set.insert("x".into(), n);
                        self.begin(n, &set);
                        self.fs.setextattr(&h, ExtAttrNamespace::User, OsStr::new("x"), n.to_string().as_bytes()).await?;
                    }
                    4 => {
                        // Truncate
                        let k = self.rng.gen_range(0..NR);
                        for j in k..NR { set.insert(format!("r{j}"), 0); }
                        set.insert("uid".into(), n);
                        self.begin(n, &set);
                        self.fs.setattr(&h, SetAttr { uid: Some(n as u32), size: Some((k * s.rs) as u64), ..Default::default() }).await?;
                    }
                    _ => {
                        let a = self.rng.gen_range(0..NR);
                        let b = if self.rng.gen_bool(0.5) { a + 1 } else { self.rng.gen_range(a + 1..=NR) };
                        let mut d = vec![];
                        for j in a..b { set.insert(format!("r{j}"), n); d.extend(content(s.i, n, j, s.rs)); }
                        self.begin(n, &set);
                        self.fs.write(&h, (a * s.rs) as u64, &d[..], 0).await?;
                    }
                }
            }
            Ty::Dir | Ty::Ds => {
                let full = self.live.len() >= s.width;
                let k = if full { self.live[0] } else { n };
                set.insert(format!("e{k}"), if full { 0 } else { n });
                self.begin(n, &set);
                if s.ty == Ty::Dir {
                    let h = FileDataMut::new_for_tests(Some(1), self.ino).handle();
                    let isdir = k % 5 == 0;
                    let nm = os(&format!("{}{k}", if isdir { 'k' } else { 'e' }));
                    if full {
                        if isdir { self.fs.rmdir(&h, &nm).await? } else { self.fs.unlink(&h, None, &nm).await? }
                    } else if isdir { let f = self.fs.mkdir(&h, &nm, 0o755, n as u32, 0).await?; self.fs.inactive(f).await; }
                    else { let f = self.fs.create(&h, &nm, 0o644, n as u32, 0).await?; self.fs.inactive(f).await; }
                } else {
                    let nm = format!("ds{}-{k}", s.i);
                    if full {
                        let (p, t) = self.db.lookup_fs(&nm).await?;
                        self.db.destroy_fs(p, t.unwrap(), &nm).await?;
                    } else { self.db.create_fs(Some(self.tree), nm).await?; }
                }
                if full { self.live.remove(0); } else { self.live.push(n); }
            }
        }
        for (c, v) in set { if v == 0 { self.st.remove(&c); } else { self.st.insert(c, v); } }
        self.log.row(json!({"e":"end","i":s.i,"n":n}));
        Ok(())
    }
    fn begin(&self, n: i64, set: &BTreeMap<String, i64>) {
        let mut x = self.hist.borrow().last().unwrap().clone();
        for (c, v) in set { if *v == 0 { x.remove(c); } else { x.insert(c.clone(), *v); } }
        self.hist.borrow_mut().push(x);
 self.log.row(json!({"e":"begin","i":self.s.i,"n":n,"set":set})); }
    async fn run(&mut self) {
        for n in 1..=self.s.ops {
            if self.log.dead.get() { return }
            match self.rng.gen_range(0..12) {
                0 if self.s.pace > 3 || n % 16 == 0 => tokio::time::sleep(Duration::from_millis(self.rng.gen_range(1..self.s.pace + 2))).await,
                1..=6 => for _ in 0..self.rng.gen_range(0..40) { turn().await },
                7 => {
                    match observe(&self.db, &self.fs, self.tree, &self.s).await {
                        Ok(x) if x == self.st => {}
                        Ok(x) => return self.log.bad(self.s.i, format!("read {x:?} not {:?}", self.st)),
                        Err(e) => return self.log.bad(self.s.i, format!("reading: {}", ename(e))),
                    }
                }
                _ => {}
            }
            match AssertUnwindSafe(self.op(n)).catch_unwind().await {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return self.log.bad(self.s.i, format!("operation {n}: {}", ename(e))),
                Err(_) => return self.log.bad(self.s.i, format!("operation {n}: PANIC {}", last_panic())),
            }
        }
    }
}

/// What a mount finds of every task's work
fn after(lay: Layout, js: Vec<Vec<Rec>>, t: u64, how: u8, seed: u64, trees: Vec<TreeID>, specs: Vec<Spec>, hists: Vec<Vec<State>>) -> Value {
    std::thread::spawn(move || {
        let _ = last_panic();
        let rt = runtime();
        let r = rt.block_on(AssertUnwindSafe(async {
            let mut rng = StdRng::seed_from_u64(seed);
            let rig = Rig::new(lay.clone());
            for (i, j) in js.iter().enumerate() { save(&image(j, t, how, &mut rng, &Blocks::new()), &rig.paths[i], lay.fsize); }
            let db = match rig.import(16_000_000, None).await {
                Ok(d) => Arc::new(d),
                Err(e) => return json!({"r":ename(i32::from(e)),"stage":"import"}),
            };
            let check = match db.check().await { Ok(x) => x.to_string(), Err(e) => ename(e.into()) };
            let mut fss = vec![];
            for t in &trees { let f = Fs::new(db.clone(), *t).await; let _ = f.set_prop(Property::Atime(false)).await; fss.push(f); }
            let mut got = vec![];
            for s in &specs {
                match observe(&db, &fss[s.tree], trees[s.tree], s).await {
                    Ok(x) => got.push(x),
                    Err(e) => return json!({"r":ename(e),"stage":format!("task {}", s.i),"check":check}),
                }
            }
            let ks: Vec<i64> = got.iter().zip(&hists).map(|(g, h)| prefix(h, g)).collect();
            json!({"r":"ok","check":check,"got":got,"k":ks})
        }).catch_unwind());
        match r { Ok(v) => v, Err(_) => json!({"r":"PANIC","panic":last_panic()}) }
    }).join().unwrap_or_else(|_| json!({"r":"PANIC","panic":"?"}))
}

pub fn run(path: &str, seed: u64, scale: usize) {
    let mut out = Out::new(path);
    let only: Option<usize> = std::env::var("VERIF_EP").ok().map(|x| x.parse().unwrap());
    for ep in (0..scale).filter(|e| only.is_none_or(|o| o == *e)) {
        let rt = runtime();
        rt.block_on(async {
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let ls = layouts();
            let mut lay = ls[ep % ls.len()].clone();
            lay.zone = Some([64, 256][r.gen_range(0..2)]);
            let rig = Rig::new(lay.clone());
            // Some disks are very slow sometimes
            let slow = ep % 4 == 3;
            for d in &rig.devs {
                let mut st = d.st.lock().unwrap();
                st.rng ^= r.gen::<u64>() | 1; st.record = true; st.record_data = true; st.max_delay = [2, 8, 40, 150][r.gen_range(0..4)];
                if slow { st.max_delay = 4; st.slow = 60 }
            }
            let db = Arc::new(rig.format(1_000_000));
            let t0 = db.create_fs(None, "").await.unwrap();
            let t1 = db.create_fs(Some(t0), "c".to_string()).await.unwrap();
            let trees = vec![t0, t1];
            let n = r.gen_range(2..6);
            let mut specs: Vec<Spec> = (0..n).map(|i| Spec { i, ty: [Ty::File, Ty::File, Ty::Dir][r.gen_range(0..3)], tree: (r.gen_range(0..4) == 0) as usize,
                rs: 4096 << r.gen_range(0..2), width: r.gen_range(2..60), ops: r.gen_range(20..150), pace: [3, 3, 40, 1000][r.gen_range(0..4)] }).collect();
            if r.gen_bool(0.4) { let x = specs.last_mut().unwrap(); x.ty = Ty::Ds; x.width = 2; x.ops = 8; x.tree = 0; }
            let rse = r.gen_range(12..14);
            let mut fss = vec![];
            for t in &trees {
                let f = Fs::new(db.clone(), *t).await;
                f.set_prop(Property::RecordSize(rse)).await.unwrap();
                f.set_prop(Property::Atime(false)).await.unwrap();
                fss.push(f);
            }
            for s in &mut specs {
                if s.rs < 1 << rse { s.rs = 1 << rse; }
                let root = fss[s.tree].root().handle();
                match s.ty {
                    Ty::File => { let f = fss[s.tree].create(&root, &os(&format!("f{}@0", s.i)), 0o644, 0, 0).await.unwrap(); fss[s.tree].inactive(f).await; }
                    Ty::Dir => { let f = fss[s.tree].mkdir(&root, &os(&format!("d{}", s.i)), 0o755, 0, 0).await.unwrap(); fss[s.tree].inactive(f).await; }
                    Ty::Ds => {}
                }
            }
            fss[0].sync().await;
            let mut db = db;
            if r.gen_bool(0.5) {
                drop(fss);
                close(db).await;
                db = Arc::new(rig.import([300_000, 1_000_000, 16_000_000][r.gen_range(0..3)], [None, Some(1_000_000), Some(20_000_000), Some(60_000_000)][r.gen_range(0..4)]).await.unwrap());
                fss = vec![];
                for t in &trees { fss.push(Fs::new(db.clone(), *t).await); }
            }
            let fss: Vec<Rc<Fs>> = fss.into_iter().map(Rc::new).collect();
            let mut tasks = vec![];
            let mut hists = vec![];
            let log = Rc::new(Log { rows: Default::default(), dead: false.into() });
            for s in &specs {
                let fs = fss[s.tree].clone();
                let root = fs.root().handle();
                let name = match s.ty { Ty::File => format!("f{}@0", s.i), Ty::Dir => format!("d{}", s.i), Ty::Ds => String::new() };
                let ino = if s.ty == Ty::Ds { 0 } else { let f = fs.lookup(None, &root, &os(&name)).await.unwrap(); let i = f.ino(); fs.inactive(f).await; i };
                hists.push(Rc::new(RefCell::new(vec![State::new()])));
                tasks.push(Task { hist: hists.last().unwrap().clone(), s: s.clone(), log: log.clone(), db: db.clone(), fs, tree: trees[s.tree], st: State::new(),
                    rng: StdRng::seed_from_u64(r.gen()), ino, name, live: vec![] });
            }
            let s0 = tokio_file::now();
            let left = Rc::new(Cell::new(tasks.len()));
            let set = tokio::task::LocalSet::new();
            let mut hs = vec![];
            for mut t in tasks {
                let left = left.clone();
                hs.push(set.spawn_local(async move { t.run().await; left.set(left.get() - 1); }));
            }
            let nsync = r.gen_range(0..4);
            for k in 0..nsync + 1 {
                let (fs, db, log, left) = (fss[r.gen_range(0..2)].clone(), db.clone(), log.clone(), left.clone());
                let mut rng = StdRng::seed_from_u64(r.gen());
                let pace = [1, 5, 60, 600][r.gen_range(0..4)];
                let cleaner = k == nsync;
                if cleaner && rng.gen_bool(0.4) { continue }
                hs.push(set.spawn_local(async move {
                    let mut n = 0;
                    while left.get() > 0 && !log.dead.get() && n < 50 {
                        n += 1;
                        if rng.gen_bool(0.04) { tokio::time::sleep(Duration::from_millis(rng.gen_range(0..pace))).await }
                        else { for _ in 0..rng.gen_range(0..200) { turn().await } }
                        if cleaner {
                            if rng.gen_bool(0.3) { db.drop_cache() } else { let _ = db.clean().await; }
                        } else {
                            log.row(json!({"e":"sbegin","s":k}));
                            let x = AssertUnwindSafe(async { if rng.gen_bool(0.5) { fs.sync().await; Ok(()) } else { fs.fsync(&fs.root().handle()).await } }).catch_unwind().await;
                            match x {
                                Ok(Ok(())) => log.row(json!({"e":"send","s":k})),
                                Ok(Err(e)) => log.bad(99, format!("sync: {}", ename(e))),
                                Err(_) => log.bad(99, format!("sync: PANIC {}", last_panic())),
                            }
                        }
                    }
                }));
            }
            set.run_until(async {
                let w = tokio::time::timeout(Duration::from_secs(100_000), futures::future::join_all(hs)).await;
                match w {
                    Err(_) => log.bad(99, "stuck".into()),
                    Ok(v) => if v.iter().any(|x| x.is_err()) && !log.dead.get() { log.bad(99, format!("PANIC {}", last_panic())) },
                }
            }).await;
            if !log.dead.get() {
                log.row(json!({"e":"sbegin","s":9}));
                fss[0].sync().await;
                log.row(json!({"e":"send","s":9}));
            }
            let s1 = tokio_file::now();
            let rows = log.rows.borrow().clone();
            let js: Vec<Vec<Rec>> = rig.devs.iter().map(|x| x.st.lock().unwrap().journal.clone()).collect();
            let mut cr = vec![];
            let sends: Vec<u64> = rows.iter().filter(|x| x.1["e"] == "send").map(|x| x.0).collect();
            if !log.dead.get() {
                for k in 0..5 {
                    let t = if k == 0 { s1 } else if k > 2 && !sends.is_empty() { *sends.choose(&mut r).unwrap() + r.gen_range(0..4) } else { r.gen_range(s0..=s1) };
                    let how = r.gen_range(0..4);
                    let mut v = after(lay.clone(), js.clone(), t, how, r.gen(), trees.clone(), specs.clone(), hists.iter().map(|h| h.borrow().clone()).collect());
                    v["e"] = "crash".into();
                    v["how"] = how.into();
                    cr.push((t, v));
                }
            }
            cr.sort_by_key(|x| x.0);
            out.ev(json!({"e":"new","n":specs.len(),"lay":ep % ls.len(),"specs":specs.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()}));
            let mut cr = cr.into_iter().peekable();
            for (q, v) in rows {
                while cr.peek().is_some_and(|c| c.0 < q) { out.ev(cr.next().unwrap().1) }
                out.ev(v);
            }
            for c in cr { out.ev(c.1) }
            drop(fss);
        });
        drop(rt);
        tokio_file::clear();
    }
}
