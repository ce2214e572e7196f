//! Trees of small nodes, on storage that's in memory, used concurrently
use crate::{rig::*, space::{shape, Dump}};
use bfffs_core::{
    cache::{CacheRef, Cacheable}, ddml::DRP, dml::{Compression, DML}, tree::{Key, MinValue, Node, Tree, TreeOnDisk, Value as TValue},
    types::*, writeback::{Credit, WriteBack},
};
use divbuf::{DivBuf, DivBufShared};
use futures::{FutureExt, StreamExt, TryStreamExt};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_derive::{Deserialize, Serialize};
use serde_json::{json, Value};
use speedy::{Readable, Writable};
use std::{
    cell::{Cell, RefCell}, collections::{BTreeMap, HashMap}, fmt::Debug, future::Future, ops::Bound, panic::AssertUnwindSafe, pin::Pin, rc::Rc,
    sync::{Arc, Mutex}, time::Duration,
};
type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd, Serialize, Deserialize, Readable, Writable)]
pub struct Num(u32);
impl TypicalSize for Num { const TYPICAL_SIZE: usize = 4; }
impl MinValue for Num { fn min_value() -> Self { Num(0) } }
impl Key for Num {}
/// A value of which part is stored elsewhere
#[derive(Clone, Debug, Serialize, Deserialize, Readable, Writable)]
pub struct Big { n: u32, size: u32, blob: Option<DRP> }
impl PartialEq for Big { fn eq(&self, o: &Self) -> bool { self.n == o.n } }
impl TypicalSize for Big { const TYPICAL_SIZE: usize = 40; }
fn as_drp<A: Copy>(a: &A) -> DRP { assert_eq!(std::mem::size_of::<A>(), std::mem::size_of::<DRP>()); unsafe { std::mem::transmute_copy(a) } }
fn as_addr<A: Copy>(a: &DRP) -> A { assert_eq!(std::mem::size_of::<A>(), std::mem::size_of::<DRP>()); unsafe { std::mem::transmute_copy(a) } }
impl TValue for Big {
    const NEEDS_FLUSH: bool = true;
    const MAX_ALLOCATED_SPACE: usize = 100;
    fn allocated_space(&self) -> usize { if self.blob.is_some() { 0 } else { self.size as usize } }
    fn needs_flush(&self) -> bool { self.blob.is_none() && self.size > 10 }
    fn ddrop<D>(&self, dml: &D, txg: TxgT) -> Fut<bfffs_core::Result<()>> where D: DML + 'static, D::Addr: 'static {
        match self.blob { Some(b) => dml.delete(&as_addr(&b), txg), None => futures::future::ok(()).boxed() }
    }
    fn flush_bt<D, K: Key>(bt: BTreeMap<K, Self>, dml: &D, txg: TxgT) -> Fut<bfffs_core::Result<BTreeMap<K, Self>>> where D: DML + 'static, D::Addr: 'static {
        let futs: futures::stream::FuturesUnordered<_> = bt.into_iter().map(|(k, mut v)| {
            if v.needs_flush() {
                dml.put(DivBufShared::from(v.n.to_le_bytes().to_vec()), Compression::None, txg)
                    .map(move |a| { v.blob = Some(as_drp(&a?)); Ok((k, v)) }).boxed()
            } else { futures::future::ok((k, v)).boxed() }
        }).collect();
        futs.try_collect::<BTreeMap<K, Big>>().boxed()
    }
    fn dpop<D>(mut self, dml: &D, txg: TxgT) -> Fut<bfffs_core::Result<Self>> where D: DML + 'static, D::Addr: 'static {
        match self.blob {
            Some(b) => dml.pop::<DivBufShared, DivBuf>(&as_addr(&b), txg).map(move |x| {
                let x = x?;
                let b = x.try_const().unwrap();
                if b[..] != self.n.to_le_bytes() { self.n = u32::MAX }
                self.blob = None;
                Ok(self)
            }).boxed(),
            None => futures::future::ok(self).boxed(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Readable, Writable)]
pub struct Small(u32);
impl TypicalSize for Small { const TYPICAL_SIZE: usize = 4; }
impl TValue for Small {}

trait K: Key { fn k(n: u32) -> Self; fn n(&self) -> u32; }
impl K for Num { fn k(n: u32) -> Self { Num(n) } fn n(&self) -> u32 { self.0 } }
impl K for RID { fn k(n: u32) -> Self { RID(n as u64) } fn n(&self) -> u32 { self.0 as u32 } }
trait V: TValue { fn v(n: u32, size: u32) -> Self; fn n(&self) -> u32; fn j(v: &Value) -> u64; fn blob(_v: &Value) -> bool { false } }
impl V for Big { fn v(n: u32, size: u32) -> Self { Big { n, size, blob: None } } fn n(&self) -> u32 { self.n } fn j(v: &Value) -> u64 { v["n"].as_u64().unwrap() }
    fn blob(v: &Value) -> bool { !v["blob"].is_null() } }
impl V for Small { fn v(n: u32, _: u32) -> Self { Small(n) } fn n(&self) -> u32 { self.0 } fn j(v: &Value) -> u64 { v.as_u64().unwrap() } }

struct Rec { b: Vec<u8>, node: bool, txg: u32 }
struct Zone { t0: u32, t1: u32 }
struct St {
    recs: BTreeMap<u64, Rec>, cache: HashMap<u64, Box<dyn Cacheable>>, next: u64, zones: Vec<Zone>, bad: Vec<String>,
    rng: StdRng, pace: u32, keep: f64, lent: i64, low: i64, in_use: fn(&dyn Cacheable) -> bool,
}
impl St {
    /// The cache forgets anything at any time, except for what somebody has a handle of
    fn forget(&mut self) {
        let (keep, f) = (self.keep, self.in_use);
        let mut k: Vec<u64> = self.cache.keys().copied().collect();
        k.sort();
        for k in k { if !self.rng.gen_bool(keep) && !f(&*self.cache[&k]) { self.cache.remove(&k); } }
    }
}
fn in_use<KK: K, VV: V>(c: &dyn Cacheable) -> bool { c.downcast_ref::<Arc<Node<DRP, KK, VV>>>().map_or(false, |n| Arc::strong_count(n) > 1) }
const ZONE: u64 = 24;
#[derive(Clone)]
struct Mem(Arc<Mutex<St>>);
impl Mem {
    fn delay(&self) -> Fut<()> {
        let n = { let mut s = self.0.lock().unwrap(); let p = s.pace; if s.rng.gen_bool(0.03) { s.rng.gen_range(0..=10 * p) } else { s.rng.gen_range(0..=p) } };
        async move { for _ in 0..n { tokio::task::yield_now().await } }.boxed()
    }
}
fn amount(c: &Credit) -> i64 { let s = format!("{c:?}"); let n: i64 = s.chars().filter(|c| c.is_ascii_digit() || *c == '-').collect::<String>().parse().unwrap(); n >> 1 }
struct Dev { m: Mem, wb: WriteBack }
impl DML for Dev {
    type Addr = DRP;
    fn delete(&self, a: &DRP, _txg: TxgT) -> Fut<bfffs_core::Result<()>> {
        let (m, lba) = (self.m.clone(), a.pba().lba);
        let d = m.delay();
        { let mut s = m.0.lock().unwrap(); s.cache.remove(&lba); }
        async move {
            d.await;
            let mut s = m.0.lock().unwrap();
            if s.recs.remove(&lba).is_none() { s.bad.push(format!("delete of missing {lba}")); }
            Ok(())
        }.boxed()
    }
    fn evict(&self, a: &DRP) { self.m.0.lock().unwrap().cache.remove(&a.pba().lba); }
    fn get<T: Cacheable, R: CacheRef>(&self, a: &DRP) -> Fut<bfffs_core::Result<Box<R>>> {
        let (m, lba) = (self.m.clone(), a.pba().lba);
        { let s = m.0.lock().unwrap();
          if let Some(c) = s.cache.get(&lba) { return futures::future::ok(c.make_ref().downcast::<R>().unwrap_or_else(|_| panic!("type"))).boxed() } }
        async move {
            m.delay().await;
            let mut s = m.0.lock().unwrap();
            if let Some(c) = s.cache.get(&lba) { return Ok(c.make_ref().downcast::<R>().unwrap_or_else(|_| panic!("type"))) }
            let Some(r) = s.recs.get(&lba) else { s.bad.push(format!("get of missing {lba}")); return Err(bfffs_core::Error::ENOENT) };
            let c = R::deserialize(DivBufShared::from(r.b.clone()));
            let r = c.make_ref().downcast::<R>().unwrap_or_else(|_| panic!("type"));
            s.forget();
            s.cache.insert(lba, c);
            Ok(r)
        }.boxed()
    }
    fn pop<T: Cacheable, R: CacheRef>(&self, a: &DRP, _txg: TxgT) -> Fut<bfffs_core::Result<Box<T>>> {
        let (m, lba) = (self.m.clone(), a.pba().lba);
        let c = m.0.lock().unwrap().cache.remove(&lba);
        async move {
            m.delay().await;
            let mut s = m.0.lock().unwrap();
            let Some(r) = s.recs.remove(&lba) else { s.bad.push(format!("pop of missing {lba}")); return Err(bfffs_core::Error::ENOENT) };
            s.cache.remove(&lba);
            let c = c.unwrap_or_else(|| Box::new(T::deserialize(DivBufShared::from(r.b))));
            Ok(c.downcast::<T>().unwrap_or_else(|_| panic!("type")))
        }.boxed()
    }
    fn put<T: Cacheable>(&self, c: T, _z: Compression, txg: TxgT) -> Fut<bfffs_core::Result<DRP>> {
        let m = self.m.clone();
        let buf = c.make_ref().serialize();
        let (lba, drp) = {
            let mut s = m.0.lock().unwrap();
            let lbas = s.rng.gen_range(1..3u64);
            let mut lba = s.next;
            // Records don't cross zones' boundaries
            if lba / ZONE != (lba + lbas - 1) / ZONE { lba = (lba / ZONE + 1) * ZONE; }
            s.next = lba + lbas;
            let z = (lba / ZONE) as usize;
            while s.zones.len() <= z { s.zones.push(Zone { t0: txg.0, t1: txg.0 + 1 }); }
            if z > 0 { let t = s.zones[z].t0 + 1; let p = &mut s.zones[z - 1]; if p.t1 < t { p.t1 = t } }
            if s.zones[z].t1 < txg.0 + 1 { s.zones[z].t1 = txg.0 + 1 }
            (lba, DRP::new(PBA::new(0, lba), Compression::None, buf.len() as u32, lbas as u32 * 4096, 0))
        };
        let node = std::any::TypeId::of::<T>() != std::any::TypeId::of::<DivBufShared>();
        async move {
            m.delay().await;
            let mut s = m.0.lock().unwrap();
            s.recs.insert(lba, Rec { b: buf[..].to_vec(), node, txg: txg.0 });
            s.forget();
            s.cache.insert(lba, Box::new(c));
            Ok(drp)
        }.boxed()
    }
    fn repay(&self, c: Credit) {
        let n = amount(&c);
        { let mut s = self.m.0.lock().unwrap(); s.lent -= n; if n < s.low { s.low = n } }
        self.wb.repay(c)
    }
    fn sync_all(&self, _txg: TxgT) -> Fut<bfffs_core::Result<()>> { futures::future::ok(()).boxed() }
}

type TT<KK, VV> = Tree<DRP, Dev, KK, VV>;
struct Ep<KK: K, VV: V> {
    dev: Arc<Dev>, m: Mem, tree: RefCell<Arc<TT<KK, VV>>>, rows: RefCell<Vec<Value>>, txg: futures_locks::RwLock<TxgT>,
    n: Cell<u32>, op: Cell<u64>, nkeys: u32, dead: Cell<bool>, seq: bool, cr: (usize, usize, usize),
}
impl<KK: K, VV: V> Ep<KK, VV> {
    fn row(&self, v: Value) { if !self.dead.get() { self.rows.borrow_mut().push(v) } }
    fn bad(&self, t: String) { self.row(json!({"e":"bad","what":t})); self.dead.set(true); }
    async fn borrow(&self, n: usize) -> Credit {
        if !KK::USES_CREDIT { return Credit::null() }
        let c = self.dev.wb.borrow(n).await;
        self.m.0.lock().unwrap().lent += amount(&c);
        c
    }
    /// The operation's result is put in its first row, so that a reader of the trace needn't guess
    async fn op(&self, what: Value, f: impl Future<Output = bfffs_core::Result<Value>>) {
        let id = self.op.get();
        self.op.set(id + 1);
        let at = self.rows.borrow().len();
        let mut r = what;
        r["e"] = json!("inv");
        r["id"] = json!(id);
        self.row(r);
        match AssertUnwindSafe(f).catch_unwind().await {
            Ok(Ok(v)) => { if !self.dead.get() { self.rows.borrow_mut()[at]["r"] = v; } self.row(json!({"e":"ret","id":id})) }
            Ok(Err(e)) => self.bad(format!("{e:?}")),
            Err(_) => self.bad(format!("PANIC {}", last_panic())),
        }
    }
    fn bound(&self, b: Bound<KK>) -> Value { match b { Bound::Included(k) => json!(["i", k.n()]), Bound::Excluded(k) => json!(["x", k.n()]), Bound::Unbounded => json!(["u", 0]) } }
    fn range(&self, r: &mut StdRng) -> (Bound<KK>, Bound<KK>) {
        loop {
            let w = [1, 3, 10, self.nkeys][r.gen_range(0..4)].min(self.nkeys);
            let a = r.gen_range(0..self.nkeys);
            let b = a + r.gen_range(0..=w);
            let lo = match r.gen_range(0..8) { 0 => Bound::Unbounded, 1 | 2 => Bound::Excluded(a), _ => Bound::Included(a) };
            let hi = match r.gen_range(0..8) { 0 => Bound::Unbounded, 1 | 2 => Bound::Included(b), _ => Bound::Excluded(b) };
            // Ranges that are malformed aren't allowed
            match (lo, hi) {
                (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) if a >= b => continue,
                (Bound::Excluded(a), Bound::Excluded(b)) if a + 1 >= b => continue,
                _ => (),
            }
            let f = |b| match b { Bound::Included(n) => Bound::Included(KK::k(n)), Bound::Excluded(n) => Bound::Excluded(KK::k(n)), Bound::Unbounded => Bound::Unbounded };
            return (f(lo), f(hi))
        }
    }
    async fn step(&self, r: &mut StdRng, mix: &[u32; 6]) {
        let t = self.tree.borrow().clone();
        let k = r.gen_range(0..self.nkeys);
        let mut x = r.gen_range(0..mix.iter().sum::<u32>());
        let mut kind = 0;
        while x >= mix[kind] { x -= mix[kind]; kind += 1; }
        match kind {
            0 => { let v = VV::v(self.n.get(), [5, 20, 100][r.gen_range(0..3)]); self.insert(k, v).await }
            1 => self.remove(k).await,
            2 => {
                let (lo, hi) = self.range(r);
                let c = self.borrow(self.cr.2).await;
                let g = self.txg.read().await;
                self.op(json!({"op":"rdel","lo":self.bound(lo),"hi":self.bound(hi)}), async { t.range_delete((lo, hi), *g, c).await?; Ok(json!(0)) }).await
            }
            3 => self.op(json!({"op":"get","k":k}), async { Ok(json!(t.get(KK::k(k)).await?.map_or(0, |v| v.n()))) }).await,
            4 => {
                let (lo, hi) = self.range(r);
                let slow = r.gen_bool(0.3);
                self.op(json!({"op":"range","lo":self.bound(lo),"hi":self.bound(hi)}), async {
                    let mut q = Box::pin(t.range((lo, hi)));
                    let mut out = vec![];
                    while let Some(x) = q.next().await { let (k, v) = x?; out.push(json!([k.n(), v.n()])); if slow { tokio::task::yield_now().await } }
                    Ok(json!(out))
                }).await
            }
            _ => self.op(json!({"op":"last"}), async { Ok(json!(t.last_key().await?.map_or(-1, |k| k.n() as i64))) }).await,
        }
    }
    async fn remove(&self, k: u32) {
        let t = self.tree.borrow().clone();
        let c = self.borrow(self.cr.1).await;
        let g = self.txg.read().await;
        self.op(json!({"op":"remove","k":k}), async { Ok(json!(t.remove(KK::k(k), *g, c).await?.map_or(0, |v| v.n()))) }).await
    }
    async fn insert(&self, k: u32, v: VV) {
        let t = self.tree.borrow().clone();
        self.n.set(self.n.get() + 1);
        let n = v.n();
        let c = self.borrow(self.cr.0 + v.allocated_space()).await;
        let g = self.txg.read().await;
        self.op(json!({"op":"insert","k":k,"v":n}), async { Ok(json!(t.insert(KK::k(k), v, *g, c).await?.map_or(0, |v| v.n()))) }).await
    }
    async fn flush(&self) {
        let t = self.tree.borrow().clone();
        let g = self.txg.read().await;
        self.quiet("flush", t.flush(*g)).await
    }
    async fn quiet(&self, what: &str, f: impl Future<Output = bfffs_core::Result<()>>) {
        match AssertUnwindSafe(f).catch_unwind().await {
            Ok(Ok(())) => (),
            Ok(Err(e)) => self.bad(format!("{what}: {e:?}")),
            Err(_) => self.bad(format!("{what}: PANIC {}", last_panic())),
        }
    }
    async fn sync(&self) {
        let t = self.tree.borrow().clone();
        let mut g = self.txg.write().await;
        self.quiet("sync", t.flush(*g)).await;
        *g += 1;
    }
    async fn clean(&self, r: &mut StdRng) {
        let t = self.tree.borrow().clone();
        let g = self.txg.read().await;
        let z = { let s = self.m.0.lock().unwrap(); let n = s.zones.len(); if n < 2 { return } r.gen_range(0..n - 1) };
        let (t0, t1) = { let s = self.m.0.lock().unwrap(); (s.zones[z].t0, s.zones[z].t1) };
        let (a, b) = (z as u64 * ZONE, (z as u64 + 1) * ZONE);
        let old = |m: &Mem| m.0.lock().unwrap().recs.range(a..b).filter(|x| x.1.node).count();
        let was = old(&self.m);
        self.quiet("clean", t.clean_zone(PBA::new(0, a)..PBA::new(0, b), TxgT(t0)..TxgT(t1), *g)).await;
        self.row(json!({"e":"cleaned","was":was,"left":old(&self.m)}));
    }
    /// With nothing in progress
    async fn look(&self, r: &mut StdRng) {
        if self.dead.get() { return }
        let t = self.tree.borrow().clone();
        let ok = match AssertUnwindSafe(t.clone().check()).catch_unwind().await { Ok(Ok(b)) => b.to_string(), Ok(Err(e)) => format!("{e:?}"), Err(_) => format!("PANIC {}", last_panic()) };
        let mut b = vec![];
        t.dump(&mut b).await.unwrap();
        let d = Dump::parse(&b);
        let t0 = if r.gen_bool(0.5) { 0 } else { r.gen_range(0..=self.txg.try_read().map_or(0, |g| g.0)) };
        let adr: Vec<DRP> = t.addresses(TxgT(t0)..).collect().await;
        let w = d.walk();
        let at = |a: &DRP| w.iter().position(|x| x.0 == serde_json::to_value(a).unwrap()).map_or(0, |x| x + 1);
        let items: Vec<Value> = d.items().iter().map(|(k, v)| json!([k, VV::j(v)])).collect();
        let blobs = d.items().iter().filter(|x| VV::blob(&x.1)).count();
        let (mut credit, mut zero) = (0, true);
        for x in &w {
            if let Some(l) = x.4.get("Leaf") { if let Some(c) = l["credit"].as_i64() { credit += c >> 1; } }
        }
        let s = self.m.0.lock().unwrap();
        let mut row = shape("", &d);
        row["items"] = json!(items);
        row["wrote"] = json!(w.iter().map(|x| if x.0.is_null() { -1 } else { s.recs.get(&x.0["pba"]["lba"].as_u64().unwrap()).map_or(-2, |r| r.txg as i64) }).collect::<Vec<_>>());
        row["ok"] = json!(ok);
        row["t0"] = json!(t0);
        row["adr"] = json!(adr.iter().map(at).collect::<Vec<_>>());
        row["dirty"] = json!(t.is_dirty());
        row["recs"] = json!([s.recs.values().filter(|x| x.node).count(), s.recs.values().filter(|x| !x.node).count()]);
        row["blobs"] = json!(blobs);
        row["lent"] = json!([s.lent, credit]);
        row["debt"] = json!(s.low);
        row["missing"] = json!(s.bad);
        drop(s);
        self.row(row);
    }
}
async fn turn() { tokio::task::yield_now().await }
fn small<KK: K, VV: V>(dev: &Arc<Dev>, seq: bool, limits: [u16; 4]) -> impl Future<Output = Arc<TT<KK, VV>>> {
    let dev = dev.clone();
    async move {
        let t = Arc::new(TT::<KK, VV>::create(dev.clone(), seq, 4.0, 3.0));
        // A tree that was stored with other limits
        t.clone().flush(TxgT(0)).await.unwrap();
        let od = t.serialize().unwrap();
        let mut j = serde_json::to_value(&od).unwrap();
        for (f, v) in ["min_int_fanout", "max_int_fanout", "min_leaf_fanout", "max_leaf_fanout"].iter().zip(limits) { j["limits"][*f] = json!(v); }
        j["_reserved"] = json!([0, 0, 0, 0, 0, 0, 0]);
        let od: TreeOnDisk<DRP> = serde_json::from_value(j).unwrap();
        Arc::new(Tree::open(dev, seq, od))
    }
}
async fn episode<KK: K, VV: V>(seed: u64) -> Vec<Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let limits = [[2, 5, 2, 5], [2, 5, 3, 7], [2, 8, 2, 8], [3, 10, 2, 5], [4, 12, 4, 12], [2, 6, 2, 12]][r.gen_range(0..6)];
    let seq = r.gen_bool(0.4);
    let nkeys = [10, 24, 24, 60, 150, 300][r.gen_range(0..6)];
    let m = Mem(Arc::new(Mutex::new(St { recs: Default::default(), cache: HashMap::new(), next: 1, zones: vec![], bad: vec![],
        rng: StdRng::seed_from_u64(r.gen()), pace: [0, 2, 5, 20][r.gen_range(0..4)], keep: [0.0, 0.8, 1.0][r.gen_range(0..3)], lent: 0, low: 0, in_use: in_use::<KK, VV> })));
    let dev = Arc::new(Dev { m: m.clone(), wb: WriteBack::with_capacity(1_000_000) });
    let tree = small::<KK, VV>(&dev, seq, limits).await;
    let c = tree.credit_requirements();
    let ep = Rc::new(Ep { dev, m, tree: RefCell::new(tree), rows: Default::default(), txg: futures_locks::RwLock::new(TxgT(1)), n: Cell::new(1), op: Cell::new(1), nkeys,
        dead: Cell::new(false), seq, cr: (c.insert, c.remove, c.range_delete) });
    ep.row(json!({"e":"new","n":nkeys,"limits":limits}));
    ep.look(&mut r).await;
    for _ in 0..r.gen_range(2..7) {
        if ep.dead.get() { break }
        ep.m.0.lock().unwrap().pace = [0, 2, 5, 20][r.gen_range(0..4)];
        let mix = [[10, 2, 1, 2, 1, 1], [20, 0, 0, 0, 0, 0], [3, 10, 1, 2, 1, 1], [2, 20, 0, 1, 0, 0], [6, 2, 4, 2, 2, 1], [10, 5, 5, 5, 5, 5], [5, 1, 1, 10, 10, 3]][r.gen_range(0..7)];
        if r.gen_bool(0.4) {
            // Ranges out of a full tree, one at a time
            let mut ks: Vec<u32> = (0..nkeys).collect();
            if !seq && r.gen_bool(0.5) { ks.shuffle(&mut r) }
            for (i, k) in ks.into_iter().enumerate() {
                if r.gen_bool(0.95) { ep.insert(k, VV::v(ep.n.get(), [5, 20, 100][r.gen_range(0..3)])).await }
                if i > 0 && i % 37 == 0 && r.gen_bool(0.3) { ep.sync().await }
                if ep.dead.get() { break }
            }
            let syncs = [0.0, 0.2, 0.7][r.gen_range(0..3)];
            for _ in 0..r.gen_range(2..14) {
                if r.gen_bool(syncs) { ep.sync().await }
                match r.gen_range(0..6) {
                    0 => ep.step(&mut r, &[1, 2, 0, 0, 0, 0]).await,
                    1 => {
                        // A run of neighbours, from either side
                        let (a, n, back) = (r.gen_range(0..nkeys), r.gen_range(1..12), r.gen_bool(0.5));
                        for i in 0..n { let k = if back { a.saturating_sub(i) } else { (a + i).min(nkeys - 1) }; ep.remove(k).await }
                    }
                    _ => ep.step(&mut r, &[0, 0, 1, 0, 0, 0]).await,
                }
                if r.gen_bool(0.8) { ep.look(&mut r).await }
                if ep.dead.get() { break }
            }
        } else if r.gen_bool(0.3) {
            // Many in a row, with nothing else
            let n = r.gen_range(0..nkeys);
            for i in 0..n {
                let k = if seq { i } else { r.gen_range(0..nkeys) };
                if r.gen_bool(0.7) { ep.insert(k, VV::v(ep.n.get(), [5, 20, 100][r.gen_range(0..3)])).await } else { ep.step(&mut r, &mix).await }
                if r.gen_bool(0.02) { ep.sync().await }
                if ep.dead.get() { break }
            }
        } else {
            let set = tokio::task::LocalSet::new();
            let mut hs = vec![];
            let tasks = r.gen_range(1..5);
            let left = Rc::new(Cell::new(tasks));
            let total = r.gen_range(8..60);
            for _ in 0..tasks {
                let (ep, left, mut q) = (ep.clone(), left.clone(), StdRng::seed_from_u64(r.gen()));
                hs.push(set.spawn_local(async move {
                    for _ in 0..total / tasks {
                        ep.step(&mut q, &mix).await;
                        if q.gen_bool(0.3) { turn().await }
                        if ep.dead.get() { break }
                    }
                    left.set(left.get() - 1);
                }));
            }
            for kind in 0..3 {
                if r.gen_bool(0.5) { continue }
                let (ep, left, mut q) = (ep.clone(), left.clone(), StdRng::seed_from_u64(r.gen()));
                let pace = [5, 50, 300][r.gen_range(0..3)];
                hs.push(set.spawn_local(async move {
                    for _ in 0..50 {
                        for _ in 0..q.gen_range(0..pace) { turn().await }
                        if left.get() == 0 || ep.dead.get() { break }
                        match kind { 0 => ep.flush().await, 1 => ep.sync().await, _ => ep.clean(&mut q).await }
                    }
                }));
            }
            let w = set.run_until(async { tokio::time::timeout(Duration::from_secs(1000), futures::future::join_all(hs)).await }).await;
            match w {
                Err(_) => ep.bad("stuck".into()),
                Ok(v) => if v.iter().any(|x| x.is_err()) { ep.bad(format!("PANIC {}", last_panic())) },
            }
        }
        ep.look(&mut r).await;
        if r.gen_bool(0.6) {
            ep.sync().await;
            if r.gen_bool(0.4) { ep.clean(&mut r).await; if r.gen_bool(0.5) { ep.look(&mut r).await; ep.sync().await } else { ep.sync().await } }
            ep.look(&mut r).await;
            if !ep.dead.get() && r.gen_bool(0.5) {
                // What was serialized is the whole tree
                let od = ep.tree.borrow().serialize().unwrap();
                ep.m.0.lock().unwrap().cache.clear();
                *ep.tree.borrow_mut() = Arc::new(Tree::open(ep.dev.clone(), ep.seq, od));
                ep.look(&mut r).await;
            }
        }
    }
    if !ep.dead.get() {
        let c = ep.borrow(ep.cr.2).await;
        let t = ep.tree.borrow().clone();
        let g = *ep.txg.read().await;
        if r.gen_bool(0.3) { ep.op(json!({"op":"rdel","lo":["u",0],"hi":["u",0]}), { let t = t.clone(); async move { t.range_delete(.., g, c).await?; Ok(json!(0)) } }).await; }
        else { ep.dev.repay(c) }
        ep.look(&mut r).await;
        // Dropping it repays what it has
        if KK::USES_CREDIT {
            drop(t);
            let ep = Rc::try_unwrap(ep).unwrap_or_else(|_| panic!("busy"));
            ep.tree.into_inner();
            let lent = ep.m.0.lock().unwrap().lent;
            ep.rows.borrow_mut().push(json!({"e":"dropped","lent":lent}));
            let mut rows = ep.rows.into_inner();
            return rows
        }
    }
    let rows = ep.rows.borrow().clone();
    std::mem::forget(ep);
    rows
}
pub fn run(path: &str, seed: u64, scale: usize) {
    let mut out = Out::new(path);
    for e in 0..scale {
        let rt = runtime();
        let only = std::env::var("VERIF_EP").ok().map(|x| x.parse::<usize>().unwrap());
        if only.is_some_and(|x| x != e) { continue }
        let rows = rt.block_on(async {
            let s = seed * 100_000 + e as u64;
            if e % 2 == 0 { episode::<Num, Big>(s).await } else { episode::<RID, Small>(s).await }
        });
        for x in rows { out.ev(x) }
    }
}
