//! Runs the real writeback-credit bank under Shuttle's controlled scheduler
//! and writes one API-level history per explored schedule.

use wbcore::writeback;

use ::std::collections::{BTreeMap, HashSet};
use ::std::io::Write as _;
use ::std::sync::{Arc, Mutex};
use futures::FutureExt;
use serde_json::{json, Value};
use writeback::{Credit, WriteBack};

/// One thread's program
#[derive(Clone, Debug, serde_derive::Deserialize)]
enum Op {
    /// Borrow this much, then repay it all in one piece
    B(usize),
    /// Borrow, then repay in two unequal pieces
    S(usize, usize),
    /// Poll a borrow once; if it isn't ready, abandon it
    X(usize),
    /// Borrow and hold until the end of the program; then repay
    H(usize),
    /// Borrow two loans and repay them as one
    M(usize, usize),
}

type Log = Arc<Mutex<Vec<Value>>>;

fn thread_main(t: usize, wb: Arc<WriteBack>, prog: Vec<Op>, log: Log) {
    let mut held: Vec<(usize, Credit)> = vec![];
    let ev = |v: Value| log.lock().unwrap().push(v);
    let borrow = |n: usize, abandon: bool| -> Option<Credit> {
        ev(json!({"e": "b", "t": t, "n": n}));
        let mut fut = Box::pin(wb.borrow(n));
        // The first poll
        let mut cx = ::std::task::Context::from_waker(futures::task::noop_waker_ref());
        match ::std::future::Future::poll(fut.as_mut(), &mut cx) {
            ::std::task::Poll::Ready(c) => {
                ev(json!({"e": "g", "t": t, "n": n}));
                return Some(c);
            }
            ::std::task::Poll::Pending => ev(json!({"e": "p", "t": t})),
        }
        if abandon {
            ev(json!({"e": "x", "t": t}));
            drop(fut);
            ev(json!({"e": "xd", "t": t}));
            return None;
        }
        let c = shuttle::future::block_on(fut);
        ev(json!({"e": "g", "t": t, "n": n}));
        Some(c)
    };
    let repay = |n: usize, c: Credit| {
        let ok = c == n;
        ev(json!({"e": "r", "t": t, "n": n, "ok": ok}));
        wb.repay(c);
        ev(json!({"e": "rd", "t": t}));
    };
    for op in prog {
        match op {
            Op::B(n) => { let c = borrow(n, false).unwrap(); repay(n, c) }
            Op::S(n, k) => {
                let mut c = borrow(n, false).unwrap();
                let d = c.split(k);
                repay(k, d);
                repay(n - k, c);
            }
            Op::X(n) => {
                if let Some(c) = borrow(n, true) { repay(n, c) }
            }
            Op::H(n) => { let c = borrow(n, false).unwrap(); held.push((n, c)); }
            Op::M(a, b) => {
                let mut c = borrow(a, false).unwrap();
                repay(a - a / 2, c.split(a - a / 2));
                let d = borrow(b, false).unwrap();
                c.extend(d);
                repay(a / 2 + b, c);
            }
        }
    }
    for (n, c) in held { repay(n, c) }
}

fn scenario(cap: usize, progs: &[Vec<Op>], log: Log) {
    let wb = Arc::new(WriteBack::with_capacity(cap));
    let hs: Vec<_> = progs.iter().cloned().enumerate().map(|(t, p)| {
        let wb = wb.clone();
        let log = log.clone();
        shuttle::thread::spawn(move || thread_main(t, wb, p, log))
    }).collect();
    for h in hs { h.join().unwrap(); }
    // Everything has been repaid, so the bank must be able to lend it all
    let c = wb.borrow(cap).now_or_never();
    log.lock().unwrap().push(json!({"e": "end", "full": c.is_some()}));
    if let Some(c) = c { wb.repay(c) }
}

/// One thread plays several borrowers, polling by hand, so that everything is
/// quiet after each step and the outcome of each is determined.
fn sequential(cap: usize, nact: usize, steps: usize, rng: &mut rand::rngs::StdRng) -> Vec<Value> {
    use rand::Rng;
    type Fut<'a> = ::std::pin::Pin<Box<dyn ::std::future::Future<Output = Credit> + 'a>>;
    enum A<'a> { Idle, Waiting(usize, Fut<'a>), Has(usize, Credit) }
    let wb = WriteBack::with_capacity(cap);
    let mut log = vec![];
    let mut acts: Vec<A> = (0..nact).map(|_| A::Idle).collect();
    let mut cx = ::std::task::Context::from_waker(futures::task::noop_waker_ref());
    for step in 0..(steps + 100 * nact) {
        let draining = step >= steps;
        let t = if draining { step % nact } else { rng.gen_range(0..nact) };
        let a = ::std::mem::replace(&mut acts[t], A::Idle);
        acts[t] = match a {
            A::Idle if draining => A::Idle,
            A::Idle => {
                let n = if rng.gen_range(0..8) == 0 { cap } else { rng.gen_range(0..cap + 1) };
                log.push(json!({"e": "b", "t": t, "n": n}));
                let mut fut: Fut = Box::pin(wb.borrow(n));
                match fut.as_mut().poll(&mut cx) {
                    ::std::task::Poll::Ready(c) => {
                        log.push(json!({"e": "g", "t": t, "n": n}));
                        A::Has(n, c)
                    }
                    ::std::task::Poll::Pending => {
                        log.push(json!({"e": "p", "t": t}));
                        A::Waiting(n, fut)
                    }
                }
            }
            A::Waiting(n, mut fut) => match fut.as_mut().poll(&mut cx) {
                ::std::task::Poll::Ready(c) => {
                    log.push(json!({"e": "g", "t": t, "n": n}));
                    A::Has(n, c)
                }
                ::std::task::Poll::Pending => {
                    log.push(json!({"e": "p", "t": t}));
                    if draining || rng.gen_range(0..4) > 0 {
                        A::Waiting(n, fut)
                    } else {
                        log.push(json!({"e": "x", "t": t}));
                        drop(fut);
                        log.push(json!({"e": "xd", "t": t}));
                        A::Idle
                    }
                }
            },
            A::Has(n, mut c) => {
                if n > 1 && rng.gen_range(0..3) == 0 {
                    // Repay in part
                    let k = rng.gen_range(1..n);
                    let d = c.split(k);
                    log.push(json!({"e": "r", "t": t, "n": k, "ok": d == k}));
                    wb.repay(d);
                    log.push(json!({"e": "rd", "t": t}));
                    A::Has(n - k, c)
                } else {
                    log.push(json!({"e": "r", "t": t, "n": n, "ok": c == n}));
                    wb.repay(c);
                    log.push(json!({"e": "rd", "t": t}));
                    A::Idle
                }
            }
        };
        if draining && acts.iter().all(|a| matches!(a, A::Idle)) { break }
    }
    if acts.iter().any(|a| !matches!(a, A::Idle)) {
        log.push(json!({"e": "stuck", "msg": "somebody still waits though everything is repaid"}));
        ::std::mem::forget(acts);
        return log;
    }
    let c = wb.borrow(cap).now_or_never();
    log.push(json!({"e": "end", "full": c.is_some()}));
    if let Some(c) = c { wb.repay(c) }
    log
}

/// One thread moves credit about among several purses
fn purses(cap: usize, np: usize, steps: usize, rng: &mut rand::rngs::StdRng, log: &Log) {
    use rand::Rng;
    let wb = WriteBack::with_capacity(cap);
    let mut ps: Vec<Credit> = (0..np).map(|_| Credit::null()).collect();
    for _ in 0..steps {
        let (i, j) = (rng.gen_range(0..np), rng.gen_range(0..np));
        let vals: Vec<isize> = ps.iter_mut().map(|p| &mut *p + 0).collect();
        let v = vals[i];
        let n = match rng.gen_range(0..4) { 0 => rng.gen_range(0..=cap), 1 => v.max(0) as usize, 2 => (v + 1).max(0) as usize,
            _ => rng.gen_range(0..=(v.max(0) as usize)) };
        let mut e = match rng.gen_range(0..12) {
            0..=2 => {
                // What the bank must have
                let n = n.min((cap as isize - vals.iter().sum::<isize>()).max(0) as usize);
                match wb.borrow(n).now_or_never() {
                    Some(c) => { ps[i].extend(c); json!({"e": "borrow", "i": i, "n": n, "ok": true}) }
                    None => json!({"e": "borrow", "i": i, "n": n, "ok": false}),
                }
            }
            3 => { let c = ps[i].split(n); let mut c = c; let r = &mut c + 0; ps[j].extend(c); json!({"e": "split", "i": i, "j": j, "n": n, "r": r}) }
            4 => { let mut c = ps[i].atomic_split(n); let r = &mut c + 0; ps[j].extend(c); json!({"e": "asplit", "i": i, "j": j, "n": n, "r": r}) }
            5 => {
                let m = if rng.gen_range(0..3) == 0 { -(n as isize) } else { n as isize };
                let mut c = ps[i].isplit(m); let r = &mut c + 0; ps[j].extend(c); json!({"e": "isplit", "i": i, "j": j, "n": m, "r": r})
            }
            6 => { let mut c = ps[i].halve(); let r = &mut c + 0; ps[j].extend(c); json!({"e": "halve", "i": i, "j": j, "r": r}) }
            7 => { let mut c = ps[i].take(); let r = &mut c + 0; ps[j].extend(c); json!({"e": "take", "i": i, "j": j, "r": r}) }
            8 => {
                let c = ::std::mem::replace(&mut ps[i], Credit::null());
                if vals.iter().all(|v| *v >= 0) { wb.repay(c); json!({"e": "repay", "i": i}) } else { ps[i].extend(c); json!({"e": "nop"}) }
            }
            9 => json!({"e": "cmp", "i": i, "n": n, "eq": ps[i] == n, "lt": ps[i] < n, "gt": ps[i] > n, "ge": ps[i] >= n,
                "null": ps[i].is_null()}),
            10 => { let a = &mut ps[i] + n; let s = &mut ps[i] - n; json!({"e": "arith", "i": i, "n": n, "a": a, "s": s}) }
            _ => {
                // Nothing is left of the credit that a dropped Credit held: so that's refused
                if v > 0 && rng.gen_range(0..steps) == 0 {
                    let c = ::std::mem::replace(&mut ps[i], Credit::null());
                    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| drop(c)));
                    log.lock().unwrap().push(json!({"e": "lose", "i": i, "noticed": r.is_err()}));
                    for p in ps { ::std::mem::forget(p) }
                    return;
                }
                json!({"e": "nop"})
            }
        };
        let vals: Vec<isize> = ps.iter_mut().map(|p| &mut *p + 0).collect();
        e["v"] = json!(vals);
        log.lock().unwrap().push(e);
    }
    let mut all = Credit::null();
    for mut p in ps { all.extend(p.take()); }
    let total = &mut all + 0;
    if total >= 0 { wb.repay(all) } else { ::std::mem::forget(all) }
    let c = wb.borrow(cap).now_or_never();
    log.lock().unwrap().push(json!({"e": "end", "total": total, "full": c.is_some()}));
    if let Some(c) = c { wb.repay(c) }
}

/// Several threads take pieces of one Credit
fn pieces(cap: usize, takes: &[Vec<usize>], log: &Log) {
    let wb = WriteBack::with_capacity(cap);
    let c = Arc::new(wb.borrow(cap).now_or_never().unwrap());
    let hs: Vec<_> = takes.iter().cloned().enumerate().map(|(t, ns)| {
        let (c, log) = (c.clone(), log.clone());
        shuttle::thread::spawn(move || {
            let mut purse = Credit::null();
            for n in ns {
                log.lock().unwrap().push(json!({"e": "call", "t": t, "n": n}));
                let mut d = c.atomic_split(n);
                let r = &mut d + 0;
                log.lock().unwrap().push(json!({"e": "ret", "t": t, "r": r}));
                purse.extend(d);
            }
            purse
        })
    }).collect();
    let mut all = Credit::null();
    for h in hs { all.extend(h.join().unwrap()) }
    let mut c = Arc::try_unwrap(c).unwrap();
    let left = &mut c + 0;
    all.extend(c);
    log.lock().unwrap().push(json!({"e": "left", "r": left, "all": all == cap}));
    wb.repay(all);
}

fn credits(path: &str, seed: u64, scale: usize) {
    use rand::{Rng, SeedableRng};
    let mut out = ::std::io::LineWriter::new(::std::fs::File::create(path).unwrap());
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let mut sc = shuttle::Config::new();
    sc.failure_persistence = shuttle::FailurePersistence::None;
    let panicked = |log: &Log| {
        let mut h = match log.lock() { Ok(g) => g.clone(), Err(p) => p.into_inner().clone() };
        h.push(json!({"e": "panic"}));
        h
    };
    for i in 0..(80 * scale) {
        let cap = [1usize, 2, 3, 7, 10, 16, 100, 1 << 20, 1 << 28][rng.gen_range(0..9)];
        let np = rng.gen_range(1..4);
        let log: Log = Default::default();
        let (l2, s) = (log.clone(), rng.gen());
        let body = move || {
            l2.lock().unwrap().clear();
            let mut rng = rand::rngs::StdRng::seed_from_u64(s);
            purses(cap, np, 40, &mut rng, &l2);
        };
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||
            shuttle::Runner::new(shuttle::scheduler::DfsScheduler::new(Some(1), false), sc.clone()).run(body)));
        writeln!(out, "{}", json!({"e": "new", "cap": cap, "np": np, "said": WriteBack::with_capacity(cap).capacity()})).unwrap();
        let h = if r.is_err() { panicked(&log) } else { log.lock().unwrap().clone() };
        for e in h { writeln!(out, "{e}").unwrap() }
    }
    for i in 0..(8 * scale) {
        let cap = rng.gen_range(1..12usize);
        let takes: Vec<Vec<usize>> = (0..rng.gen_range(2..4)).map(|_| (0..rng.gen_range(1..3)).map(|_| rng.gen_range(0..=cap)).collect()).collect();
        let seen: Arc<Mutex<HashSet<String>>> = Default::default();
        let all: Arc<Mutex<Vec<Vec<Value>>>> = Default::default();
        let log: Log = Default::default();
        let (l2, s2, a2) = (log.clone(), seen.clone(), all.clone());
        let body = move || {
            l2.lock().unwrap().clear();
            pieces(cap, &takes, &l2);
            let h = l2.lock().unwrap().clone();
            if s2.lock().unwrap().insert(serde_json::to_string(&h).unwrap()) { a2.lock().unwrap().push(h) }
        };
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||
            shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed ^ i as u64, 150), sc.clone()).run(body)));
        if r.is_err() { all.lock().unwrap().push(panicked(&log)) }
        for h in all.lock().unwrap().iter() {
            writeln!(out, "{}", json!({"e": "new", "cap": cap, "np": 0, "said": WriteBack::with_capacity(cap).capacity()})).unwrap();
            for e in h { writeln!(out, "{e}").unwrap() }
        }
    }
    out.flush().unwrap();
}

/// Readers of a cached store, each in its own thread
fn flight(path: &str, seed: u64, scale: usize) {
    use divbuf::{DivBuf, DivBufShared};
    use rand::{Rng, SeedableRng};
    use wbcore::{cache::{Cache, Key}, getter, types::{Error, RID}};
    let mut out = ::std::io::LineWriter::new(::std::fs::File::create(path).unwrap());
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    for i in 0..(12 * scale) {
        let cap = [0, 4, 8][rng.gen_range(0..3)];
        let nt = rng.gen_range(2..4usize);
        // For each thread, what it reads and whether that fails, should it come to the store
        let progs: Vec<Vec<(usize, bool)>> = (0..nt).map(|_| (0..rng.gen_range(1..4))
            .map(|_| (rng.gen_range(0..2), rng.gen_range(0..5) == 0)).collect()).collect();
        let seen: Arc<Mutex<HashSet<String>>> = Default::default();
        let all: Arc<Mutex<Vec<Vec<Value>>>> = Default::default();
        let log: Log = Default::default();
        let (l2, s2, a2) = (log.clone(), seen.clone(), all.clone());
        let body = move || {
            l2.lock().unwrap().clear();
            let cache = Arc::new(shimstd::sync::Mutex::new(Cache::with_capacity(cap.max(4))));
            let hs: Vec<_> = progs.iter().cloned().enumerate().map(|(t, p)| {
                let (cache, log) = (cache.clone(), l2.clone());
                shuttle::thread::spawn(move || for (k, fail) in p {
                    log.lock().unwrap().push(json!({"e": "call", "t": t, "k": k}));
                    let l3 = log.clone();
                    let f = getter::get(&cache, Key::Rid(RID(k as u64)), || {
                        l3.lock().unwrap().push(json!({"e": "read", "t": t, "k": k}));
                        Box::pin(async move {
                            shuttle::future::yield_now().await;
                            l3.lock().unwrap().push(json!({"e": "done", "t": t, "k": k, "ok": !fail}));
                            if fail { Err(Error::EINTEGRITY) } else { Ok(Box::new(DivBufShared::from(vec![k as u8 + 1; 4]))) }
                        })
                    });
                    let r = shuttle::future::block_on(f);
                    let v = match r {
                        Ok(d) => json!({"e": "ret", "t": t, "ok": true, "good": d.len() == 4 && d.iter().all(|b| *b == k as u8 + 1)}),
                        Err(_) => json!({"e": "ret", "t": t, "ok": false, "good": true}),
                    };
                    log.lock().unwrap().push(v);
                })
            }).collect();
            for h in hs { h.join().unwrap() }
            l2.lock().unwrap().push(json!({"e": "end"}));
            let h = l2.lock().unwrap().clone();
            if s2.lock().unwrap().insert(serde_json::to_string(&h).unwrap()) { a2.lock().unwrap().push(h) }
        };
        let mut sc = shuttle::Config::new();
        sc.failure_persistence = shuttle::FailurePersistence::None;
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| if i % 2 == 0 {
            shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed ^ i as u64, 300), sc).run(body)
        } else {
            shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed ^ i as u64, 3, 300), sc).run(body)
        }));
        if r.is_err() {
            let mut h = match log.lock() { Ok(g) => g.clone(), Err(p) => p.into_inner().clone() };
            h.push(json!({"e": "stuck"}));
            all.lock().unwrap().push(h);
        }
        for h in all.lock().unwrap().iter() {
            writeln!(out, "{}", json!({"e": "new"})).unwrap();
            for e in h { writeln!(out, "{e}").unwrap() }
        }
    }
    out.flush().unwrap();
}

#[derive(serde_derive::Deserialize)]
struct Cfg {
    cap: usize,
    #[serde(default)] progs: Vec<Vec<Op>>,
    #[serde(default)] dfs: usize,
    #[serde(default)] random: usize,
    #[serde(default)] pct: usize,
    #[serde(default)] seq: usize,
    #[serde(default)] actors: usize,
    #[serde(default)] steps: usize
}

fn main() {
    let args: Vec<String> = ::std::env::args().collect();
    let seed: u64 = args[3].parse().unwrap();
    ::std::panic::set_hook(Box::new(|_| {}));
    if args[1] == "flight" {
        return flight(&args[2], seed, args[4].parse().unwrap());
    }
    if args.len() > 4 {
        return credits(&args[2], seed, args[4].parse().unwrap());
    }
    let cfgs: Vec<Cfg> = serde_json::from_str(&::std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let mut out = ::std::io::BufWriter::new(::std::fs::File::create(&args[2]).unwrap());
    let mut total = 0u64;
    let mut distinct = 0u64;
    let mut stats = BTreeMap::new();
    for (ci, cfg) in cfgs.iter().enumerate() {
        let seen: Arc<Mutex<HashSet<String>>> = Default::default();
        let runs = Arc::new(::std::sync::atomic::AtomicU64::new(0));
        let mut hist: Vec<Vec<Value>> = vec![];
        let acc: Arc<Mutex<Vec<Vec<Value>>>> = Default::default();
        for mode in 0..3 {
            let n = [cfg.dfs, cfg.random, cfg.pct][mode];
            if n == 0 { continue }
            let cur: Log = Default::default();
            let (c2, s2, a2, r2) = (cur.clone(), seen.clone(), acc.clone(), runs.clone());
            let progs = cfg.progs.clone();
            let cap = cfg.cap;
            let body = move || {
                c2.lock().unwrap().clear();
                r2.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
                scenario(cap, &progs, c2.clone());
                let h = c2.lock().unwrap().clone();
                let k = serde_json::to_string(&h).unwrap();
                if s2.lock().unwrap().insert(k) { a2.lock().unwrap().push(h) }
            };
            let mut sc = shuttle::Config::new();
            sc.failure_persistence = shuttle::FailurePersistence::None;
            sc.max_steps = shuttle::MaxSteps::FailAfter(100_000);
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| match mode {
                0 => { shuttle::Runner::new(shuttle::scheduler::DfsScheduler::new(Some(n), false), sc).run(body); }
                1 => { shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed, n), sc).run(body); }
                _ => { shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed, 3, n), sc).run(body); }
            }));
            if let Err(e) = r {
                let msg = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let mut h = match cur.lock() { Ok(g) => g.clone(), Err(p) => p.into_inner().clone() };
                h.push(json!({"e": if msg.contains("deadlock") { "stuck" } else { "panic" }, "msg": msg}));
                hist.push(h);
            }
        }
        if cfg.seq > 0 {
            // Shuttle's primitives work only within a Shuttle execution
            let (s2, a2, r2) = (seen.clone(), acc.clone(), runs.clone());
            let (cap, actors, steps, n) = (cfg.cap, cfg.actors, cfg.steps, cfg.seq);
            for i in 0..n {
                let (s2, a2, r2) = (s2.clone(), a2.clone(), r2.clone());
                let body = move || {
                    use rand::SeedableRng;
                    r2.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
                    let mut rng = rand::rngs::StdRng::seed_from_u64(seed ^ ((ci as u64) << 32) ^ i as u64);
                    let h = match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||
                        sequential(cap, actors, steps, &mut rng)))
                    {
                        Ok(h) => h,
                        Err(_) => vec![json!({"e": "panic"})]
                    };
                    let k = serde_json::to_string(&h).unwrap();
                    if s2.lock().unwrap().insert(k) { a2.lock().unwrap().push(h) }
                };
                let mut sc = shuttle::Config::new();
                sc.failure_persistence = shuttle::FailurePersistence::None;
                let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||
                    shuttle::Runner::new(shuttle::scheduler::DfsScheduler::new(Some(1), false), sc).run(body)));
            }
        }
        hist.extend(acc.lock().unwrap().drain(..));
        total += runs.load(::std::sync::atomic::Ordering::SeqCst);
        distinct += hist.len() as u64;
        stats.insert(ci, (runs.load(::std::sync::atomic::Ordering::SeqCst), hist.len()));
        for h in hist {
            writeln!(out, "{}", json!({"e": "new", "cap": cfg.cap, "cfg": ci})).unwrap();
            for e in h { writeln!(out, "{e}").unwrap(); }
        }
    }
    out.flush().unwrap();
    println!("{}", json!({"schedules": total, "histories": distinct,
        "per_config": stats.iter().map(|(k, v)| json!([k, v.0, v.1])).collect::<Vec<_>>()}));
}
