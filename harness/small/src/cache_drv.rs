use super::*;
use small::cache::{Cache, Cacheable, CacheRef, Key};
use futures::{Future, FutureExt, channel::oneshot};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

fn key(i: usize) -> Key {
    // Both kinds
    if i % 2 == 0 { Key::Rid(RID(i as u64 / 2)) } else { Key::PBA(PBA::new(0, i as u64 / 2)) }
}

fn buf(k: usize, len: usize) -> DivBufShared { DivBufShared::from(vec![k as u8 + 1; len]) }

/// Histories of a cache of blocks
pub fn lru(out: &mut Out, rng: &mut StdRng, scale: usize) {
    for ep in 0..(60 * scale) {
        let cap = [1, 3, 10, 10, 20, 50][rng.gen_range(0..6)];
        let nkeys = rng.gen_range(2..7usize);
        let mut c = Cache::with_capacity(cap);
        out.ev(json!({"e": "new", "cap": c.capacity()}));
        // The size of a key's block is fixed while it is cached
        let mut sizes: Vec<usize> = (0..nkeys).map(|_| rng.gen_range(0..=cap.min(8))).collect();
        let mut held: Vec<Option<Box<DivBuf>>> = (0..nkeys).map(|_| None).collect();
        let holds = rng.gen_bool(0.5);
        for _ in 0..60 {
            let i = rng.gen_range(0..nkeys);
            let k = key(i);
            let op = rng.gen_range(0..if holds { 25 } else { 20 });
            if rng.gen_range(0..150) == 0 && sizes[i] > 0 {
                // A different block of the same name.  If that's noticed, then that's the end
                let r = catch(|| c.insert(k, Box::new(buf(i + 100, sizes[i]))));
                out.ev(json!({"e": "conf", "k": i, "n": sizes[i], "r": if r.is_err() { "panic" } else { "ok" }}));
                break;
            }
            let r = catch(|| {
                match op {
                    0..=7 => {
                        if c.get_ref(&k).is_none() && rng.gen_bool(0.3) { sizes[i] = rng.gen_range(0..=cap.min(8)) }
                        c.insert(k, Box::new(buf(i, sizes[i])));
                        json!({"e": "ins", "k": i, "n": sizes[i]})
                    }
                    8..=13 => match c.get::<DivBuf>(&k) {
                        None => json!({"e": "get", "k": i, "r": -1}),
                        Some(d) => json!({"e": "get", "k": i, "r": d.len(), "ok": d.iter().all(|b| *b == i as u8 + 1)}),
                    },
                    14..=15 => match c.get_ref(&k) {
                        None => json!({"e": "ref", "k": i, "r": -1}),
                        Some(d) => {
                            let d = d.serialize();
                            json!({"e": "ref", "k": i, "r": d.len(), "ok": d.iter().all(|b| *b == i as u8 + 1)})
                        }
                    },
                    16..=18 => match { held[i] = None; c.remove(&k) } {
                        None => json!({"e": "rem", "k": i, "r": -1}),
                        Some(d) => {
                            let d = d.downcast::<DivBufShared>().unwrap();
                            json!({"e": "rem", "k": i, "r": d.len(),
                                   "ok": d.try_const().unwrap().iter().all(|b| *b == i as u8 + 1)})
                        }
                    },
                    20..=22 => match c.get::<DivBuf>(&k) {
                        None => json!({"e": "hold", "k": i, "r": -1}),
                        Some(d) => {
                            let r = json!({"e": "hold", "k": i, "r": d.len(), "ok": d.iter().all(|b| *b == i as u8 + 1)});
                            held[i] = Some(d);
                            r
                        }
                    },
                    23..=24 => { held[i] = None; json!({"e": "rel", "k": i}) }
                    _ => { if rng.gen_range(0..4) == 0 { c.drop_cache(); json!({"e": "drop"}) } else { json!({"e": "nop"}) } }
                }
            });
            match r {
                Ok(mut v) => { v["size"] = json!(c.size()); v["cap"] = json!(c.capacity()); out.ev(v) }
                Err(_) => { out.ev(json!({"e": "panic", "op": op})); break }
            }
        }
    }
}

/// Histories of concurrent readers of a cached store
pub fn flight(out: &mut Out, rng: &mut StdRng, scale: usize) {
    type Fut = std::pin::Pin<Box<dyn Future<Output = Result<Box<DivBuf>>> + Send>>;
    for ep in 0..(150 * scale) {
        let cap = [4, 8, 12][rng.gen_range(0..3)];
        let cache = Arc::new(Mutex::new(Cache::with_capacity(cap)));
        out.ev(json!({"e": "new", "cap": cap}));
        let nkeys = 3usize;
        let nread = 4usize;
        // Reads from the store that are under way
        let reads: Arc<Mutex<Vec<(usize, oneshot::Sender<Result<Box<DivBufShared>>>)>>> = Default::default();
        let mut futs: Vec<Option<(usize, Fut)>> = (0..nread).map(|_| None).collect();
        let mut cx = Context::from_waker(futures::task::noop_waker_ref());
        let steps = 40;
        let mut dead = false;
        for step in 0..(steps + 60) {
            let drain = step >= steps;
            let r = catch(|| {
                let t = if drain { step % nread } else { rng.gen_range(0..nread) };
                match rng.gen_range(0..6) {
                    0..=1 if !drain && futs[t].is_none() => {
                        let k = rng.gen_range(0..nkeys);
                        let (tx, rx) = oneshot::channel();
                        let mut started = false;
                        let f = getter::get(&cache, key(k), || {
                            started = true;
                            reads.lock().unwrap().push((k, tx));
                            rx.map(|r| r.unwrap_or(Err(Error::EDOOFUS))).boxed()
                        });
                        out.ev(json!({"e": "call", "t": t, "k": k, "read": started}));
                        futs[t] = Some((k, f));
                    }
                    2 if !drain && futs[t].is_some() => {
                        out.ev(json!({"e": "abandon", "t": t}));
                        futs[t] = None;
                        // Reads whose reader is gone are gone, too
                        reads.lock().unwrap().retain(|(_, tx)| !tx.is_canceled());
                    }
                    3 => {
                        let mut g = reads.lock().unwrap();
                        if !g.is_empty() {
                            let i = rng.gen_range(0..g.len());
                            let (k, tx) = g.swap_remove(i);
                            drop(g);
                            let fail = rng.gen_range(0..4) == 0;
                            out.ev(json!({"e": "done", "k": k, "ok": !fail}));
                            let _ = tx.send(if fail { Err(Error::EINTEGRITY) } else { Ok(Box::new(buf(k, 4))) });
                        }
                    }
                    _ => if let Some((k, mut f)) = futs[t].take() {
                        match f.as_mut().poll(&mut cx) {
                            Poll::Pending => { out.ev(json!({"e": "pend", "t": t})); futs[t] = Some((k, f)) }
                            Poll::Ready(Ok(d)) =>
                                out.ev(json!({"e": "ret", "t": t, "ok": true,
                                    "good": d.len() == 4 && d.iter().all(|b| *b == k as u8 + 1)})),
                            Poll::Ready(Err(_)) => out.ev(json!({"e": "ret", "t": t, "ok": false, "good": true})),
                        }
                    }
                }
                if drain {
                    // Finish every read
                    let mut g = reads.lock().unwrap();
                    if let Some((k, tx)) = g.pop() {
                        drop(g);
                        out.ev(json!({"e": "done", "k": k, "ok": true}));
                        let _ = tx.send(Ok(Box::new(buf(k, 4))));
                    }
                }
            });
            if r.is_err() { out.ev(json!({"e": "panic"})); dead = true; break }
        }
        if !dead {
            let waiting = futs.iter().filter(|f| f.is_some()).count();
            out.ev(json!({"e": "end", "waiting": waiting}));
        }
        // A poisoned mutex must not kill us
        let _ = catch(move || drop(futs));
    }
}
