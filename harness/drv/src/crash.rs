//! Power failures: what the disks might hold at any moment, and what a mount then finds
use crate::{fsd::*, rig::*};
use bfffs_core::{database::*, fs::*, fs_tree::{ExtAttr, ExtAttrNamespace}};
use futures::{FutureExt, StreamExt};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet}, ffi::OsStr, os::unix::{ffi::OsStrExt, fs::FileExt}, panic::AssertUnwindSafe, path::Path, sync::Arc,
    time::SystemTime,
};
use tokio_file::{Ev, Kind, Rec};

/// What a disk holds
pub type Blocks = BTreeMap<u64, Vec<u8>>;
const S: u64 = 4096;
fn put(m: &mut Blocks, off: u64, d: &[u8]) {
    assert!(off % S == 0 && d.len() as u64 % S == 0);
    for (k, c) in d.chunks(S as usize).enumerate() { m.insert(off / S + k as u64, c.to_vec()); }
}
pub fn save(m: &Blocks, dst: &Path, fsize: u64) {
    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(dst).unwrap();
    f.set_len(fsize).unwrap();
    for (k, c) in m { f.write_all_at(c, k * S).unwrap(); }
}

/// A device's contents after a power failure just after `t`.
///
/// Whatever was submitted before a sync that was complete by then is there.  Of the rest, any sectors may be.
pub fn image(j: &[Rec], t: u64, how: u8, rng: &mut StdRng, from: &Blocks) -> Blocks {
    let mut m = from.clone();
    // When each write became durable
    let mut writes: Vec<(u64, u64, Kind, u64, u64, Option<Arc<Vec<u8>>>, bool)> = vec![];  // (seq, id, kind, off, len, data, failed)
    let mut syncs: BTreeMap<u64, u64> = BTreeMap::new();
    let mut stable = 0;    // everything submitted before this is stable
    for r in j.iter().take_while(|r| r.seq <= t) {
        match &r.ev {
            Ev::Submit { id, kind, off, len, data } => match kind {
                Kind::Write | Kind::Erase => writes.push((r.seq, *id, *kind, *off, *len, data.clone(), false)),
                Kind::Sync => { syncs.insert(*id, r.seq); }
                Kind::Read => {}
            },
            Ev::Complete { id, err } => {
                if let Some(s) = syncs.remove(id) { if err.is_none() { stable = stable.max(s) } }
                else if err.is_some() { for w in writes.iter_mut().rev() { if w.1 == *id { w.6 = true; break } } }
            }
        }
    }
    for (seq, _, kind, off, len, data, failed) in writes {
        let keep = |rng: &mut StdRng| seq < stable && !failed || match how { 0 => false, 1 => true, 2 => rng.gen_bool(0.5), _ => rng.gen_bool(0.9) };
        match kind {
            Kind::Write => {
                let d = data.unwrap();
                if how != 2 && how != 3 || seq < stable { if keep(rng) { put(&mut m, off, &d); } }
                else {
                    // Torn
                    let whole = rng.gen_bool(0.5).then(|| rng.gen_bool(0.5));
                    if off < 8 * S && rng.gen_bool(0.5) {
                        // Half of the label's first block
                        let mut b = m.get(&(off / S)).cloned().unwrap_or(vec![0; S as usize]);
                        let cut = rng.gen_range(1..4) * 128;
                        b[..cut].copy_from_slice(&d[..cut]);
                        m.insert(off / S, b);
                        continue
                    }
                    for (k, c) in d.chunks(S as usize).enumerate() {
                        if whole.unwrap_or_else(|| keep(rng)) { put(&mut m, off + k as u64 * S, c); }
                    }
                }
            }
            _ => if keep(rng) { for k in off / S..(off + len) / S { m.remove(&k); } }
        }
    }
    m
}

pub struct Dumper { pub base: SystemTime }
impl Dumper {
    fn rel(&self, t: Timespec) -> i64 {
        let b = self.base.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as i64;
        (t.sec.saturating_mul(1_000_000_000)).saturating_add(t.nsec as i64).saturating_sub(b).div_euclid(1000).clamp(-2_000_000_000, 2_000_000_000)
    }
    /// Everything a user can see
    pub async fn dump(&self, fs: &Fs) -> Result<Vec<Value>, i32> {
        let mut out = vec![];
        let mut seen = BTreeSet::new();
        let mut todo = vec![(None::<u64>, 1u64)];
        while let Some((par, ino)) = todo.pop() {
            if !seen.insert(ino) { continue }
            let h = FileDataMut::new_for_tests(par, ino).handle();
            let x = fs.getattr(&h).await?;
            let mut v = attr_json(&x, |t| self.rel(t));
            let isdir = v["ty"] == "dir";
            let mut ents = vec![];
            if isdir {
                let mut st = Box::pin(fs.readdir(&h, 0));
                while let Some(d) = st.next().await {
                    let d = d?;
                    let nm: Vec<u8> = d.d_name[..d.d_namlen as usize].iter().map(|x| *x as u8).collect();
                    let nm = sn(&nm);
                    if nm != "." && nm != ".." {
                        todo.push((if d.d_type == libc::DT_DIR { Some(ino) } else { None }, d.d_fileno));
                    }
                    ents.push(json!([nm, d.d_fileno]));
                }
                if ents.len() > 5000 { return Err(libc::ELOOP) }
            }
            let mut runs = vec![];
            if v["ty"] == "reg" {
                let sg = fs.read(&h, 0, x.size as usize + 10).await?;
                let mut b = vec![];
                for x in sg.iter() { b.extend_from_slice(&x[..]) }
                if b.len() as u64 != x.size { return Err(libc::EMSGSIZE) }
                runs = decode(0, &b);
            }
            let tgt = if v["ty"] == "lnk" { sn(fs.readlink(&h).await?.as_bytes()) } else { String::new() };
            let f = |b: &mut Vec<u8>, x: &ExtAttr| {
                b.push(if x.namespace() == ExtAttrNamespace::User { b'U' } else { b'S' });
                b.push(b':');
                b.extend_from_slice(x.name().as_bytes());
                b.push(0);
            };
            let l = fs.listextattr(&h, 64, f).await?;
            let mut xa = vec![];
            for n in l.split(|x| *x == 0).filter(|x| !x.is_empty()) {
                let ns = if n[0] == b'U' { ExtAttrNamespace::User } else { ExtAttrNamespace::System };
                let b = fs.getextattr(&h, ns, OsStr::from_bytes(&n[2..])).await?;
                let d = decode(0, &b[..]);
                let tag = match &d[..] { [] => 0, [(0, e, t)] if *e == b.len() as u64 => *t, _ => -1 };
                xa.push(json!([sn(n), b.len(), tag]));
            }
            let o = v.as_object_mut().unwrap();
            o.insert("i".into(), ino.into());
            o.insert("ents".into(), ents.into());
            o.insert("runs".into(), json!(runs));
            o.insert("tgt".into(), tgt.into());
            o.insert("xa".into(), xa.into());
            out.push(v);
        }
        Ok(out)
    }
}

/// What a mount finds after a power failure, in a thread and a runtime of its own
pub fn recover(lay: Layout, js: Vec<Vec<Rec>>, t: u64, how: u8, seed: u64, tree: TreeID, base: SystemTime, lost: Vec<usize>, more: u8) -> Value {
    let r = std::thread::spawn(move || {
        let _ = last_panic();
        let rt = runtime();
        let r = rt.block_on(AssertUnwindSafe(async {
            let mut rng = StdRng::seed_from_u64(seed);
            let mut rig = Rig::new(lay.clone());
            let bases: Vec<Blocks> = js.iter().map(|j| image(j, t, how, &mut rng, &Blocks::new())).collect();
            for (i, b) in bases.iter().enumerate() { save(b, &rig.paths[i], lay.fsize); }
            rig.missing = lost.clone();
            let again = more == 2;
            if again {
                for dev in &rig.devs {
                    let mut st = dev.st.lock().unwrap();
                    st.record = true; st.record_data = true; st.rng ^= rng.gen::<u64>() | 1; st.max_delay = rng.gen_range(0..4);
                }
            }
            let db = match rig.import(16_000_000, None).await {
                Ok(d) => Arc::new(d),
                Err(e) => return json!({"r":ename(i32::from(e)),"stage":"import"}),
            };
            let check = match db.check().await { Ok(x) => x.to_string(), Err(e) => ename(e.into()) };
            let fs = Fs::new(db.clone(), tree).await;
            let _ = fs.set_prop(bfffs_core::property::Property::Atime(false)).await;
            let du = Dumper { base };
            let d = match du.dump(&fs).await {
                Ok(d) => d,
                Err(e) => return json!({"r":ename(e),"stage":"dump","check":check}),
            };
            let mut stable = true;
            let mut check2 = "true".to_string();
            if again {
                // Power fails again
                let root = fs.root().handle();
                let mut names: BTreeSet<String> = d.iter().filter(|v| v["i"] == 1).flat_map(|v| v["ents"].as_array().unwrap().iter())
                    .map(|e| e[0].as_str().unwrap().to_string()).collect();
                let mut hist = vec![(0, names.clone())];     // Since when, names
                let mut synced = vec![(0, 0)];               // Since when, history
                let s0 = tokio_file::now();
                for k in 0..rng.gen_range(1..6) {
                    let n = format!("zz{k}");
                    if rng.gen_bool(0.6) {
                        hist.push((tokio_file::now(), names.clone()));
                        let fd = fs.create(&root, &os(&n), 0o644, 0, 0).await.unwrap();
                        names.insert(n);
                        hist.last_mut().unwrap().1 = names.clone();
                        fs.write(&fd.handle(), 0, &vec![k as u8; 9000][..], 0).await.unwrap();
                        fs.inactive(fd).await;
                    } else {
                        fs.sync().await;
                        synced.push((tokio_file::now(), hist.len() - 1));
                    }
                }
                let s1 = tokio_file::now();
                let t = rng.gen_range(s0..=s1);
                let js: Vec<Vec<Rec>> = rig.devs.iter().map(|x| x.st.lock().unwrap().journal.clone()).collect();
                drop(fs);
                drop(db);
                let how = rng.gen_range(0..4);
                let mut rig2 = Rig::new(lay.clone());
                for (i, j) in js.iter().enumerate() { save(&image(j, t, how, &mut rng, &bases[i]), &rig2.paths[i], lay.fsize); }
                rig2.missing = lost;
                let from = synced.iter().rev().find(|x| x.0 <= t).unwrap().1;
                match rig2.import(16_000_000, None).await {
                    Ok(db) => {
                        let db = Arc::new(db);
                        check2 = match db.check().await { Ok(x) => x.to_string(), Err(e) => ename(e.into()) };
                        let fs = Fs::new(db.clone(), tree).await;
                        let _ = fs.set_prop(bfffs_core::property::Property::Atime(false)).await;
                        match du.dump(&fs).await {
                            Ok(n) => {
                                let strip = |d: &Vec<Value>| d.iter().filter(|v| v["i"] != 1).cloned().collect::<Vec<_>>();
                                let got: BTreeSet<String> = n.iter().filter(|v| v["i"] == 1).flat_map(|v| v["ents"].as_array().unwrap().iter())
                                    .map(|e| e[0].as_str().unwrap().to_string()).collect();
                                let new = strip(&n);
                                stable = strip(&d).iter().all(|x| new.contains(x))
                                    && hist[from..].iter().any(|h| h.0 <= t && h.1 == got);
                            }
                            Err(_) => stable = false,
                        }
                    }
                    Err(e) => check2 = ename(e.into()),
                }
            } else if more == 1 {
                // Go on with it: nothing that was there may suffer
                let root = fs.root().handle();
                for k in 0..12 {
                    let n = os(&format!("zz{k}"));
                    let fd = fs.create(&root, &n, 0o644, 0, 0).await.unwrap();
                    let b: Vec<u8> = (0..20000u64).map(|x| (x * 7 + k) as u8).collect();
                    fs.write(&fd.handle(), 0, &b[..], 0).await.unwrap();
                    if k % 5 == 4 { fs.sync().await; }
                    if k % 3 == 0 { fs.unlink(&root, None, &n).await.unwrap(); }
                    fs.inactive(fd).await;
                }
                fs.sync().await;
                db.drop_cache();
                let strip = |d: &Vec<Value>| d.iter().filter(|v| v["i"] != 1).map(|v| (v["i"].clone(), v.clone())).collect::<Vec<_>>();
                let old = strip(&d);
                match du.dump(&fs).await {
                    Ok(n) => { let new = strip(&n); stable = old.iter().all(|x| new.contains(x)) }
                    Err(_) => stable = false,
                }
                drop(fs);
                close(db).await;
                match rig.import(16_000_000, None).await {
                    Ok(db) => {
                        let db = Arc::new(db);
                        check2 = match db.check().await { Ok(x) => x.to_string(), Err(e) => ename(e.into()) };
                        let fs = Fs::new(db.clone(), tree).await;
                        match du.dump(&fs).await {
                            Ok(n) => { let new = strip(&n); stable &= old.iter().all(|x| new.contains(x)) }
                            Err(_) => stable = false,
                        }
                    }
                    Err(e) => check2 = ename(e.into()),
                }
            }
            json!({"r":"ok","check":check,"inos":d,"stable":stable,"check2":check2})
        }).catch_unwind());
        match r {
            Ok(v) => v,
            Err(_) => json!({"r":"PANIC","panic":last_panic()}),
        }
    }).join();
    r.unwrap_or_else(|_| json!({"r":"PANIC","panic":"?"}))
}

pub fn layouts() -> Vec<Layout> {
    let z = Some(256);
    vec![
        Layout { disks: 1, m: 1, k: 1, f: 0, nclusters: 1, fsize: 32 << 20, cs: None, zone: z },
        Layout { disks: 2, m: 2, k: 1, f: 0, nclusters: 1, fsize: 32 << 20, cs: None, zone: z },
        Layout { disks: 3, m: 1, k: 3, f: 1, nclusters: 1, fsize: 32 << 20, cs: Some(2), zone: z },
        Layout { disks: 2, m: 1, k: 1, f: 0, nclusters: 2, fsize: 32 << 20, cs: None, zone: z },
        Layout { disks: 5, m: 1, k: 5, f: 2, nclusters: 1, fsize: 32 << 20, cs: Some(1), zone: z },
        Layout { disks: 6, m: 2, k: 3, f: 1, nclusters: 1, fsize: 32 << 20, cs: Some(4), zone: z },
    ]
}
/// Uses up the zones of the first block of the space map
async fn fill(d: &mut Drv) {
    let a = "fill1".to_string();
    d.create_at("reg", 1, a.clone()).await;
    let i = d.nodes[&1].kids[&a];
    for k in 0..15 {
        if d.dead { return }
        d.write_at(i, k << 20, 1 << 20).await;
        d.sync().await;
    }
}

/// When the pool's first space map was being overwritten, though the first labels still said otherwise, if this
/// period of time includes such a moment
fn window(js: &[Vec<Rec>], s0: u64, zones: u64) -> Option<(u64, u64)> {
    let sm = zones.div_ceil(255);
    let mut a = u64::MAX;
    let mut b = 0;
    for j in js {
        let mut lab = None;
        let mut sync = None;
        let mut done = None;
        for r in j.iter().filter(|r| r.seq >= s0) {
            match &r.ev {
                Ev::Submit { kind: Kind::Write, off, .. } if *off >= 8 * S && *off < (8 + sm) * S => a = a.min(r.seq),
                Ev::Submit { kind: Kind::Write, off, .. } if *off < 4 * S => { lab.get_or_insert(r.seq); }
                Ev::Submit { kind: Kind::Sync, id, .. } if lab.is_some() && sync.is_none() => sync = Some(*id),
                Ev::Complete { id, .. } if sync == Some(*id) && done.is_none() => done = Some(r.seq),
                _ => {}
            }
        }
        b = b.max(done.unwrap_or(u64::MAX));
    }
    (a < u64::MAX).then_some((a, b))
}

pub fn run(path: &str, seed: u64, scale: usize) {
    let base = SystemTime::now();
    let mut out = Some(Out::new(path));
    for ep in 0..scale {
        let rt = runtime();
        rt.block_on(async {
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let ls = layouts();
            let mut lay = ls[ep % ls.len()].clone();
            lay.zone = Some([32, 64, 256][r.gen_range(0..3)]);
            if r.gen_bool(0.5) { lay.fsize = 8 << 20; }
            let full = ep % 12 == 9;
            if full { lay = Layout { disks: 1, m: 1, k: 1, f: 0, nclusters: 1, fsize: 32 << 20, cs: None, zone: Some(16) }; }
            let o = out.take().unwrap();
            let mut d = Drv::recorded(o, seed * 7919 + ep as u64, lay.clone(), 12, r.gen_bool(0.2), 16_000_000, base).await;
            d.max_off = 6 << 12;
            if full { fill(&mut d).await; }
            let steps = if full { 60 } else if r.gen_bool(0.3) { 450 } else { 160 };
            for dev in &d.rig.devs { dev.st.lock().unwrap().max_delay = r.gen_range(0..4); }
            let mut nsync = 0;
            for _ in 0..steps {
                if d.dead { break }
                let s0 = tokio_file::now();
                d.out.hold();
                if r.gen_bool(0.08) { d.sync().await } else if r.gen_bool(0.06) { d.quiet().await } else { d.step("crash").await }
                let rows = d.out.unhold();
                let s1 = tokio_file::now();
                let sync = rows.iter().any(|r| r["e"] == "sync");
                let remount = rows.iter().any(|r| r["e"] == "remount");
                let n = if d.dead { 0 } else if sync { nsync += 1; 2 } else if s1 > s0 && r.gen_bool(40.0 / steps as f64) { 1 } else { 0 };
                if !sync { for x in rows.iter() { d.out.ev(x.clone()); } }
                let js: Vec<Vec<Rec>> = d.rig.devs.iter().map(|x| x.st.lock().unwrap().journal.clone()).collect();
                let win = if n > 0 { window(&js, s0, lay.fsize / 4096 / lay.zone.unwrap()) } else { None };
                for _ in 0..n {
                    let t = r.gen_range(s0..=s1);
                    let js = js.clone();
                    let how = r.gen_range(0..4);
                    let more = [1, 1, 2, 2, 2, 0, 0, 0][r.gen_range(0..8)];
                    let mut v = recover(lay.clone(), js, t, how, r.gen(), d.tree, base, vec![], more);
                    v["e"] = "crash".into();
                    v["how"] = how.into();
                    v["more"] = more.into();
                    v["win"] = win.is_some_and(|(a, b)| a <= t && t < b).into();
                    v["at"] = json!([t - s0, s1 - s0]);
                    d.ev(v);
                }
                if sync { for x in rows.iter() { d.out.ev(x.clone()); } }
            }
            if std::env::var("VERIF_STAT").is_ok() {
                let mut n = [0; 4];
                for x in &d.rig.devs { for r in x.st.lock().unwrap().journal.iter() { if let Ev::Submit { kind, .. } = &r.ev { n[*kind as usize] += 1; } } }
                eprintln!("episode {ep}: {n:?} syncs {nsync}");
            }
            let Drv { out: o, fs, db, .. } = d;
            out = Some(o);
            drop(fs);
        });
        drop(rt);
        tokio_file::clear();
    }
}

/// The journals of the disks of an undisturbed system
pub fn journal(path: &str, seed: u64, scale: usize) {
    let base = SystemTime::now();
    let mut out = Out::new(path);
    for ep in 0..scale {
        let rt = runtime();
        let scrap = Scratch::new();
        let mut evs: Vec<(u64, Value)> = vec![];
        rt.block_on(async {
            let mut r = StdRng::seed_from_u64(seed * 1000 + ep as u64);
            let ls = layouts();
            let mut lay = ls[ep % ls.len()].clone();
            lay.zone = Some([32, 64, 256][r.gen_range(0..3)]);
            if r.gen_bool(0.5) { lay.fsize = 8 << 20; }
            out.ev(json!({"e":"new","disks":lay.disks}));
            let mut d = Drv::recorded(Out::new(scrap.0.join("t").to_str().unwrap()), seed * 7919 + ep as u64, lay.clone(), 12, r.gen_bool(0.2), 16_000_000, base).await;
            d.max_off = 6 << 12;
            for dev in &d.rig.devs { let mut st = dev.st.lock().unwrap(); st.max_delay = r.gen_range(0..4); st.record_data = false; }
            for _ in 0..if r.gen_bool(0.3) { 450 } else { 160 } {
                if d.dead { break }
                if r.gen_bool(0.08) { d.sync().await; evs.push((tokio_file::now(), json!({"e":"acked"}))); }
                else if r.gen_bool(0.06) { d.quiet().await } else { d.step("crash").await }
            }
            let sm = (lay.fsize / 4096 / lay.zone.unwrap()).div_ceil(255);
            for (i, x) in d.rig.devs.iter().enumerate() {
                let mut ids = BTreeSet::new();
                for r in x.st.lock().unwrap().journal.iter() {
                    if let Ev::Submit { id, kind, .. } = &r.ev { if *kind != Kind::Read { ids.insert(*id); } }
                    let v = match &r.ev {
                        Ev::Submit { kind: Kind::Read, .. } => continue,
                        Ev::Submit { kind: Kind::Sync, id, .. } => json!({"e":"s","d":i,"id":id}),
                        Ev::Submit { kind: Kind::Erase, id, off, len, .. } => json!({"e":"x","d":i,"id":id,"a":off/4096,"n":len/4096}),
                        Ev::Submit { kind: Kind::Write, id, off, len, .. } => {
                            let (a, n) = (off / 4096, len / 4096);
                            let (c, k) = if a < 8 { ("label", a / 4) } else if a < 8 + 2 * sm { ("map", (a - 8) / sm) } else { ("zone", 0) };
                            json!({"e":"w","d":i,"id":id,"c":if c == "zone" { c.to_string() } else { format!("{c}{k}") },"i":k,"a":a,"n":n})
                        }
                        Ev::Complete { id, .. } if !ids.contains(id) => continue,
                        Ev::Complete { id, .. } => json!({"e":"c","d":i,"id":id}),
                    };
                    evs.push((r.seq, v));
                }
            }
            evs.sort_by_key(|e| e.0);
            if d.dead { out.ev(json!({"e":"dead"})); }
            for (_, v) in evs.drain(..) { out.ev(v) }
        });
        drop(rt);
        tokio_file::clear();
    }
}
