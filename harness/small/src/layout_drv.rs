use super::*;
use small::raid::{declust::*, prime_s::PrimeS};

fn cid(c: &ChunkId) -> Value {
    match c { ChunkId::Data(a) => json!([*a as i64, -1]), ChunkId::Parity(a, i) => json!([*a as i64, *i]) }
}

fn mk(a: u64, p: i64) -> ChunkId { if p < 0 { ChunkId::Data(a) } else { ChunkId::Parity(a, p as i16) } }

/// Every chunk of the stripes from..to
fn chunks(m: u64, f: i64, from: u64, to: u64) -> Vec<ChunkId> {
    let mut v = vec![];
    for s in from..to {
        for b in 0..m { v.push(mk(s * m + b, -1)) }
        for p in 0..f { v.push(mk(s * m, p)) }
    }
    v
}

fn layout(out: &mut Out, rng: &mut StdRng, n: i16, k: i16, f: i16, exhaustive: bool) {
    let l = match catch(|| PrimeS::new(n, k, f)) {
        Ok(l) => l,
        Err(_) => { out.ev(json!({"e": "new", "n": n, "k": k, "f": f, "r": "panic"})); return }
    };
    let get = |g: &dyn Fn() -> i64| catch(|| g()).unwrap_or(-99);
    out.ev(json!({"e": "new", "n": n, "k": k, "f": f, "r": "ok", "dc": get(&|| l.datachunks() as i64),
        "depth": get(&|| l.depth() as i64), "disks": get(&|| l.disks() as i64),
        "prot": get(&|| l.protection() as i64), "ss": get(&|| l.stripesize() as i64)}));
    let m = (k - f) as u64;
    let spr = n as u64 * (n as u64 - 1);  // Stripes per repetition
    let loc = |out: &mut Out, id: ChunkId| {
        match catch(|| { let l1 = l.id2loc(id); let back = l.loc2id(l1.clone()); (l1, back) }) {
            Ok((x, back)) => out.ev(json!({"e": "loc", "id": cid(&id), "d": x.disk, "o": x.offset as i64, "back": cid(&back)})),
            Err(_) => out.ev(json!({"e": "loc", "id": cid(&id), "d": "panic"})),
        }
    };
    let inv = |out: &mut Out, d: i16, o: u64| {
        match catch(|| l.loc2id(Chunkloc::new(d, o))) {
            Ok(id) => out.ev(json!({"e": "inv", "d": d, "o": o as i64, "id": cid(&id)})),
            Err(_) => out.ev(json!({"e": "inv", "d": d, "o": o as i64, "id": "panic"})),
        }
    };
    let iter = |out: &mut Out, a: ChunkId, b: ChunkId, max: usize| {
        match catch(|| l.iter(a, b).take(max).collect::<Vec<_>>()) {
            Ok(v) => out.ev(json!({"e": "iter", "a": cid(&a), "b": cid(&b), "max": max,
                "v": v.iter().map(|(i, x)| json!([cid(i), x.disk, x.offset as i64])).collect::<Vec<_>>()})),
            Err(_) => out.ev(json!({"e": "iter", "a": cid(&a), "b": cid(&b), "max": max, "v": "panic"})),
        }
    };
    // Far from the beginning.  Numbers that TLC can't hold are given as repetition and remainder
    let (dc, dep) = (spr * m, k as u64 * (n as u64 - 1));
    for _ in 0..6 {
        let rep = match rng.gen_range(0..4) {
            0 => rng.gen_range(1..100u64),
            1 => rng.gen_range(0..(1u64 << 32)),
            2 => ((1u64 << 32) / dc.max(1)) + rng.gen_range(0..3),
            _ => ((1u64 << 31) / dep) + rng.gen_range(0..3),
        };
        if rep.checked_mul(dc * 2).is_none() || rep > 1 << 45 { continue }
        let c = chunks(m, f as i64, 0, spr.min(40));
        let near = c[rng.gen_range(0..c.len())];
        let id = match near { ChunkId::Data(a) => ChunkId::Data(a + rep * dc), ChunkId::Parity(a, i) => ChunkId::Parity(a + rep * dc, i) };
        let red = |c: ChunkId| match c {
            ChunkId::Data(a) => json!([(a / dc).to_string(), (a % dc) as i64, -1]),
            ChunkId::Parity(a, i) => json!([(a / dc).to_string(), (a % dc) as i64, i]),
        };
        match catch(|| { let l1 = l.id2loc(id); let back = l.loc2id(l1.clone()); (l1, back, l.iter(id, mk(u64::MAX / 2 / m * m, -1)).nth(1)) }) {
            Ok((x, back, nx)) => out.ev(json!({"e": "far", "rep": rep.to_string(), "id": cid(&near), "d": x.disk,
                "orep": (x.offset / dep).to_string(), "o": (x.offset % dep) as i64, "back": red(back),
                "next": nx.map(|(i, x)| json!([red(i), x.disk, (x.offset / dep).to_string(), (x.offset % dep) as i64])).unwrap_or(json!("none"))})),
            Err(_) => out.ev(json!({"e": "far", "id": cid(&near), "rep": rep.to_string(), "d": "panic"})),
        }
    }
    let all = if exhaustive {
        chunks(m, f as i64, 0, spr + 2)
    } else {
        let mut v = vec![];
        for _ in 0..6 {
            let s = match rng.gen_range(0..4) {
                0 => rng.gen_range(0..spr),
                1 => spr - 1 + rng.gen_range(0..2),
                2 => (n as u64) * rng.gen_range(1..n as u64) - rng.gen_range(0..2),
                _ => spr * rng.gen_range(1..5) + rng.gen_range(0..spr),
            };
            let c = chunks(m, f as i64, s, s + 1);
            for _ in 0..4 { v.push(c[rng.gen_range(0..c.len())]) }
        }
        v
    };
    for id in all { loc(out, id) }
    let depth = k as u64 * (n as u64 - 1);
    if exhaustive {
        for d in 0..n { for o in 0..depth { inv(out, d, o) } }
        iter(out, mk(0, -1), mk((spr + 1) * m, -1), 100_000);
    } else {
        for _ in 0..8 { inv(out, rng.gen_range(0..n), rng.gen_range(0..(3 * depth))) }
    }
    for _ in 0..8 {
        // From anywhere, across the borders of iterations and repetitions
        let s = match rng.gen_range(0..3) {
            0 => rng.gen_range(0..(2 * spr)),
            1 => (n as u64 * rng.gen_range(1..(n as u64 + 1))).saturating_sub(rng.gen_range(0..3)),
            _ => spr - rng.gen_range(0..3.min(spr)),
        };
        let c = chunks(m, f as i64, s, s + rng.gen_range(1..5));
        let i = rng.gen_range(0..c.len());
        let mut j = rng.gen_range(i..c.len());
        let e = if rng.gen_bool(0.5) { c[j] } else { mk((s + 5) * m, -1) };
        iter(out, c[i], e, 60);
    }
}

pub fn run(out: &mut Out, rng: &mut StdRng, scale: usize) {
    for n in [2, 3, 5, 7] {
        for k in 2..=n { for f in 1..k { layout(out, rng, n, k, f, true) } }
    }
    // Layouts that can't exist
    for n in -1..=260i16 {
        for (k, f) in [(3, 1), (n, 1), (n.saturating_add(1), 1), (n, n), (1, 0), (2, 0), (2, 2), (3, -1), (0, 0)] {
            let prime = n > 1 && (2..n).all(|d| n % d != 0);
            if prime && n <= 215 && k > 1 && k <= n && f > 0 && f < k { continue }
            let r = catch(|| PrimeS::new(n, k, f));
            if r.is_ok() || rng.gen_range(0..20) == 0 {
                out.ev(json!({"e": "bad", "n": n, "k": k, "f": f, "r": if r.is_ok() { "ok" } else { "panic" }}));
            }
        }
    }
    let primes = [11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107,
        109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211i16];
    for (i, n) in primes.iter().enumerate() {
        for _ in 0..scale {
            let k = match rng.gen_range(0..3) { 0 => *n, 1 => rng.gen_range(2..=*n), _ => rng.gen_range(2..=12.min(*n)) };
            let f = rng.gen_range(1..k.min(7));
            layout(out, rng, *n, k, f, false);
        }
    }
    if scale > 1 {
        for k in [3, 5, 10, 11] { layout(out, rng, 11, k, 1 + (k > 4) as i16, true) }
        layout(out, rng, 13, 7, 2, true);
    }
}
