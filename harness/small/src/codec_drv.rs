use super::*;
use fixedbitset::FixedBitSet;
use small::raid::codec::Codec;

fn cols(rng: &mut StdRng, k: usize, len: usize) -> Vec<Vec<u8>> {
    let style = rng.gen_range(0..5);
    (0..k).map(|i| (0..len).map(|p| match style {
        // Single nonzero bytes show each coefficient by itself
        0 => if p % k == i { rng.gen_range(1..=255) } else { 0 },
        1 => if p == i % len { 1 } else { 0 },
        _ => rng.gen(),
    }).collect()).collect()
}

/// Cut a column into random nonempty pieces
fn pieces(rng: &mut StdRng, col: &[u8]) -> SGList {
    let mut v = vec![];
    let mut rest = col;
    while !rest.is_empty() {
        let n = if rng.gen_range(0..3) == 0 { rest.len() } else { rng.gen_range(1..=rest.len()) };
        v.push(DivBufShared::from(rest[..n].to_vec()).try_const().unwrap());
        rest = &rest[n..];
    }
    v
}

fn one(out: &mut Out, rng: &mut StdRng, m: u32, f: u32, erasure_sets: usize, len: usize) {
    let codec = match catch(|| Codec::new(m, f)) {
        Ok(c) => c,
        Err(_) => { out.ev(json!({"e": "new", "m": m, "f": f, "r": "panic"})); return }
    };
    let k = (m - f) as usize;
    let f = f as usize;
    out.ev(json!({"e": "new", "m": m, "f": f, "r": "ok", "prot": codec.protection(), "ss": codec.stripesize()}));
    let data = cols(rng, k, len);
    let parity = |how: u32, rng: &mut StdRng| -> std::result::Result<Vec<Vec<u8>>, ()> {
        // A canary after each column
        let init = if how == 2 { 0 } else { rng.gen() };
        let mut par = vec![vec![init; len + 8]; f];
        for p in par.iter_mut() { for c in p[len..].iter_mut() { *c = 0xA5 } }
        let mut ptrs: Vec<*mut u8> = par.iter_mut().map(|p| p.as_mut_ptr()).collect();
        let refs: Vec<*const u8> = data.iter().map(|d| d.as_ptr()).collect();
        catch(|| unsafe {
            match how {
                0 => codec.encode(len, &refs, &mut ptrs),
                1 => {
                    let sgs: Vec<SGList> = data.iter().map(|d| pieces(rng, d)).collect();
                    codec.encodev(len, &sgs, &mut ptrs)
                }
                _ => {
                    let mut order: Vec<usize> = (0..k).collect();
                    for i in (1..k).rev() { order.swap(i, rng.gen_range(0..=i)) }
                    for i in order { codec.encode_update(len, &data[i], &mut ptrs, i as u32) }
                }
            }
        })?;
        for p in par.iter_mut() {
            if p[len..].iter().any(|c| *c != 0xA5) { return Err(()) }
            p.truncate(len);
        }
        Ok(par)
    };
    let mut good = None;
    for how in 0..3 {
        match parity(how, rng) {
            Ok(p) => {
                out.ev(json!({"e": "enc", "how": how, "d": data, "p": p}));
                if how == 0 { good = Some(p) }
            }
            Err(_) => out.ev(json!({"e": "enc", "how": how, "d": data, "p": "panic"})),
        }
    }
    let Some(par) = good else { return };
    let m = m as usize;
    // Every erasure set of up to f columns, or some of them
    let mut sets: Vec<Vec<usize>> = vec![];
    fn rec(s: &mut Vec<Vec<usize>>, cur: Vec<usize>, from: usize, m: usize, f: usize, limit: usize) {
        if s.len() >= limit { return }
        if !cur.is_empty() { s.push(cur.clone()) }
        if cur.len() == f { return }
        for i in from..m {
            let mut c = cur.clone();
            c.push(i);
            rec(s, c, i + 1, m, f, limit);
        }
    }
    rec(&mut sets, vec![], 0, m, f, 5000);
    if sets.len() >= 5000 {
        // Too many to list: draw some
        sets = (0..erasure_sets).map(|i| {
            let n = if i % 4 == 0 { rng.gen_range(1..=f) } else { f };
            let mut e: Vec<usize> = rand::seq::index::sample(rng, m, n).into_vec();
            if i % 3 == 0 {
                // Neighbours
                let a = rng.gen_range(0..=m - n);
                e = (a..a + n).collect();
            }
            e.sort();
            e
        }).collect();
    }
    while sets.len() > erasure_sets { let i = rng.gen_range(0..sets.len()); sets.swap_remove(i); }
    for e in sets {
        let missing: Vec<usize> = e.iter().copied().filter(|i| *i < k).collect();
        if missing.is_empty() { continue }
        let mut bits = FixedBitSet::with_capacity(m);
        for i in &e { bits.insert(*i) }
        let all: Vec<&Vec<u8>> = data.iter().chain(par.iter()).collect();
        let surv: Vec<*const u8> = (0..m).filter(|i| !e.contains(i)).take(k).map(|i| all[i].as_ptr()).collect();
        let mut rec = vec![vec![rng.gen(); len]; missing.len()];
        let mut ptrs: Vec<*mut u8> = rec.iter_mut().map(|p| p.as_mut_ptr()).collect();
        match catch(|| unsafe { codec.decode(len, &surv, &mut ptrs, &bits) }) {
            Ok(()) => out.ev(json!({"e": "dec", "lost": e, "missing": missing, "r": rec})),
            Err(_) => out.ev(json!({"e": "dec", "lost": e, "missing": missing, "r": "panic"})),
        }
    }
}

/// All coefficients of the code, by encoding unit vectors
fn coefs(out: &mut Out, m: u32, f: u32) {
    let k = (m - f) as usize;
    let r = catch(|| {
        let c = Codec::new(m, f);
        let data: Vec<Vec<u8>> = (0..k).map(|i| (0..k).map(|p| (p == i) as u8).collect()).collect();
        let mut par = vec![vec![0u8; k]; f as usize];
        let mut ptrs: Vec<*mut u8> = par.iter_mut().map(|p| p.as_mut_ptr()).collect();
        let refs: Vec<*const u8> = data.iter().map(|d| d.as_ptr()).collect();
        unsafe { c.encode(k, &refs, &mut ptrs) };
        par
    });
    out.ev(json!({"e": "coef", "m": m, "f": f, "r": r.map(|p| json!(p)).unwrap_or(json!("panic"))}));
}

fn word(r: std::result::Result<(), ()>) -> &'static str { if r.is_ok() { "ok" } else { "refused" } }

/// The matrices and the functions underneath.  Nothing that these calls are
/// given is really too small, so that calls that ought to be refused but
/// aren't do no harm.
fn low(out: &mut Out, rng: &mut StdRng, scale: usize) {
    use bfffs_isa_l::*;
    let mut vander = |out: &mut Out, m: u32, k: u32, n: usize| {
        let mut a = vec![0u8; (m * k) as usize + 512];
        let r: Vec<&[u8]> = match catch(|| gf_gen_rs_matrix(&mut a[..n], m, k)) {
            Ok(()) => a.chunks(k as usize).take(m as usize).collect(),
            Err(()) => vec![],
        };
        out.ev(json!({"e": "vander", "m": m, "k": k, "n": n, "r": r}));
    };
    for k in 1..=(24 + 8 * scale as u32).min(60) {
        for f in 1..=6 { vander(out, k + f, k, ((k + f) * k) as usize) }
    }
    for k in 1..=6 {
        for m in [k + 7, 9, 10, 11, 12, 24, 25, 26, 27, 40] { if m > k { vander(out, m, k, (m * k) as usize) } }
    }
    for (k, f) in [(61, 3), (100, 3), (100, 4), (200, 1), (254, 1), (80, 5)] { vander(out, k + f, k, ((k + f) * k) as usize) }
    for k in 1..6 { for d in [0, 1] { vander(out, k + 2, k, ((k + 2) * k) as usize + 2 * d - 1) } }
    for _ in 0..30 * scale {
        let (m, k) = (rng.gen_range(2..40u32), rng.gen_range(1..10u32));
        let n = (m * k) as usize + [0, 1, 8][rng.gen_range(0..3)] - rng.gen_range(0..2);
        let mut a = vec![0u8; 1024];
        if k < m {
            let r = word(catch(|| gf_gen_cauchy1_matrix(&mut a[..n], m, k)));
            out.ev(json!({"e": "cauchy", "m": m, "k": k, "n": n, "r": r}));
        }
    }
    let off = |rng: &mut StdRng, x: u32| -> u32 {
        match rng.gen_range(0..6) { 0 => x + 1, 1 => x - 1, 2 => x * 2, _ => x }
    };
    for _ in 0..60 * scale {
        let (k, f) = (rng.gen_range(1..9u32), rng.gen_range(1..5u32));
        let na = off(rng, f * k);
        let ng = off(rng, 32 * f * k);
        let a = vec![3u8; 1024];
        let mut g = vec![0u8; 32 * 1024];
        let r = word(catch(|| ec_init_tables(k, f, &a[..na as usize], &mut g[..ng as usize])));
        out.ev(json!({"e": "tables", "k": k, "f": f, "a": na, "n": ng, "r": r}));
        ec_init_tables(k, f, &a[..(f * k) as usize], &mut g[..(32 * f * k) as usize]);

        let len = rng.gen_range(1..50usize);
        let (ng, nd, np) = (off(rng, 32 * f * k), off(rng, k), off(rng, f));
        let src = vec![7u8; 256];
        let mut par = vec![vec![0u8; 256]; 64];
        let d: Vec<*const u8> = vec![src.as_ptr(); 64];
        let mut p: Vec<*mut u8> = par.iter_mut().map(|p| p.as_mut_ptr()).collect();
        let r = word(catch(|| unsafe {
            ec_encode_data(len, k, f, &g[..ng as usize], &d[..nd as usize], &mut p[..np as usize])
        }));
        out.ev(json!({"e": "encode", "k": k, "f": f, "g": ng, "d": nd, "p": np, "r": r}));
        let n = off(rng, len as u32);
        let i = if rng.gen_range(0..4) == 0 { k + rng.gen_range(0..2) } else { rng.gen_range(0..k) };
        let ng = off(rng, 32 * f * k);
        let np = off(rng, f);
        let r = word(catch(|| unsafe {
            ec_encode_data_update(len, k, f, i, &g[..ng as usize], &src[..n as usize], &mut p[..np as usize])
        }));
        out.ev(json!({"e": "update", "k": k, "f": f, "g": ng, "len": len, "n": n, "p": np, "i": i, "r": r}));
    }
    for _ in 0..60 * scale {
        let n = rng.gen_range(1..5usize);
        let style = rng.gen_range(0..4);
        let mut a: Vec<Vec<u8>> = (0..n).map(|_| (0..n).map(|_| match style {
            0 => rng.gen(),
            1 => rng.gen_range(0..2),
            2 => if rng.gen() { 0 } else { rng.gen() },
            _ => rng.gen_range(1..4),
        }).collect()).collect();
        if n > 1 && rng.gen_range(0..4) == 0 { let r = a[0].clone(); a[n - 1] = r }
        let extra = rng.gen_range(0..8);
        let mut flat: Vec<u8> = a.concat();
        let mut b = vec![0u8; n * n];
        if extra == 0 { flat.push(0) }
        if extra == 1 { b.push(0) }
        let r = match catch(|| gf_invert_matrix(&flat, &mut b, n as u32)) {
            Ok(Ok(())) => "ok", Ok(Err(_)) => "singular", Err(()) => "refused"
        };
        let b: Vec<&[u8]> = b.chunks(n).collect();
        out.ev(json!({"e": "invert", "a": a, "extra": extra < 2, "r": r, "b": b}));
    }
}

pub fn run(out: &mut Out, rng: &mut StdRng, scale: usize) {
    for f in 1..=4 {
        for m in (f + 1)..=(f + 6) { one(out, rng, m, f, 100 * scale, 16) }
    }
    for (m, f) in [(12, 1), (20, 4), (24, 2), (30, 3), (9, 5), (12, 6), (14, 8), (40, 2), (60, 1), (33, 7)] {
        let len = [16, 32, 48, 64][rng.gen_range(0..4)];
        one(out, rng, m, f, 12 * scale, len);
    }
    for _ in 0..(8 * scale) {
        let f = rng.gen_range(1..=6);
        let m = f + rng.gen_range(1..=20);
        let len = rng.gen_range(1..=40);
        one(out, rng, m, f, 6, len);
    }
    one(out, rng, 7, 2, 3, 300 + 32 * scale);
    one(out, rng, 4, 1, 3, 512);
    for _ in 0..(4 * scale) {
        let m = rng.gen_range(30..=255u32);
        let f = rng.gen_range(1..=10.min(m - 1));
        one(out, rng, m, f, 8, 16);
    }
    one(out, rng, 255, 3, 8, 16);
    one(out, rng, 90, 4, 8, 16);
    for m in 2..=255u32 {
        for f in 1..m.min(16) {
            // Few parities are usual
            if scale > 1 || m <= 24 || f <= 2 || (m + f) % 16 == 3 || m % 32 < 2 && f == 3 { coefs(out, m, f) }
        }
    }
    low(out, rng, scale);
    if scale > 1 {
        one(out, rng, 255, 2, 20, 16);
        one(out, rng, 128, 10, 20, 16);
        one(out, rng, 200, 1, 20, 16);
    }
}
