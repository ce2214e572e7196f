use super::*;
use small::raid::sgcursor::SGCursor;
use std::hash::Hasher;
use std::ops::Bound;

/// Run-length encoding
fn rle(b: &[u8]) -> Value {
    let mut v: Vec<(u8, usize)> = vec![];
    for x in b {
        match v.last_mut() { Some((y, n)) if y == x => *n += 1, _ => v.push((*x, 1)) }
    }
    json!(v.into_iter().map(|(x, n)| json!([x, n])).collect::<Vec<_>>())
}

fn content(rng: &mut StdRng, len: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut last = 0;
    while v.len() < len {
        let n = rng.gen_range(1..1200).min(len - v.len());
        let mut x: u8 = rng.gen_range(1..=255);
        if x == last { x = if x == 255 { 1 } else { x + 1 } }
        last = x;
        v.resize(v.len() + n, x);
    }
    v
}

fn db(v: Vec<u8>) -> IoVec { DivBufShared::from(v).try_const().unwrap() }

fn pad(out: &mut Out, rng: &mut StdRng) {
    // The lists that the layers above make: whole blocks, then pieces of blocks
    // that together may or may not make up whole blocks.
    const B: usize = BYTES_PER_LBA;
    let mut lens: Vec<usize> = vec![];
    for _ in 0..rng.gen_range(0..3) { lens.push(B * rng.gen_range(1..3)) }
    match rng.gen_range(0..6) {
        0 => {}
        1 => lens.push(rng.gen_range(1..3 * B)),
        4 => {
            // One long piece, then short ones
            lens.push(rng.gen_range(1..2 * B));
            let mut acc = lens.last().unwrap() % B;
            for _ in 0..rng.gen_range(0..3) {
                if acc == 0 { break }
                let n = rng.gen_range(1..B);
                acc += n;
                lens.push(n);
            }
        }
        2 | 3 => {
            // Several pieces that only together make up one or more whole blocks, more than once
            for _ in 0..rng.gen_range(1..3) {
                let mut acc = 0;
                let blocks = rng.gen_range(1..4);
                while acc < blocks * B {
                    let n = rng.gen_range(1..B).min(blocks * B - acc);
                    acc += n;
                    lens.push(n);
                }
                for _ in 0..rng.gen_range(0..2) { lens.push(B * rng.gen_range(1..3)) }
            }
            if rng.gen_bool(0.5) { lens.push(rng.gen_range(1..B)) }
        }
        _ => {
            // Pieces that complete a block exactly, then more
            let a = rng.gen_range(1..B);
            let b = rng.gen_range(0..(B - a));
            lens.push(a);
            if b > 0 { lens.push(b) }
            lens.push(B - a - b);
            if rng.gen_bool(0.5) { lens.push(B) }
            if rng.gen_bool(0.5) { lens.push(rng.gen_range(1..B)) }
        }
    }
    // The documented domain
    let mut acc = 0;
    for n in &lens {
        if acc % B != 0 && (n % B == 0 || *n > B) { return }
        acc = if acc % B == 0 { n % B } else { acc + n };
        if *n == 0 { return }
    }
    let bufs: Vec<Vec<u8>> = lens.iter().map(|n| content(rng, *n)).collect();
    let sg: SGList = bufs.iter().map(|b| db(b.clone())).collect();
    let keep = sg.clone();
    match catch(|| copy_and_pad_sglist(sg)) {
        Ok(o) => out.ev(json!({"e": "pad", "i": bufs.iter().map(|b| rle(b)).collect::<Vec<_>>(),
            "o": o.iter().map(|b| rle(b)).collect::<Vec<_>>(),
            "olen": o.iter().map(|b| b.len()).collect::<Vec<_>>(),
            "kept": keep.iter().zip(&bufs).all(|(a, b)| a[..] == b[..])})),
        Err(_) => out.ev(json!({"e": "pad", "i": bufs.iter().map(|b| rle(b)).collect::<Vec<_>>(), "o": "panic"})),
    }
}

fn cursor(out: &mut Out, rng: &mut StdRng) {
    let mut x = 0u8;
    let bufs: Vec<Vec<u8>> = (0..rng.gen_range(0..5)).map(|_| (0..rng.gen_range(1..7)).map(|_| { x += 1; x }).collect()).collect();
    let sg: SGList = bufs.iter().map(|b| db(b.clone())).collect();
    out.ev(json!({"e": "cursor", "i": bufs}));
    let mut c = SGCursor::from(&sg);
    for _ in 0..16 {
        let max = match rng.gen_range(0..3) { 0 => 1_000_000, 1 => rng.gen_range(1..8), _ => c.peek_len().max(1) };
        let r = catch(|| { let p = c.peek_len(); (p, c.next(max).map(|v| v[..].to_vec())) });
        match r {
            Ok((p, Some(v))) => out.ev(json!({"e": "next", "max": max, "peek": p, "r": v})),
            Ok((p, None)) => { out.ev(json!({"e": "next", "max": max, "peek": p, "r": []})); break }
            Err(_) => { out.ev(json!({"e": "next", "max": max, "peek": 0, "r": "panic"})); break }
        }
    }
}

fn zeros(out: &mut Out, rng: &mut StdRng) {
    let z = ZERO_REGION_LEN;
    let n = match rng.gen_range(0..4) {
        0 => rng.gen_range(1..100),
        1 => (z * rng.gen_range(0..4) + rng.gen_range(0..3)).max(1),
        2 => z * rng.gen_range(1..4) - rng.gen_range(0..3),
        _ => rng.gen_range(1..5 * z)
    };
    match catch(|| zero_sglist(n)) {
        Ok(o) => out.ev(json!({"e": "zero", "n": n, "olen": o.iter().map(|b| b.len()).collect::<Vec<_>>(), "sum": sglist_len(&o),
            "zeros": o.iter().all(|b| b.iter().all(|x| *x == 0))})),
        Err(_) => out.ev(json!({"e": "zero", "n": n, "olen": "panic"})),
    }
}

/// Equal contents have equal checksums, however they are cut up
fn sums(out: &mut Out, rng: &mut StdRng) {
    use metrohash::MetroHash64;
    let n = rng.gen_range(0..200);
    let v: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
    let mut cuts = vec![];
    let mut rest = &v[..];
    while !rest.is_empty() {
        let k = rng.gen_range(0..=rest.len());
        cuts.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    let lens: Vec<usize> = cuts.iter().map(|c| c.len()).collect();
    let mut other = v.clone();
    if !other.is_empty() { let i = rng.gen_range(0..other.len()); other[i] ^= 1 << rng.gen_range(0..8) }
    let h = |f: &dyn Fn(&mut MetroHash64)| { let mut h = MetroHash64::new(); f(&mut h); h.finish() };
    // The reference is the hash of one write: the on-disk format
    let reference = h(&|h| h.write(&v));
    let r = catch(|| (h(&|h| checksum_iovec(&v, h)), h(&|h| checksum_sglist(&cuts, h)), h(&|h| checksum_sglist(&[other.clone()], h))));
    match r {
        Ok((a, b, c)) => out.ev(json!({"e": "sum", "n": n, "cuts": lens, "whole": a == reference, "cut": b == reference,
            "flip": n == 0 || c != reference})),
        Err(_) => out.ev(json!({"e": "sum", "n": n, "cuts": lens, "whole": "panic"})),
    }
}

fn range(out: &mut Out, rng: &mut StdRng) {
    let b = |rng: &mut StdRng| { let x = rng.gen_range(0..4i64); match rng.gen_range(0..5) { 0 => Bound::Unbounded, 1 | 2 => Bound::Included(x), _ => Bound::Excluded(x) } };
    let r = (b(rng), b(rng));
    let j = |b: &Bound<i64>| match b { Bound::Unbounded => json!(["u", 0]), Bound::Included(x) => json!(["i", x]), Bound::Excluded(x) => json!(["e", x]) };
    let v = catch(|| RangeBoundsExt::is_empty(&r));
    out.ev(json!({"e": "range", "s": j(&r.0), "t": j(&r.1), "r": v.map(|x| json!(x)).unwrap_or(json!("panic"))}));
}

pub fn run(out: &mut Out, rng: &mut StdRng, scale: usize) {
    for _ in 0..(300 * scale) {
        pad(out, rng);
        cursor(out, rng);
        zeros(out, rng);
        sums(out, rng);
        range(out, rng);
    }
}
