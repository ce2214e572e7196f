//! Feeds vdev specifications to the real "bfffs pool create" parser
#![allow(clippy::all, unused)]
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[path = "/repo/bfffs/src/bin/bfffs/pool_create_ast.rs"]
pub mod pool_create_ast;
pub mod pool {
    lalrpop_util::lalrpop_mod!(pub pool_create_parser);
}
use pool_create_ast::*;

fn codes(s: &str) -> Value { json!(s.bytes().collect::<Vec<_>>()) }

fn ast(p: &Pool) -> Value {
    Value::Array(p.0.iter().map(|t| match t {
        Tlv::Disk(d) => json!({"k": "disk", "d": [codes(d)]}),
        Tlv::Mirror(m) => json!({"k": "mirror", "d": m.0.iter().map(|d| codes(d)).collect::<Vec<_>>()}),
        Tlv::Raid(r) => json!({"k": "raid", "n": r.k, "f": r.f, "v": r.vdevs.iter().map(|v| match v {
            RaidChild::Disk(d) => json!({"k": "disk", "d": [codes(d.0)]}),
            RaidChild::Mirror(m) => json!({"k": "mirror", "d": m.0.iter().map(|d| codes(d)).collect::<Vec<_>>()}),
        }).collect::<Vec<_>>()})
    }).collect())
}

fn run(s: &str) -> Value {
    match catch_unwind(AssertUnwindSafe(|| pool::pool_create_parser::PoolParser::new().parse(s).map(|p| ast(&p)).ok())) {
        Ok(Some(a)) => json!({"e": "parse", "s": codes(s), "r": "ok", "ast": a}),
        Ok(None) => json!({"e": "parse", "s": codes(s), "r": "err"}),
        Err(_) => json!({"e": "parse", "s": codes(s), "r": "panic"}),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
    let mut rng = rand::rngs::StdRng::seed_from_u64(a[2].parse().unwrap());
    let n: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    // Sentences produced by walking the specification, given as token lists
    if a.len() > 4 {
        for line in std::fs::read_to_string(&a[4]).unwrap().lines() {
            let toks: Vec<String> = serde_json::from_str(line).unwrap();
            writeln!(out, "{}", run(&toks.join(" "))).unwrap();
        }
    }
    let words = ["mirror", "raid", "/dev/da0", "da1", "/tmp/bfffs.img", "a", "z9", "mirrorx", "raidz", "raid1", "Mirror",
        "/", "da0,1", "3", "1", "0", "07", "32767", "32768", "65537", "99999999999999999999", "-1", "1x", "_", "\u{e9}", "m", "ra",
        "/dev/md0-p1", "x:y", "mirror/", "1.5", "a=b"];
    let seps = [" ", " ", " ", "  ", "\t", "\n", "\r\n", " \n "];
    for i in 0..n {
        let mut s = String::new();
        let disk = |rng: &mut rand::rngs::StdRng| -> String {
            let names = ["/dev/da0", "da1", "/tmp/x.img", "mirrored", "raidy", "A", "/dev/ada3p2", "d", "raid-1", "mirror_"];
            names[rng.gen_range(0..names.len())].into()
        };
        let mut toks: Vec<String> = vec![];
        match rng.gen_range(0..5) {
            0 => for _ in 0..rng.gen_range(0..5) { toks.push(disk(&mut rng)) },
            1 => for _ in 0..rng.gen_range(1..4) {
                toks.push("mirror".into());
                for _ in 0..rng.gen_range(0..4) { toks.push(disk(&mut rng)) }
            },
            2 | 3 => for _ in 0..rng.gen_range(1..4) {
                toks.push("raid".into());
                toks.push(format!("{}", rng.gen_range(0..40)));
                toks.push(format!("{}", rng.gen_range(0..5)));
                let mirrors = rng.gen_bool(0.5);
                for _ in 0..rng.gen_range(0..6) {
                    if mirrors { toks.push("mirror".into()) }
                    toks.push(disk(&mut rng));
                    if mirrors && rng.gen_bool(0.5) { toks.push(disk(&mut rng)) }
                }
            },
            _ => for _ in 0..rng.gen_range(0..7) { toks.push(words[rng.gen_range(0..words.len())].into()) },
        }
        // Damage some
        if rng.gen_range(0..4) == 0 && !toks.is_empty() {
            let k = rng.gen_range(0..toks.len());
            match rng.gen_range(0..3) {
                0 => { toks.remove(k); }
                1 => { let w = words[rng.gen_range(0..words.len())]; toks.insert(k, w.into()); }
                _ => { toks[k] = words[rng.gen_range(0..words.len())].into(); }
            }
        }
        for (j, t) in toks.iter().enumerate() {
            if j > 0 { s.push_str(if rng.gen_range(0..40) == 0 { "" } else { seps[rng.gen_range(0..seps.len())] }) }
            s.push_str(t);
        }
        if rng.gen_range(0..8) == 0 { s = format!("{}{s}{}", seps[rng.gen_range(0..seps.len())], seps[rng.gen_range(0..seps.len())]) }
        if s.is_ascii() {
            writeln!(out, "{}", run(&s)).unwrap();
        }
    }
}
