//! Drives the self-contained parts of bfffs-core and records what they do
#![allow(clippy::all, unused)]
use divbuf::{DivBuf, DivBufShared};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use small::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Out(std::io::LineWriter<std::fs::File>);
impl Out {
    fn ev(&mut self, v: Value) { writeln!(self.0, "{v}").unwrap(); }
}

/// What went wrong doesn't matter
fn catch<R>(f: impl FnOnce() -> R) -> std::result::Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }

mod codec_drv;
mod layout_drv;
mod cache_drv;
mod sg_drv;
mod prop_drv;
mod types_drv;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut out = Out(std::io::LineWriter::new(std::fs::File::create(&a[2]).unwrap()));
    let seed: u64 = a[3].parse().unwrap();
    let scale: usize = a[4].parse().unwrap();
    let mut rng = StdRng::seed_from_u64(seed);
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "codec" => codec_drv::run(&mut out, &mut rng, scale),
        "layout" => layout_drv::run(&mut out, &mut rng, scale),
        "lru" => cache_drv::lru(&mut out, &mut rng, scale),
        "flight" => cache_drv::flight(&mut out, &mut rng, scale),
        "sg" => sg_drv::run(&mut out, &mut rng, scale),
        "prop" => prop_drv::run(&mut out, &mut rng, scale),
        "types" => types_drv::run(&mut out, &mut rng, scale),
        x => panic!("{x}?"),
    }
    out.0.flush().unwrap();
}
