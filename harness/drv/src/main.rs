//! Drives all of bfffs-core on modelled disks and records what it does
#![allow(clippy::all, unused)]
mod rig;
mod fsd;
mod crash;
mod conc;
mod space;
mod tree;
mod ds;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[3].parse().unwrap();
    let scale: usize = a[4].parse().unwrap();
    rig::quiet_panics();
    match a[1].as_str() {
        m if m.starts_with("fs:") => fsd::run(&m[3..], &a[2], seed, scale),
        "journal" => crash::journal(&a[2], seed, scale),
        "conc" => conc::run(&a[2], seed, scale),
        "tree" => tree::run(&a[2], seed, scale),
        "ds" => ds::run(&a[2], seed, scale),
        "space" => space::run(&a[2], seed, scale),
        "crash" => crash::run(&a[2], seed, scale),
        x => panic!("{x}?"),
    }
}
