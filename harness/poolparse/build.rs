use std::path::PathBuf;
fn main() {
    // Copy the grammar out of /repo, and compile it here
    let src = "/repo/bfffs/src/pool_create_parser.lalrpop";
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={src}");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let dir = out.join("grammar");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::copy(src, dir.join("pool_create_parser.lalrpop")).unwrap();
    lalrpop::Configuration::new().set_in_dir(&dir).set_out_dir(&out).emit_rerun_directives(false)
        .force_build(true).process().unwrap();
}
