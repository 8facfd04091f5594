//! Compiles the runtime that the compiler's thread instrumentation calls.
use std::path::PathBuf;
use std::process::Command;

fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let lib = out.join("libdstrt.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-fPIC", "-Wall", "-Wextra", "-c", "src/rt.c", "-o"])
        .arg(&obj)
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=dstrt");
    println!("cargo:rerun-if-changed=src/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
