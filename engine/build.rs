use std::process::Command;
fn main() {
    // libLLVM of the nightly toolchain (the one that produces the bitcode)
    let o = Command::new(std::env::var("RUSTC").unwrap()).args(["--print", "sysroot"]).output().expect("rustc +nightly");
    let root = String::from_utf8(o.stdout).unwrap().trim().to_string();
    let lib = format!("{root}/lib");
    let so = std::fs::read_dir(&lib).unwrap().flatten().map(|e| e.path())
        .find(|p| p.file_name().unwrap().to_string_lossy().starts_with("libLLVM.so")).expect("libLLVM");
    let out = std::env::var("OUT_DIR").unwrap();
    let link = format!("{out}/libLLVM.so");
    let _ = std::fs::remove_file(&link);
    std::os::unix::fs::symlink(&so, &link).unwrap();
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=LLVM");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rerun-if-changed=build.rs");
}
