use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-c", "c/libsim.c", "-o"])
        .arg(format!("{out}/libsim.o"))
        .status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-arg-bins={out}/libsim.o");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=pthread_create");
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rerun-if-changed=c/libsim.c");
    println!("cargo:rerun-if-changed=c/libsim.h");
}
