//! Links the newest libz3 there is: the one of the python bindings, or else the system's.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut dirs: Vec<std::path::PathBuf> = vec![];
    if let Ok(d) = std::fs::read_dir("/opt/veriftools/pyvenv/lib") {
        dirs = d.flatten().map(|e| e.path().join("site-packages/z3/lib")).filter(|p| p.join("libz3.so").exists()).collect();
    }
    dirs.sort();
    if let Some(d) = dirs.last() {
        println!("cargo:rustc-link-search=native={}", d.display());
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d.display());
    }
}
