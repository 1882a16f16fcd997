use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../rt/rt.c");
    println!("cargo:rerun-if-changed={}", src.display());
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-fno-builtin-memcpy", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector", "-Wall", "-c"])
        .arg(&src).arg("-o").arg(format!("{out}/rt.o")).status().expect("gcc");
    assert!(st.success(), "gcc failed");
    // SDL functions without a model end the run as "unmodelled call"
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
    let (b, m) = (dir.join("../sdl2-sys/src/sdl_bindings.rs"), dir.join("src/sdl.rs"));
    println!("cargo:rerun-if-changed={}\ncargo:rerun-if-changed={}", b.display(), m.display());
    let names = |f: &std::path::Path, k: &str| -> Vec<String> { std::fs::read_to_string(f).expect("source").split(k).skip(1).map(|x| x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()).collect() };
    let have = names(&m, "extern \"C\" fn ");
    let mut all: Vec<String> = names(&b, "pub fn ").into_iter().filter(|n| n.starts_with("SDL_") && !have.contains(n)).collect();
    all.sort(); all.dedup();
    let c: String = "void sim_unmodelled(const char *);\n".to_string() + &all.iter().map(|n| format!("void {n}(void) {{ sim_unmodelled(\"{n}\"); }}\n")).collect::<String>();
    std::fs::write(format!("{out}/sdl.c"), c).expect("stubs");
    let st = Command::new("gcc").args(["-O1", "-fPIC", "-w", "-fno-builtin", "-c"]).arg(format!("{out}/sdl.c")).arg("-o").arg(format!("{out}/sdl.o")).status().expect("gcc");
    assert!(st.success(), "gcc failed");
    let _ = std::fs::remove_file(format!("{out}/libsimrt.a"));
    let st = Command::new("ar").args(["crs"]).arg(format!("{out}/libsimrt.a")).arg(format!("{out}/rt.o")).arg(format!("{out}/sdl.o")).status().expect("ar");
    assert!(st.success(), "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
