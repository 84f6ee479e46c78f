use std::process::Command;
fn main() {
  // libLLVM ships with the Rust toolchain that compiles the code under check, so the bitcode
  // reader always matches the bitcode writer.
  let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
  let out = Command::new(rustc).args(["--print", "sysroot"]).output().expect("rustc");
  let sysroot = String::from_utf8(out.stdout).unwrap();
  let lib = format!("{}/lib", sysroot.trim());
  let mut so = None;
  for e in std::fs::read_dir(&lib).unwrap() {
    let n = e.unwrap().file_name().into_string().unwrap();
    if n.starts_with("libLLVM.so") {
      so = Some(n);
    }
  }
  let so = so.expect("libLLVM.so in the toolchain");
  // z3: the library of the Python bindings (newer and faster), else the system's
  let dir = std::fs::canonicalize("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so");
  match dir {
    Ok(p) => {
      println!("cargo:rustc-link-arg={}", p.display());
      println!("cargo:rustc-link-arg=-Wl,-rpath,{}", p.parent().unwrap().display());
    }
    Err(_) => println!("cargo:rustc-link-lib=z3"),
  }
  // after z3: both carry C++ runtime symbols, and z3 has to see its own
  println!("cargo:rustc-link-arg={lib}/{so}");
  println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
  println!("cargo:rerun-if-changed=build.rs");
}
