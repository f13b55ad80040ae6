//! Copies the library's arithmetic modules (from the working tree) and appends
//! access functions, as child modules, to the ones asked for.  Nothing of the
//! original text is changed.
use std::{env, fs, path::PathBuf};
fn main() {
    let src = PathBuf::from("/repo/src/crypto");
    let here = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("src");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("crypto");
    fs::create_dir_all(&out).unwrap();
    println!("cargo:rerun-if-changed=/repo/src");
    println!("cargo:rerun-if-changed={}", here.display());
    let on = |f: &str| env::var(format!("CARGO_FEATURE_{}", f.to_uppercase())).is_ok();
    for e in fs::read_dir(&src).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(true, |x| x != "rs") { continue; }
        let name = p.file_stem().unwrap().to_str().unwrap().to_string();
        let mut t = fs::read_to_string(&p).unwrap();
        for (feat, module, file) in [("hash", "sha512", "a_sha512"), ("hash", "blake2b", "a_blake2b"), ("field", "curve25519", "a_field"), ("group", "curve25519", "a_group"), ("scalar", "curve25519", "a_scalar"), ("scalar", "ed25519", "a_ed25519")] {
            if on(feat) && name == module { t += &format!("\n#[path = \"{}/{file}.rs\"]\npub mod mc_{file};\n", here.display()); }
        }
        if name == "mod" {
            for (feat, module, file) in [("hash", "sha512", "a_sha512"), ("hash", "blake2b", "a_blake2b"), ("field", "curve25519", "a_field"), ("group", "curve25519", "a_group"), ("scalar", "curve25519", "a_scalar"), ("scalar", "ed25519", "a_ed25519")] {
                if on(feat) { t += &format!("\npub use self::{module}::mc_{file};\n"); }
            }
        }
        fs::write(out.join(format!("{name}.rs")), t).unwrap();
    }
    fs::write(out.join("../root.rs"), format!("#[path = \"{}/mod.rs\"]\npub mod crypto;\n", out.display())).unwrap();
}
