// Links OpenBLAS for blas-sys and lapack-sys, and records which private helpers exist under the
// names known to the harness, so that renaming one skips its direct check instead of breaking the
// build (the same behaviour is also checked through the public API of the whole crate).
use std::fmt::Write;

fn main() {
    println!("cargo:rustc-link-lib=openblas");
    println!("cargo:rerun-if-changed=build.rs");
    for f in ["consts.rs", "utils.rs", "normal/linalg.rs"] {
        println!("cargo:rerun-if-changed=/repo/src/{}", f);
    }
    let read = |f: &str| std::fs::read_to_string(format!("/repo/src/{}", f)).unwrap_or_default();
    // set by run.py when the harness does not build: helpers whose form has changed
    println!("cargo:rerun-if-env-changed=CORE_WITHOUT");
    let without = std::env::var("CORE_WITHOUT").unwrap_or_default();
    let read = |f: &str| if without.split(' ').any(|w| w.ends_with(".rs") && f.ends_with(w)) { String::new() } else { read(f) };
    let utils = read("utils.rs");
    for f in ["factorial_exact", "factorial", "log_factorial_stirling", "choose", "log_choose"] {
        if utils.contains(&format!("fn {}(", f)) && !without.split(' ').any(|w| w == f) {
            println!("cargo:rustc-cfg=has_{}", f);
        }
    }
    let linalg = read("normal/linalg.rs");
    for f in ["cholesky", "inverse_lt", "mm_square", "mv_mult"] {
        if linalg.contains(&format!("fn {}<", f)) && !without.split(' ').any(|w| w == f) {
            println!("cargo:rustc-cfg=has_{}", f);
        }
    }
    // every scalar constant that exists, by name
    let mut out = String::from("pub const SCALARS: &[(&str, f64)] = &[\n");
    let (mut has_f, mut has_l) = (false, false);
    for line in read("consts.rs").lines() {
        let line = line.trim();
        let line = line.strip_prefix("pub(crate) const ").or_else(|| line.strip_prefix("pub const "));
        if let Some(rest) = line {
            if let Some((name, ty)) = rest.split_once(':') {
                let ty = ty.split('=').next().unwrap().trim();
                if ty == "f64" {
                    writeln!(out, "(\"{0}\", crate::consts::{0}),", name.trim()).unwrap();
                }
                has_f |= name.trim() == "FACTORIALS_16" && ty.starts_with('[');
                has_l |= name.trim() == "LOG_FACTORIALS_255" && ty.starts_with('[');
            }
        }
    }
    out.push_str("];\n");
    let t = |b: bool, n: &str, ty: &str, z: &str| {
        if b {
            format!("pub fn {}() -> Vec<{}> {{ crate::consts::{}.to_vec() }}\n", z, ty, n)
        } else {
            format!("pub fn {}() -> Vec<{}> {{ vec![] }}\n", z, ty)
        }
    };
    out.push_str(&t(has_f, "FACTORIALS_16", "u64", "factorials"));
    out.push_str(&t(has_l, "LOG_FACTORIALS_255", "f64", "log_factorials"));
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{}/scalars.rs", dir), out).unwrap();
}
