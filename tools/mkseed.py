#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a scratch edit of /repo and a demonstration body.

  mkseed.py ID PROPERTY core|dist|ser  < spec.json
spec: {"edits": [[file, old, new], ...], "demo": "<rust body of fn demo()>", "uses": "...", "needs":..., "what_it_breaks":...}
Verifies: patch applies, builds, stable tests pass, demo passes without and fails with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, kind = sys.argv[1:4]
spec = json.load(sys.stdin)
d = os.path.join(V, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(d, "demo", "src"))
dem = os.path.join(d, "demo")

def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

CORE_ROOT = '''#![allow(dead_code, unused_macros, unused_imports, non_snake_case)]
extern crate failure;
extern crate num;
extern crate rand;
extern crate rand_distr;
extern crate special_fun;
#[path = "/repo/src/consts.rs"]
mod consts;
#[path = "/repo/src/utils.rs"]
mod utils;
#[macro_use]
#[path = "/repo/src/params/mod.rs"]
pub mod params;
#[path = "/repo/src/normal"]
pub mod normal {
    #[path = "linalg.rs"]
    pub(crate) mod linalg;
}
'''
DIST_ROOT = '#![allow(dead_code, unused_imports, non_snake_case)]\n'
DEPS = '''failure = "0.1"
rand = "0.8"
rand_distr = "0.4"
num = "0.4"
special-fun = "0.2"
blas = { version = "0.22", default-features = false }
lapack = { version = "0.19", default-features = false }
'''
if kind == "core":
    open(dem + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\nbuild = "link.rs"\n\n[workspace]\n\n[dependencies]\n' + DEPS)
    lock = open(V + "/core/Cargo.lock").read()
    root = CORE_ROOT
else:
    shutil.copytree(V + "/standin/spaces", dem + "/spaces", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    sp = dem + "/spaces/Cargo.toml"; t = open(sp).read(); open(sp, "w").write(t.replace("[workspace]\n", ""))
    os.makedirs(dem + "/rstat")
    open(dem + "/rstat/Cargo.toml", "w").write('[package]\nname = "rstat"\nversion = "0.6.0"\nedition = "2018"\n\n[lib]\npath = "/repo/src/lib.rs"\ndoctest = false\n\n[dependencies]\n' + DEPS + 'spaces = { path = "../spaces" }\n\nserde_crate = { package = "serde", version = "1.0", default-features = false, features = ["std", "derive"], optional = true }\n\n[features]\ndefault = []\nserde = ["serde_crate"]\n')
    open(dem + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\nbuild = "link.rs"\n\n[workspace]\n\n[dependencies]\nrstat = { path = "rstat"%s }\nspaces = { path = "spaces" }\nrand = "0.8"\nfailure = "0.1"\n%s' % ((', features = ["serde"]', 'serde_json = "1.0"\n') if kind == "ser" else ("", "")))
    lock = None
    root = DIST_ROOT
open(dem + "/link.rs", "w").write('fn main() {\n    println!("cargo:rustc-link-lib=openblas");\n}\n')
open(dem + "/src/main.rs", "w").write(root + spec.get("uses", "") + "\nfn main() {\n" + spec["demo"] + "\n    println!(\"demo: property holds\");\n}\n")
# only the registry versions present offline: reuse the harness lock as a hint
lockfile = V + "/%s/Cargo.lock" % kind
shutil.copy(lockfile, dem + "/Cargo.lock")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Builds a small program against the sources in /repo and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/usr/local/cargo/bin:/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= OPENBLAS_NUM_THREADS=1
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" || exit 2
cd "$work/demo" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet > "$work/log" 2>&1 || { grep -A8 '^error' "$work/log"; exit 3; }
timeout 120 "$work/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)

def demo():
    return sh("bash %s/demo.sh" % d, cwd="/repo")
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
r = demo(); print("unchanged:", r.returncode, r.stdout[-600:])
ok = r.returncode == 0
try:
    for f, old, new in spec["edits"]:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    res = json.load(open("/tmp/seedtest.json"))
    print("build", b.returncode, "tests", json.dumps(res)[:300])
    if b.returncode: print(b.stdout[-1500:])
    ok &= b.returncode == 0
    r = demo(); print("patched:", r.returncode, r.stdout[-600:])
    ok &= r.returncode not in (0, 2, 3)
    c = sh("%s/run.py %s" % (V, prop)); print("check:", c.returncode, c.stdout[-500:])
    print("RESULT", sid, "valid" if ok else "INVALID", "caught" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED")
finally:
    sh("git -C /repo checkout -- .")
