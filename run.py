#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and runs one check.

  ./run.py C01 [thorough]  tier from VERIF_TIER (quick by default) when not named
  ./run.py --build        build every harness
  ./run.py --replay FILE  re-run one recorded violation
Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer (build or engine error).
"""
import json
import os
import shutil
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = {"C": "core", "D": "dist", "S": "ser"}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/cargo/bin:/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["VERIF_DIR"] = HERE
    e["RUST_MIN_STACK"] = str(64 << 20)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def cargo(cwd, target, extra=()):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", target)
    return subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"] + list(extra),
                          cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(name):
    r = cargo(os.path.join(HERE, name), name)
    if r.returncode == 0:
        return os.path.join(HERE, "target", name, "debug", name + "-mc")
    lines = r.stdout.splitlines()
    for i in [i for i, l in enumerate(lines) if l.startswith("error")][:10]:
        print("\n".join(lines[i:i + 12]))
    exe = shadow_build(name) if name != "core" else core_without()
    if exe is None:
        print("error: the harness does not build against this tree (no answer)")
        sys.exit(2)
    return exe


def core_without():
    """Second attempt for a working tree in which private helpers changed their form: they are
    left to the checks that go through the public interface."""
    for what in ("cholesky", "inverse_lt", "mm_square", "mv_mult", "log_choose", "choose", "factorial",
                 "factorial_exact", "log_factorial_stirling", "linalg.rs", "utils.rs", "consts.rs",
                 "linalg.rs utils.rs", "linalg.rs utils.rs consts.rs"):
        os.environ["CORE_WITHOUT"] = what
        r = cargo(os.path.join(HERE, "core"), "core")
        if r.returncode == 0:
            print("NOT JUDGED: private helpers have another form and are not called directly: %s" % what)
            os.environ["VERIF_NOT_JUDGED"] = "direct calls to private helpers: " + what
            return os.path.join(HERE, "target", "core", "debug", "core-mc")
    os.environ.pop("CORE_WITHOUT")
    return None


# The files the project's own offline build compiles; every other file of the crate can be edited
# here by someone with no means of compiling it.
COMPILED = {"consts.rs", "utils.rs", "params/mod.rs", "params/constraints.rs", "params/corr.rs",
            "params/concentrations.rs", "normal/linalg.rs"}


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def shadow_build(name):
    """Second attempt for a working tree in which some file does not compile: that file (and no
    other) is taken from baseline/src, everything else from the working tree.  What was left out
    is printed and recorded in the evidence as not explored."""
    repo, base = tree("/repo/src"), tree(os.path.join(HERE, "baseline", "src"))
    changed = {f for f in set(repo) | set(base) if repo.get(f) != base.get(f)}
    optional = {f for f in changed if f not in COMPILED}
    shadow = os.path.join(HERE, "target", "shadow", name)
    src = os.path.join(shadow, "src")
    shutil.rmtree(shadow, ignore_errors=True)
    for d in ("rstat", name):
        os.makedirs(os.path.join(shadow, d))
        shutil.copy(os.path.join(HERE, d, "Cargo.lock"), os.path.join(shadow, d))
        t = open(os.path.join(HERE, d, "Cargo.toml")).read()
        t = t.replace("/repo/src/lib.rs", src + "/lib.rs")
        t = t.replace('"../rstat"', '"%s/rstat"' % shadow).replace('"../', '"%s/' % HERE)
        t = t.replace('"src/main.rs"', '"%s/%s/src/main.rs"' % (HERE, name))
        if d == name:
            t = t.replace("[package]\n", '[package]\nbuild = "%s/%s/build.rs"\n' % (HERE, name), 1)
        open(os.path.join(shadow, d, "Cargo.toml"), "w").write(t)
    out = set()
    for attempt in range(6):
        if not optional:
            return None
        if attempt:
            now = {f: (base.get(f) if f in out else repo.get(f)) for f in set(repo) | set(base)}
            shutil.rmtree(src, ignore_errors=True)
            for f, text in now.items():
                if text is not None:
                    p = os.path.join(src, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(text)
        where = os.path.join(shadow, name) if attempt else os.path.join(HERE, name)
        r = cargo(where, name, ["--message-format=json"])
        if r.returncode == 0:
            for f in sorted(out):
                print("NOT JUDGED: src/%s does not compile; its last judged version was used instead" % f)
            os.environ["VERIF_NOT_JUDGED"] = ", ".join("src/" + f for f in sorted(out))
            return os.path.join(HERE, "target", name, "debug", name + "-mc")
        bad = set()
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                todo = list(m["message"]["spans"])
                while todo:
                    sp = todo.pop()
                    bad.add(os.path.normpath(os.path.join(shadow, sp["file_name"])))
                    if sp.get("expansion"):
                        todo.append(sp["expansion"]["span"])
        rel = set()
        for f in bad:
            for root in ("/repo/src/", src + "/"):
                if f.startswith(root):
                    rel.add(f[len(root):])
        new = (rel & optional) - out
        if not new:
            new = optional - out
        if not new:
            return None
        out |= new
    return None


def run(prop, tier, only=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    exe = build(HARNESS[prop[0]])
    cmd = [exe, prop, tier] + (["--only", only] if only else [])
    cap = 800 if tier == "quick" else 6 * 3600
    try:
        r = subprocess.run(cmd, cwd=HERE, env=env(), timeout=cap)
    except subprocess.TimeoutExpired:
        print("error: time limit (no answer)")
        return 2
    if r.returncode < 0:
        sig = signal.Signals(-r.returncode)
        at = ""
        try:
            at = open(os.path.join(HERE, "evidence", ".%s.at" % prop)).read()
        except OSError:
            pass
        if sig in CRASH:
            # the code under check brought the process down (stack overflow, abort, bad access)
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-crash.json" % prop)
            json.dump({"property": prop, "key": at, "detail": "process died with " + sig.name}, open(p, "w"))
            print("  the process died with %s while exploring: %s" % (sig.name, at))
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        print("error: killed by %s (no answer)" % sig.name)
        return 2
    return r.returncode if r.returncode in (0, 1) else 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for name in sorted(set(HARNESS.values())):
            if os.path.isdir(os.path.join(HERE, name)):
                build(name)
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        return run(d["property"], "quick", d["key"])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(a[0], "thorough" if tier == "thorough" else "quick")


sys.exit(main())
