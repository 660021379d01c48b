#!/usr/bin/env python3
"""Writes and tries planted bugs (development only, no check uses this).

  plant.py write FILE...   each FILE is Python that calls seed(...)
  plant.py try ID...       apply, build, run the stable tests, the demo and the check; undo

A seed is: id, property, edits [(path, old, new)], needs, breaks, demo (Rust main program),
kind "core" (demo built against the part that compiles offline) or "full" (whole crate, with a
stand-in for the crate that is missing)."""

import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RUSTOMATA_REPO", "/repo")

DEMO = r"""#!/bin/bash
# Builds demo.rs against the sources in the current directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-08-21} CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/lib" "$tmp/demo" "$tmp/demo/src"
cp -r "$repo/src" "$repo/search" "$repo/unique-heap" "$repo/vecmultimap" "$repo/Cargo.toml" "$tmp/lib/"
[ -d "$repo/examples" ] && cp -r "$repo/examples" "$tmp/lib/"
cd "$tmp/lib" || exit 2
@PREPARE@
cat > "$tmp/demo/Cargo.toml" <<'END'
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rustomata = { path = "../lib" }
search = { path = "../lib/search" }
unique-heap = { path = "../lib/unique-heap" }
vecmultimap = { path = "../lib/vecmultimap" }
log_domain = "0.4.0"
num-traits = "0.1.41"
serde = "1.0"
bincode = "0.9"
[profile.dev]
debug = false
END
cp "$here/demo.rs" "$tmp/demo/src/main.rs"
cp "$here/demo.lock" "$tmp/demo/Cargo.lock"
export CARGO_TARGET_DIR=$tmp/target
if ! cargo build --offline -q --manifest-path "$tmp/demo/Cargo.toml" > "$tmp/log" 2>&1; then
    grep -A8 '^error' "$tmp/log"
    echo "the demonstration does not build"
    exit 3
fi
cd "$tmp" && @RUN@
"""

PREPARE_CORE = r"""# the part of the crate that compiles without the crate `integeriser`
sed -i '/^integeriser/d' Cargo.toml
python3 - <<'END'
import re
text = open("Cargo.toml").read()
open("Cargo.toml", "w").write(re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", text))
END
sed -i '/^extern crate integeriser;/d' src/lib.rs
echo 'pub mod equivalence_classes;' > src/approximation/mod.rs
echo 'pub mod configuration;' > src/recognisable/mod.rs
for f in automata/mod.rs dyck/multiple/mod.rs grammars/lcfrs/csparsing/mod.rs util/integerisable.rs util/push_down.rs; do
    : > src/$f
done"""

PREPARE_FULL = r"""# the whole crate, with a stand-in for the crate `integeriser`
mkdir -p "$tmp/integeriser/src"
cp "$here/integeriser.toml" "$tmp/integeriser/Cargo.toml"
cp "$here/integeriser.rs" "$tmp/integeriser/src/lib.rs"
sed -i 's|^integeriser.*|integeriser = { path = "../integeriser" }|' Cargo.toml"""


PREPARE_BIN = PREPARE_FULL + r"""
cp "$here/lib.lock" Cargo.lock
export CARGO_TARGET_DIR=$tmp/target
if ! cargo build --offline -q --bin rustomata > "$tmp/log" 2>&1; then
    grep -A8 '^error' "$tmp/log"
    echo "the program does not build"
    exit 3
fi
export BIN=$tmp/target/debug/rustomata"""


def git(*args, **kw):
    return subprocess.run(["git", "-C", REPO, *args], check=True, capture_output=True, text=True, **kw).stdout


def seed(id, property, edits, needs, breaks, demo, kind="core"):
    assert git("status", "--porcelain") == "", "the repository is not clean"
    out = f"{VERIF}/seeded/{id}"
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    try:
        for path, old, new in edits:
            with open(f"{REPO}/{path}") as f:
                text = f.read()
            assert text.count(old) == 1, (id, path, text.count(old), old)
            with open(f"{REPO}/{path}", "w") as f:
                f.write(text.replace(old, new))
        with open(f"{out}/patch.diff", "w") as f:
            f.write(git("diff"))
    finally:
        git("checkout", "--", ".")
    with open(f"{out}/meta.json", "w") as f:
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(f"{out}/demo.rs", "w") as f:
        f.write(demo.strip() + "\n")
    template = DEMO if kind == "core" else DEMO.replace('log_domain =', 'integeriser = { path = "../integeriser" }\nlog_domain =')
    script = template.replace("@PREPARE@", {"core": PREPARE_CORE, "full": PREPARE_FULL, "bin": PREPARE_BIN}[kind])
    with open(f"{out}/demo.sh", "w") as f:
        f.write(script.replace("@RUN@", '"$tmp/target/debug/demo"'))
    os.chmod(f"{out}/demo.sh", 0o755)
    lock = f"{VERIF}/tools/demo-{'core' if kind == 'core' else 'full'}.lock"
    if os.path.exists(lock):
        shutil.copy(lock, f"{out}/demo.lock")
    if kind == "bin":
        shutil.copy(f"{VERIF}/tools/demo-bin.lock", f"{out}/lib.lock")
    if kind in ("full", "bin"):
        shutil.copy(f"{VERIF}/stubs/integeriser/Cargo.toml", f"{out}/integeriser.toml")
        shutil.copy(f"{VERIF}/stubs/integeriser/src/lib.rs", f"{out}/integeriser.rs")


def run(command, cwd, limit=900):
    p = subprocess.run(command, cwd=cwd, shell=True, capture_output=True, text=True, timeout=limit)
    return p.returncode, p.stdout + p.stderr


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        base = json.load(f)
    return base


def try_seed(id, do_check=True):
    out = f"{VERIF}/seeded/{id}"
    with open(f"{out}/meta.json") as f:
        prop = json.load(f)["property"]
    res = {}
    tmp = f"/tmp/planted-{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    for name in os.listdir(out):
        if not name.endswith((".diff", ".patch")) and name != "meta.json":
            shutil.copy(f"{out}/{name}", tmp)
    rc, text = run(f"bash {tmp}/demo.sh", REPO)
    res["demo clean"] = rc
    if rc:
        print(text[-1500:])
    git("apply", f"{out}/patch.diff")
    try:
        live = REPO == "/repo"
        rc, text = run("bash /opt/vp/build.sh" if live else f"cd {VERIF} && . ./env.sh && python3 tools/mirror.py && cd {VERIF}/build/full && cargo build --offline --lib --bins", REPO)
        res["build"] = rc
        if rc:
            print(text[-3000:])
        rc, text = run(
            f"bash /opt/vp/test.sh {tmp}/out.json" if live else f"cd {VERIF} && . ./env.sh && cd {VERIF}/build/partial && cargo test --workspace --no-fail-fast --offline > {tmp}/log 2>&1; python3 /opt/vp/results.py {tmp}/out.json cargo:{tmp}/log",
            REPO,
        )
        full = None
        if os.path.exists(f"{tmp}/integeriser.rs"):
            full, text = run(f"cd {VERIF} && . ./env.sh && cd {VERIF}/build/full && cargo test --offline", REPO)
            res["whole tests"] = [l for l in text.splitlines() if l.endswith("FAILED")]
        with open(f"{tmp}/out.json") as f:
            got = json.load(f)
        base = stable()
        passed = set(got.get("passed", []))
        want = set(base["stable"])
        res["lost tests"] = sorted(want - passed)
        res["stable"] = len(want)
        rc, text = run(f"bash {tmp}/demo.sh", REPO)
        res["demo patched"] = rc
        res["says"] = [l for l in text.splitlines() if "panicked" in l or "left" in l or "right" in l][:3]
        if do_check:
            rc, text = run(f"bash check.sh {prop} quick", VERIF)
            res["check"] = rc
            res["violation"] = [l for l in text.splitlines() if l.startswith("VIOLATION")]
    finally:
        git("checkout", "--", ".")
        shutil.rmtree(tmp)
    good = (res["demo clean"] == 0 and res["build"] == 0 and not res["lost tests"] and res["demo patched"] not in (0, 3))
    print(id, prop, "VALID" if good else "INVALID", "CAUGHT" if res.get("check") == 1 else "MISSED", json.dumps(res, ensure_ascii=False), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "write":
        for name in sys.argv[2:]:
            with open(name) as f:
                exec(compile(f.read(), name, "exec"), {"seed": seed})
    else:
        for id in sys.argv[2:]:
            try_seed(id)
