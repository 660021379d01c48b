#!/usr/bin/env python3
"""Makes the cargo packages that the harnesses are built against, from /repo's working tree.

  build/full     the whole of rustomata; the unavailable git dependency `integeriser` is replaced
                 by the stand-in in stubs/integeriser.
  build/partial  only the part of rustomata that needs no `integeriser` (what /opt/vp/build.sh
                 builds), so that the checks of that part do not depend on the rest compiling.

Everything is a symlink into /repo, except the manifests, src/lib.rs (partial) and the module
files in LEFT_OUT (partial).  Files are only touched when their contents change.
Environment: RUSTOMATA_REPO overrides /repo (only used while developing)."""

import os
import re
import shutil

REPO = os.environ.get("RUSTOMATA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")

LEFT_OUT = {
    "approximation/mod.rs": "pub mod equivalence_classes;\n",
    "automata/mod.rs": "",
    "dyck/multiple/mod.rs": "",
    "grammars/lcfrs/csparsing/mod.rs": "",
    "recognisable/mod.rs": "pub mod configuration;\n",
    "util/integerisable.rs": "",
    "util/push_down.rs": "",
}
SKIP = (".git", "target", "tests", "benches")


def read(name):
    with open(f"{REPO}/{name}") as f:
        return f.read()


def sync(out, links, files, keep=()):
    """Makes `out` contain exactly `links` and `files` (and whatever is named in `keep`)."""
    for base, dirs, names in os.walk(out, topdown=False):
        for name in names + dirs:
            path = os.path.join(base, name)
            rel = os.path.relpath(path, out)
            if os.path.islink(path):
                if links.get(rel) != os.readlink(path):
                    os.remove(path)
            elif os.path.isdir(path):
                if rel in links or rel in files:
                    shutil.rmtree(path)
                elif not os.listdir(path):
                    os.rmdir(path)
            elif rel not in files and rel not in keep:
                os.remove(path)
    for rel, target in links.items():
        path = f"{out}/{rel}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.islink(path):
            os.symlink(target, path)
    for rel, text in files.items():
        path = f"{out}/{rel}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.isfile(path):
            with open(path) as f:
                if f.read() == text:
                    continue
        with open(path, "w") as f:
            f.write(text)


def top_level_links():
    return {
        entry: f"{REPO}/{entry}"
        for entry in os.listdir(REPO)
        if os.path.isdir(f"{REPO}/{entry}") and entry not in SKIP and entry != "src"
    }


def full():
    manifest = re.sub(
        r"(?m)^integeriser\b.*$",
        f'integeriser = {{ path = "{VERIF}/stubs/integeriser" }}',
        read("Cargo.toml"),
    )
    links = top_level_links()
    links["src"] = f"{REPO}/src"
    if os.path.isdir(f"{REPO}/tests"):
        links["tests"] = f"{REPO}/tests"
    sync(f"{OUT}/full", links, {"Cargo.toml": manifest}, keep=("Cargo.lock",))


def partial():
    links, files = top_level_links(), {}
    manifest = re.sub(r"(?m)^integeriser\b.*\n", "", read("Cargo.toml"))
    manifest = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", manifest)
    files["Cargo.toml"] = manifest
    files["src/lib.rs"] = re.sub(
        r"(?m)^extern crate integeriser;$", "", read("src/lib.rs")
    )
    for name, text in LEFT_OUT.items():
        files[f"src/{name}"] = text
    for base, dirs, names in os.walk(f"{REPO}/src"):
        rel = os.path.relpath(base, REPO)
        if rel == "src" and "bin" in dirs:
            dirs.remove("bin")
        for name in names:
            if f"{rel}/{name}" not in files:
                links[f"{rel}/{name}"] = f"{base}/{name}"
    sync(f"{OUT}/partial", links, files, keep=("Cargo.lock",))


if __name__ == "__main__":
    full()
    partial()
