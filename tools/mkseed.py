#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py-like definitions below: patch.diff (made with git diff in a
scratch copy), demo.sh, demo.rs and meta.json."""
import json, os, re, subprocess, sys, tempfile, shutil

V = "/verif"
CORE = '''[dependencies]
anyhow = "1"
path-absolutize = { version = "3.1.1", features = ["once_cell_cache"] }
regex = { version = "1", default-features = false, features = ["std"] }
serde = { version = "1", features = ["derive"] }
'''
LSP = '''[dependencies]
lsp-server = "0.7"
lsp-types = "0.95"
crossbeam = "0.8"
anyhow = "1"
tracing = "0.1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
'''
JARL = '''[dependencies]
tracing = "0.1"
tracing-subscriber = "0.3"
anyhow = "1"
'''
ZED = '''[dependencies]
serde_json = "1"
'''
HEAD = {
 "core": (CORE, '''#[path = "@/crates/jarl-core/src/description.rs"] pub mod description;
#[path = "@/crates/jarl-core/src/directive.rs"] pub mod directive;
#[path = "@/crates/jarl-core/src/fs.rs"] pub mod fs;
#[path = "@/crates/jarl-core/src/rule_set.rs"] pub mod rule_set;
pub mod rmd { #[path = "@/crates/jarl-core/src/rmd/extraction.rs"] pub mod extraction; }
'''),
 "lsp": (LSP, '''#[path = "@/crates/jarl-lsp/src/client.rs"] pub mod client;
#[path = "@/crates/jarl-lsp/src/document.rs"] pub mod document;
'''),
 "jarl": (JARL, '''#[path = "@/crates/jarl/src/logging.rs"] pub mod logging;
#[path = "@/crates/jarl/src/status.rs"] pub mod status;
'''),
}
DEMO = '''#!/bin/bash
# Compiles the modules of the repository (the current directory) into a small program and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir "$scratch/src" "$scratch/run"
sed "s#@/#$repo/#g" "$here/demo.rs" > "$scratch/src/main.rs"
cp "$here/Cargo.toml.in" "$scratch/Cargo.toml"
[ -d "$here/zed_extension_api" ] && cp -r "$here/zed_extension_api" "$scratch/"
CARGO_TARGET_DIR=$scratch/target cargo build --offline --quiet --manifest-path "$scratch/Cargo.toml" || exit 2
cd "$scratch/run" && "$scratch/target/debug/demo"
'''

CLI = '''#!/bin/bash
# Compiles the command line from the repository (the current directory) over the stand-ins beside this file (for the
# crates that cannot be fetched) and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir "$scratch/b" "$scratch/run"
tar -xzf "$here/standins.tgz" -C "$scratch/b" || exit 2
sed -i "s#@/#$repo/#g" "$scratch"/b/*/Cargo.toml
(cd "$scratch/b" && CARGO_TARGET_DIR=$scratch/t RUSTFLAGS=-Awarnings cargo build --offline --quiet -p jarl) || exit 2
export HOME=$scratch/home XDG_CONFIG_HOME=$scratch/home/.config NO_COLOR=1 GIT_CONFIG_GLOBAL=/dev/null
mkdir -p "$XDG_CONFIG_HOME"
jarl() { "$scratch/t/debug/jarl" "$@"; }
die() { echo "FAILED: $*"; exit 1; }
cd "$scratch/run" || exit 2
. "$here/steps.sh"
'''
def standins(dst):
    """The stand-ins of the harness, as one archive that is always the same."""
    w = tempfile.mkdtemp(prefix="stand")
    try:
        h = V + "/harness"
        shutil.copytree(h + "/stand", w + "/stand")
        for x in ("jarl_cli", "jarl_core", "jarl_lsp"):
            os.makedirs(f"{w}/{x}")
            t = open(f"{h}/{x}/Cargo.toml").read().replace('"/repo/', '"@/')
            open(f"{w}/{x}/Cargo.toml", "w").write(t)
        shutil.copy(h + "/Cargo.lock", w)
        open(w + "/Cargo.toml", "w").write('[workspace]\nmembers = ["jarl_core", "jarl_lsp", "jarl_cli", "stand/*"]\nresolver = "3"\n[profile.dev]\ndebug = false\n')
        subprocess.run(f"tar --sort=name --mtime=@0 --owner=0 --group=0 --numeric-owner -cf - -C {w} . | gzip -n9 > {dst}", shell=True, check=True)
    finally:
        shutil.rmtree(w)

def write(id, prop, needs, breaks, edits, kind, body, extra_toml="", head=None):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in edits:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if kind == "cli":
        standins(f"{d}/standins.tgz"); open(f"{d}/steps.sh", "w").write(body.lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(CLI); os.chmod(f"{d}/demo.sh", 0o755)
        return
    deps, h = HEAD[kind] if kind in HEAD else ("", head)
    open(f"{d}/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n' + deps + extra_toml)
    open(f"{d}/demo.rs", "w").write("#![allow(dead_code, unused)]\n" + h + body)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)

if __name__ == "__main__":
    sys.path.insert(0, V + "/tools")
    import seeds
    import seeds_cli
    for s in seeds.SEEDS + seeds_cli.SEEDS:
        if len(sys.argv) < 2 or s["id"] in sys.argv[1:]:
            write(**s)
