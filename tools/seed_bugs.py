#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the bug descriptions in bugs/*.py (edits as old -> new text), against /repo's HEAD.

usage: seed_bugs.py [id ...]
"""
import glob, json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")

DEMO = r'''#!/bin/bash
# Run with cwd at the repository's root. Exit 0: %(holds)s
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
unset RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
project() { # features
    cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies.unicode-normalization]
path = "$repo"
default-features = false
features = [$1]
[profile.dev]
debug = 0
[workspace]
EOF
}
cd "$tmp" || exit 3
%(run)s
'''
RUN = '''project '"std"'
timeout 250 cargo run --offline -q %(release)s'''


def write(bug):
    d = os.path.join(OUT, bug["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (bug["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    if "main" in bug:
        run = bug.get("run", RUN % {"release": "--release" if bug.get("release") else ""})
        open(d + "/demo.sh", "w").write(DEMO % {"holds": bug["holds"], "run": run})
        open(d + "/main.rs", "w").write(bug["main"].lstrip())
    for n, s in bug.get("files", {}).items():
        open(d + "/" + n, "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")


bugs = {}
for f in sorted(glob.glob(HERE + "/bugs/*.py")):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    for b in ns["BUGS"]:
        assert b["id"] not in bugs, b["id"]
        bugs[b["id"]] = b
if __name__ == "__main__":
    for i in sys.argv[1:] or bugs:
        write(bugs[i])
        print(i)
