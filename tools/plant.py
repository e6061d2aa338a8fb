"""Make /verif/seeded/<id> from a description, after confirming that the change
compiles, passes the tests and fails its demonstration.

usage: plant.py FILE     (a Python file that defines BUGS = [dict(id, property,
needs, what, edits=[(file, old, new)], demo=Rust source of main.rs)])
"""
import json, os, shutil, subprocess, sys

SEEDED = "/verif/seeded"
COPY = "/tmp/plant/repo"
DEMO = r'''#!/bin/bash
# Runs in the repository.  Exit 0: the library behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pdf-writer = { path = "$PWD" }
EOT
cp Cargo.lock "$dir/Cargo.lock" 2>/dev/null
CARGO_TARGET_DIR="$dir/target" cargo run --offline -q --manifest-path "$dir/Cargo.toml"
'''


def sh(cmd, cwd=COPY, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.isdir(COPY):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    sh("git checkout -q -- . && git clean -qfd -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def plant(b):
    d = os.path.join(SEEDED, b["id"])
    fresh()
    for f, old, new in b["edits"]:
        p = os.path.join(COPY, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff").stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/main.rs", "w").write(b["demo"].lstrip())
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
              open(f"{d}/meta.json", "w"), indent=1)
    r = sh("cargo test --workspace --offline -- --test-threads 8 2>&1 | grep -E 'test result|FAILED|failed|^error'")
    if "FAILED" in r.stdout or "error" in r.stdout or "test result" not in r.stdout:
        shutil.rmtree(d)
        return "tests: " + r.stdout[-500:]
    bad = sh(f"{d}/demo.sh")
    if bad.returncode == 0:
        return "demonstration passes with the change"
    fresh()
    good = sh(f"{d}/demo.sh")
    if good.returncode != 0:
        return "demonstration fails without the change: " + good.stderr[-800:]
    return "ok (" + bad.stderr.strip().split("\n")[-1][:100] + ")"


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print(b["id"], b["property"], plant(b), flush=True)
