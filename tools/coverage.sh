#!/bin/bash
# Which lines of the library do the families reach?  Half the programs of the
# quick checks; prints a table and the lines that were never executed.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
llvm=$(dirname "$(ls "$HOME"/.rustup/toolchains/*/lib/rustlib/*/bin/llvm-cov | head -1)")
cd "$root/harness"
RUSTFLAGS=-Cinstrument-coverage CARGO_TARGET_DIR="$tmp/target" cargo +nightly build --offline -q
fams=$(cd "$root" && python3 -c "
from checks import CHECKS
f = {}
for d in CHECKS.values():
    for k, v in d.get('families', {}).items():
        f[k] = max(f.get(k, 0), v[0] if isinstance(v, (tuple, list)) else v['quick'])
print(','.join(f'{k}:{max(n // 2, 1)}' for k, n in f.items()))")
mkdir "$tmp/out"
LLVM_PROFILE_FILE="$tmp/p.profraw" "$tmp/target/debug/pdfv" "$fams" 1 "$tmp/out" 8 > /dev/null
"$llvm/llvm-profdata" merge -sparse "$tmp/p.profraw" -o "$tmp/p.profdata"
"$llvm/llvm-cov" report "$tmp/target/debug/pdfv" -instr-profile="$tmp/p.profdata" /repo/src
"$llvm/llvm-cov" show "$tmp/target/debug/pdfv" -instr-profile="$tmp/p.profdata" /repo/src \
    --show-instantiations=false | awk '/^\/repo/{f=$1} /^ *[0-9]+\| *0\|/{print f,$0}'
