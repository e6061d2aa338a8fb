"""Apply each seeded change to a scratch copy of /repo, run the check of its
property (or all) from a scratch copy of /verif against it, and report.
usage: detect.py [--all] [--dir DIR] [ID...]"""
import json, os, subprocess, sys
args = sys.argv[1:]
every = "--all" in args
D = args[args.index("--dir") + 1] if "--dir" in args else "/tmp/det"
args = [a for a in args if not a.startswith("-") and a != D]
S = "/verif/seeded"
sys.path.insert(0, "/verif")
from checks import CHECKS
os.makedirs(D + "/verif", exist_ok=True)
if not os.path.exists(D + "/repo"):
    subprocess.run(["cp", "-a", "/repo", D + "/repo"], check=True)
subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=D + "/repo", check=True)
subprocess.run("cp -a run.py checks.py spec known-findings.txt properties.jsonl MANIFEST.json harness " + D + "/verif/", shell=True, cwd="/verif", check=True)
subprocess.run(["sed", "-i", f's#"/repo"#"{D}/repo"#', D + "/verif/harness/Cargo.toml"], check=True)
for b in sorted(args or os.listdir(S)):
    meta = json.load(open(f"{S}/{b}/meta.json"))
    props = sorted(CHECKS) if every else [meta["property"]]
    if subprocess.run(["git", "-C", D + "/repo", "apply", f"{S}/{b}/patch.diff"]).returncode:
        print(b, "does not apply"); continue
    try:
        out = []
        for p in props:
            if p not in CHECKS:
                out.append(f"{p} (no check)"); continue
            r = subprocess.run(["python3", "run.py", "check", p], cwd=D + "/verif", capture_output=True, text=True)
            v = f"VIOLATION property={p}" in r.stdout
            if not every or v or r.returncode not in (0, 1):
                out.append(f"{p} {'CAUGHT' if v and r.returncode == 1 else 'missed' if r.returncode == 0 else 'BROKEN rc=%d' % r.returncode}")
        print(b, meta["property"], "->", ", ".join(out) or "none", flush=True)
    finally:
        subprocess.run(["git", "-C", D + "/repo", "checkout", "-q", "--", "."])
