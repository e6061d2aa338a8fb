"""Small mechanical changes to the library, to find out which ones the checks
do not see.  Works on copies under /tmp/mut.

usage: mutate.py list [FILE...]            count the changes
       mutate.py run COUNT SEED [FILE...]  try COUNT random ones, 7 at a time
Results go to /tmp/mut/results.ndjson: same (no recorded execution differs),
accepted (executions differ, and the specification accepts them), caught,
or nobuild.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
import run as R
from checks import CHECKS
M = "/tmp/mut"
WORKERS = int(os.environ.get("WORKERS", "7"))


def code_lines(path):
    """Line numbers (0-based) of code: no comments, attributes, tests."""
    s = open(path).read().split("\n")
    out = []
    block = False
    for i, l in enumerate(s):
        if l.strip().startswith("/*"):
            block = True
        if block:
            block = "*/" not in l
            continue
        if l.strip().startswith("#[cfg(test)]"):
            break
        t = l.strip()
        if not t or t.startswith("//") or t.startswith("#[") or t.startswith("use ") or t.startswith("pub use"):
            continue
        out.append(i)
    return s, out


SWAPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=&>])<(?![<=A-Za-z'\[&(])", "<="),
         (r"(?<![\-=>])>(?![>=]) ", ">= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!self\.", "self."), (r"if !", "if "), (r"if (?!let|!|\()", "if !"),
         (r"\+=", "-="), (r"-=", "+="), (r"\.\.=", ".."), (r"<<", ">>"), (r">>", "<<"), (r"\.max\(", ".min("), (r"\bSome\(\w+\)", "None"),
         (r"\bas u16\b", "as u8 as u16"), (r"\bas i32\b", "as i16 as i32"), (r"\bas u32\b", "as u16 as u32"), (r"\bas u64\b", "as u32 as u64")]


def mutations(path):
    s, lines = code_lines(path)
    for i in lines:
        l = s[i]
        seen = set()

        def put(new, kind):
            if new != l and new not in seen:
                seen.add(new)
                return (path, i, l, new, kind)
        out = []
        cut = l.find(" // ")
        body = l if cut < 0 else l[:cut]
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)+)"', body):
            a, b = m.span(1)
            if "panic" in body or "expect(" in body or "assert" in body or "doc" in body:
                continue
            x = m.group(1)
            out.append(put(l[:a] + x[:-1] + ("x" if x[-1] != "x" else "y") + l[b:], "string"))
        for m in re.finditer(r"(?<![\w.#])(0x[0-9a-fA-F]+|\d+)(?![\w.\"])", body):
            v = int(m.group(1), 16 if m.group(1).startswith("0x") else 10)
            out.append(put(l[:m.start()] + str(v + 1) + l[m.end():], "int+1"))
            if v > 0:
                out.append(put(l[:m.start()] + str(v - 1) + l[m.end():], "int-1"))
        for m in re.finditer(r"(?<![\w])(\d+\.\d+)(?![\w])", body):
            out.append(put(l[:m.start()] + repr(float(m.group(1)) + 0.5) + l[m.end():], "float"))
        for m in re.finditer(r"b'(\\?.)'", body):
            out.append(put(l[:m.start()] + "b'@'" + l[m.end():], "byte"))
        if "fn " not in body and "impl" not in body and "where" not in body and "=>" not in body.replace("=> {", ""):
            for a, b in SWAPS:
                for m in re.finditer(a, body):
                    if "->" in body[max(0, m.start() - 1):m.end() + 1] or "::<" in body:
                        continue
                    out.append(put(l[:m.start()] + b + l[m.end():], "op " + b))
        # Drop a statement.
        if re.match(r"^\s*(self|obj|dict|array|buf|stream)[.\w(].*;\s*$", body) and body.count("(") == body.count(")"):
            out.append(put(re.match(r"^\s*", l).group(0) + "{}", "drop"))
        # Drop one call of a chain.
        if re.match(r"^\s*\.\w+\(.*\)[;]?\s*$", body) and body.count("(") == body.count(")"):
            out.append(put(re.match(r"^\s*", l).group(0) + (";" if body.strip().endswith(";") else ""), "drop"))
        # Exchange neighbours in lists.
        for m in re.finditer(r"\b([a-z_]\w*(?:\.\w+)?), ([a-z_]\w*(?:\.\w+)?)\b", body):
            if "fn " not in body and m.group(1) != m.group(2):
                out.append(put(l[:m.start()] + m.group(2) + ", " + m.group(1) + l[m.end():], "swap"))
        # Exchange a method's early return / loop control.
        if re.match(r"^\s*(break|continue);", body):
            out.append(put(l.replace("break;", "{}").replace("continue;", "{}"), "drop"))
        yield from (o for o in out if o)


def every(files):
    src = "/repo/src"
    fs = [os.path.join(src, f) for f in (files or sorted(os.listdir(src)))]
    return [m for f in fs for m in mutations(f)]


def fam_counts(scale):
    fs = {}
    for c in CHECKS.values():
        for f, v in c["families"].items():
            n = v["quick"]
            fs[f] = max(fs.get(f, 0), n)
    return {f: min(n, scale) for f, n in fs.items()}


def fam_invs():
    fi = {}
    for p, c in CHECKS.items():
        for f in c["families"]:
            fi.setdefault(f, set()).update(c["invariants"])
    return fi


SKIP = {"huge", "huge-stream", "big"}


def traces(binary, fams, out):
    os.makedirs(out, exist_ok=True)
    try:
        p = subprocess.run([binary, ",".join(f"{f}:{n}" for f, n in fams.items()), "1", out, "1"],
                           capture_output=True, text=True, timeout=240, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "hang"
    if p.returncode:
        return None, "died " + p.stderr[-200:]
    d = {}
    with open(f"{out}/0.ndjson") as f:
        for line in f:
            i = line.index('"', 7)
            d[line[7:i]] = line
    return d, None


BASE = {}


def setup(k):
    d = f"{M}/{k}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.rmtree(d + "/harness/src", ignore_errors=True)
    os.makedirs(d + "/harness", exist_ok=True)
    for x in ("Cargo.toml", "Cargo.lock", "src"):
        subprocess.run(["cp", "-a", "/verif/harness/" + x, d + "/harness/"], check=True)
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', '"../repo"').replace("incremental = false", "incremental = true")
    open(d + "/harness/Cargo.toml", "w").write(c)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=d + "/repo", check=True)


def build(k):
    d = f"{M}/{k}"
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "-j", "2"], cwd=d + "/harness", env=env, capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def split(i):
    return i.split("/")[0].split("@")[0]


def attempt(k, m, fams, fi):
    path, i, old, new, kind = m
    d = f"{M}/{k}"
    f = path.replace("/repo/", d + "/repo/", 1)
    s = open(f).read().split("\n")
    assert s[i] == old, (path, i)
    s[i] = new
    open(f, "w").write("\n".join(s))
    res = {"file": os.path.basename(path), "line": i + 1, "old": old.strip(), "new": new.strip(), "kind": kind}
    try:
        ok, err = build(k)
        if not ok:
            return dict(res, result="nobuild")
        t, bad = traces(d + "/target/debug/pdfv", fams, d + "/out")
        if t is None:
            return dict(res, result="caught", by=bad)
        diff = {}
        for x, line in t.items():
            if BASE.get(x) != line:
                diff.setdefault(split(x), []).append(line)
        if not diff:
            return dict(res, result="same")
        accepted = []
        for fam, ls in sorted(diff.items(), key=lambda x: len(x[1][0])):
            w = tempfile.mkdtemp(dir=d)
            ls.sort(key=len)
            open(w + "/0.ndjson", "w").writelines(ls[:25])
            R.trace_cfg(w + "/trace.cfg", sorted(fi[fam]))
            try:
                out = R.tlc("PdfTrace.tla", w + "/trace.cfg", w + "/m", env={"TRACE": w + "/0.ndjson"}, args=["-workers", "1"], timeout=120, xmx="2g")
                v = R.verdict(out)
            except R.Broken as e:
                v = "BROKEN " + str(e)[:300]
            shutil.rmtree(w)
            if v and v.startswith("BROKEN"):
                return dict(res, result="broken", by=fam, what=v)
            if v:
                return dict(res, result="caught", by=fam, what=v, differ={a: len(b) for a, b in diff.items()})
            accepted.append(fam)
        return dict(res, result="accepted", by=accepted)
    finally:
        s[i] = old
        open(f, "w").write("\n".join(s))


def main():
    if sys.argv[1] == "list":
        ms = every(sys.argv[2:])
        from collections import Counter
        print(len(ms), Counter(os.path.basename(m[0]) for m in ms), Counter(m[4] for m in ms))
        return
    count, seed = int(sys.argv[2]), int(sys.argv[3])
    ms = every(sys.argv[4:])
    done = set()
    rf = f"{M}/results.ndjson"
    os.makedirs(M, exist_ok=True)
    if os.path.exists(rf):
        for l in open(rf):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (os.path.basename(m[0]), m[1] + 1, m[3].strip()) not in done]
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    fams = {f: n for f, n in fam_counts(int(os.environ.get("SCALE", "400"))).items() if f not in SKIP}
    fi = fam_invs()
    shutil.rmtree(M + "/spec", ignore_errors=True); shutil.copytree(R.SPEC, M + "/spec"); R.SPEC = M + "/spec"
    free = []
    for k in range(WORKERS):
        setup(k)
        free.append(k)
    with ThreadPoolExecutor(WORKERS) as ex:
        for ok, err in ex.map(build, range(WORKERS)):
            assert ok, err
    t, bad = traces(f"{M}/0/target/debug/pdfv", fams, f"{M}/base")
    assert t, bad
    BASE.update(t)
    import threading
    lock = threading.Lock()

    def go(m):
        with lock:
            k = free.pop()
        try:
            r = attempt(k, m, fams, fi)
        except Exception as e:
            r = {"file": os.path.basename(m[0]), "line": m[1] + 1, "new": m[3].strip(), "result": "error", "what": repr(e)}
        with lock:
            free.append(k)
            with open(rf, "a") as f:
                f.write(json.dumps(r) + "\n")
            if r["result"] not in ("caught", "nobuild"):
                print(json.dumps(r)[:300], flush=True)
    t0 = time.time()
    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(go, ms))
    print(len(ms), "done in", round(time.time() - t0), "s")


main()
