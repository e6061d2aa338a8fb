#!/usr/bin/env python3
"""Runs the checks.

    run.py setup             build the harness
    run.py check C05         one property, tier from VERIF_TIER, seed from VERIF_SEED
    run.py replay FILE       re-run and re-judge a recorded violation
    run.py list              the checks

Exit codes: 0 the property held on everything explored, 1 violation (with a
VIOLATION line), 2 the check could not be carried out.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "pdfv")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    """The check itself could not be carried out."""


def build():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("harness does not build:\n" + p.stdout[-4000:])


# A thorough run starts nothing new after this many seconds.
BUDGET = 700


def tlc(module, cfg, meta, env=None, args=(), timeout=800, xmx="3g"):
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + xmx, "-Xss1g", "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    return p.stdout


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def verdict(out):
    """None if TLC was satisfied, else (what, state text)."""
    if "Model checking completed. No error has been found." in out:
        return None
    m = re.search(r"Error: Invariant (\w+) is violated", out)
    if m:
        return m.group(1)
    m = re.search(r"Error: Action property (\w+) is violated", out)
    if m:
        return m.group(1)
    if "Error: Deadlock reached." in out:
        return "execution-not-allowed"
    if "Error: The behavior up to this point is:" in out or "Error: The error occurred when" in out:
        if "OutOfMemory" in out:
            raise Broken("TLC ran out of memory")
        return "evaluation"
    raise Broken("TLC failed:\n" + out[:800] + "\n...\n" + out[-800:])


def harness(fams, seed, outdir, programs=None, timeout=200):
    """Runs families (list of (name, count)) into one set of shards."""
    summary = {"programs": 0, "events": 0, "bytes": 0, "calls": {}}
    spec = ",".join(f"{n}:{c}" for n, c in fams)
    cmd = [BIN, spec, str(seed), outdir, str(SHARDS)] + ([programs] if programs else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        p = None
    if p is None or p.returncode not in (0, 3):
        # The code under test hung or brought the process down.
        cur = os.path.join(outdir, "current")
        what = open(cur).read() if os.path.exists(cur) else "?"
        return None, f"{'no end' if p is None else 'process died'}: {what}"
    if p.returncode == 3:
        raise Broken("harness: " + p.stderr[-2000:])
    d = json.loads(p.stdout)
    for k in ("programs", "events", "bytes"):
        summary[k] += d[k]
    summary["calls"] = d["calls"]
    return summary, None


def trace_cfg(path, invariants, module="PdfTrace"):
    with open(path, "w") as f:
        f.write("SPECIFICATION TSpec\nVIEW View\nALIAS Short\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")


def judge(outdir, invariants, meta):
    """Checks all shards of an output directory against the specification."""
    cfg = os.path.join(outdir, "trace.cfg")
    trace_cfg(cfg, invariants)
    shards = [k for k in range(SHARDS)
              if os.path.getsize(os.path.join(outdir, f"{k}.ndjson")) > 0]

    def one(k):
        f = os.path.join(outdir, f"{k}.ndjson")
        out = tlc("PdfTrace.tla", cfg, os.path.join(meta, f"m{k}"),
                  env={"TRACE": f}, args=["-workers", "1"])
        return f, out, verdict(out)

    gen = dist = 0
    bad = []
    with ThreadPoolExecutor(max_workers=SHARDS) as ex:
        for f, out, v in ex.map(one, shards):
            g, d = counts(out)
            gen += g
            dist += d
            if v:
                bad.append((f, out, v))
    return gen, dist, bad


def locate(f, out):
    """The execution and the position in it where TLC stopped."""
    tr = re.findall(r"^/\\ tr = (\d+)", out, re.M)
    pos = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not tr:
        return None, 0
    n = int(tr[-1])
    with open(f) as h:
        for i, line in enumerate(h, 1):
            if i == n:
                return json.loads(line), int(pos[-1]) if pos else 0
    return None, 0


def write_replay(prop, n, rec):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{n}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def known_findings(prop):
    path = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) program=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def model(job, work, seed, tier):
    """An exhaustive check of a model; returns (states, distinct, programs file, verdict)."""
    cfg = os.path.join(SPEC, job.get(tier + "_cfg") or job["cfg"])
    out = tlc(job["module"], cfg, os.path.join(work, "mc-" + job["name"]),
              args=["-workers", str(job.get("workers", 4))], timeout=850, xmx="8g")
    v = verdict(out)
    g, d = counts(out)
    progs = os.path.join(work, job["name"] + ".programs")
    seen = set()
    with open(progs, "w") as f:
        for m in re.finditer(r'^<<"PROGRAM", "(.*)">>$', out, re.M):
            text = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if text not in seen:
                seen.add(text)
                f.write(text + "\n")
    return g, d, progs, len(seen), v, out


def pieces(path, size=20000):
    """Splits a file of programs."""
    out = []
    with open(path) as f:
        lines = f.readlines()
    for k in range(0, len(lines), size):
        out.append(f"{path}.{k // size}")
        with open(out[-1], "w") as f:
            f.writelines(lines[k:k + size])
    return out


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    build()
    base = os.path.join(ROOT, "work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    violations = []
    gen = dist = traces = events = nbytes = 0
    models = {}
    calls = {}
    samples = []
    try:
        # 1. The models on their own, and the behaviours they enumerate.
        batches = []
        jobs = c.get("models", [])
        with ThreadPoolExecutor(max_workers=4) as ex:
            res = list(ex.map(lambda j: model(j, work, seed, tier), jobs))
        for job, (g, d, progs, n, v, out) in zip(jobs, res):
            gen += g
            dist += d
            models[job["name"]] = {"states": g, "distinct": d, "programs": n}
            if v:
                raise Broken(f"the model {job['name']} violates {v}:\n{out[-3000:]}")
            if n:
                # In pieces, of which a thorough run does what it has time for.
                for k, piece in enumerate(pieces(progs)):
                    batches.append((job["name"], [("model-" + job["name"], 0)], piece))
        # 2. Random programs: the next ones of each family in each round.
        done_fams = {}
        fams = c["families"]
        for rd in range(10000):
            start = {f: rd * n["quick"] for f, n in fams.items()}
            left = [(f, start[f], min(n["quick"], n[tier] - start[f]))
                    for f, n in fams.items() if start[f] < n[tier]]
            if not left:
                break
            batches.append((rd, left, None))
        if tier == "thorough":
            # What a quick run does comes first, then both kinds in turn.
            rand = [x for x in batches if x[2] is None]
            mods = [x for x in batches if x[2] is not None]
            batches = []
            while rand or mods:
                batches += rand[:1] + mods[:1]
                rand, mods = rand[1:], mods[1:]
        # 3. Run all of them on the library; judge the recordings.
        longest = 0
        for bn, (which, fs, progs) in enumerate(batches):
            if tier == "thorough" and time.time() - t0 + 1.2 * longest > BUDGET:
                break
            tb = time.time()
            if progs is None:
                fs = [(f"{f}@{k}", n) for f, k, n in fs]
                for f, n in fs:
                    f = f.split("@")[0]
                    done_fams[f] = done_fams.get(f, 0) + n
            od = os.path.join(work, f"b{bn}")
            os.makedirs(od)
            sm, died = harness(fs, seed + 1000 * (0 if progs else which), od, progs)
            if died:
                path = write_replay(prop, len(violations), {"property": prop, "died": died})
                violations.append((died, path))
                break
            if progs:
                models[which]["run"] = models[which].get("run", 0) + sm["programs"]
            traces += sm["programs"]
            events += sm["events"]
            nbytes += sm["bytes"]
            for k, n in sm["calls"].items():
                calls[k] = calls.get(k, 0) + n
            g, d, bad = judge(od, c["invariants"], od)
            gen += g
            dist += d
            if len(samples) < 3:
                with open(os.path.join(od, "0.ndjson")) as f:
                    line = f.readline()
                    if line:
                        samples.append(line[:600])
            for f, out, v in bad:
                t, pos = locate(f, out)
                ev = t["ev"][pos - 1] if t and 0 < pos <= len(t["ev"]) else None
                nxt = t["ev"][pos] if t and pos < len(t["ev"]) else None
                rec = {"property": prop, "violated": v, "program": t and t["id"],
                       "position": pos, "event": ev, "next": nxt,
                       "invariants": c["invariants"], "trace": t,
                       "tlc": "" if v != "evaluation" else out[-3000:]}
                path = write_replay(prop, len(violations), rec)
                violations.append((f"{v} {t and t['id']}", path))
            shutil.rmtree(od)
            longest = max(longest, time.time() - tb)
            if violations:
                break
        known = known_findings(prop)
        fresh = []
        for what, path in violations:
            if any(what.endswith(" " + p) for p, _ in known):
                continue
            fresh.append((what, path))
        for p, text in known:
            print(f"KNOWN-FINDING: property={prop} {text}")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump({
                "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                "coverage": {
                    "states": gen, "distinct_states": dist, "transitions": gen,
                    "traces_validated_against_impl": traces,
                    "api_events": events, "trace_bytes": nbytes,
                    "invariants": c["invariants"], "models": models,
                    "families": done_fams,
                    "typed_methods_called": len(calls),
                    "typed_calls": sum(calls.values()),
                    "samples": samples or ["(none)"],
                    "rule": "each trace is one program of API calls run on the library and "
                            "replayed on the specification; every event is one transition",
                },
                "assumptions": c.get("assumptions", []),
                "wall_s": round(time.time() - t0, 2),
                "violations": len(fresh),
            }, f, indent=1)
        for what, path in fresh:
            print(f"# {what}")
            print(f"VIOLATION property={prop} replay={path}")
        if not fresh:
            print(f"{prop}: {traces} executions, {events} events, {gen} states, "
                  f"{len(models)} models, {time.time() - t0:.1f} s")
        return 1 if fresh else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    prop = rec["property"]
    if "died" in rec:
        print(rec["died"])
        return check(prop)
    build()
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(ROOT, "work"))
    try:
        fam, seed, n = rec["program"].rsplit("/", 2)
        if seed == "program":
            return check(prop)
        sm, died = harness([(fam + "@" + n, 1)], int(seed), work)
        if died:
            print(died)
            return 1
        _, _, bad = judge(work, rec["invariants"], work)
        for f, out, v in bad:
            t, pos = locate(f, out)
            print(f"{v} at event {pos} of {t['id']}: {json.dumps(t['ev'][max(0, pos-1)])[:2000]}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "setup":
            build()
            return 0
        if sys.argv[1] == "list":
            for p in sorted(CHECKS):
                print(p, CHECKS[p]["families"], CHECKS[p]["invariants"])
            return 0
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
    except Broken as e:
        print(f"error: {e}", file=sys.stderr)
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
