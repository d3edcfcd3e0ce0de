#!/usr/bin/env python3
"""Decide one property of /verif/properties.jsonl on /repo's working tree.

usage: check.py ID [--thorough] [--keep]
       check.py --replay FILE          re-run one replay file
       check.py --setup                build everything once (setup_cmd)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed (build error, no answer).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
# Development only (tools/bug.py): explore another source tree, keep evidence and replays out of /verif.
DEV_REPO = os.environ.get("GMVERIF_DEV_REPO")
OUT = os.environ.get("GMVERIF_DEV_OUT", VERIF) if DEV_REPO else VERIF
WORKERS = 8
RACE = {"P40"}          # explored under the race detector
LIMIT = {"quick": 800, "thorough": 4 * 3600}
sys.path.insert(0, VERIF)


def goenv(race=False):
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-buildvcs=false -mod=mod",
             GOSUMDB="off", GOWORK="off", CGO_ENABLED="1" if race else "0", GOENV="off")
    for k in ("GODEBUG", "GOEXPERIMENT", "GOARCH", "GOOS"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    return e


def find_go():
    for c in ("/usr/local/go/bin/go", shutil.which("go"), "/usr/bin/go"):
        if c and os.path.exists(c):
            return c
    return "go"


def build(work, race):
    """Build the harness against /repo's working tree into work/gmverif."""
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    out = os.path.join(work, "gmverif")
    if DEV_REPO:
        subprocess.run(["sed", "-i", "s#=> /repo#=> %s#" % DEV_REPO, os.path.join(src, "go.mod")], check=True)
    cmd = [shutil.which("go") or find_go(), "build", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=src, env=goenv(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write("check.py: the harness does not build against /repo:\n" + p.stdout[-4000:])
        sys.exit(2)
    return out


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                m = re.match(r"known: property=(\S+) sub=(\S+) match=(\S+) (.*)$", line)
                if m:
                    known.append(m.groups())
    return known


def run_env(prop):
    e = goenv(prop in RACE)
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "all"
    e["GMVERIF_SOURCES"] = DEV_REPO or REPO
    if prop in RACE:
        e["GOMAXPROCS"] = "4"
    else:
        e["GOMAXPROCS"] = "2"
        e["GOMEMLIMIT"] = "3GiB"
    return e


def crash_reason(err):
    for pat in (r"WATCHDOG: [^\n]*", r"WARNING: DATA RACE", r"fatal error: [^\n]*", r"panic: [^\n]*",
                r"unexpected fault address[^\n]*"):
        m = re.search(pat, err)
        if m:
            return m.group(0), err[m.start():m.start() + 4000]
    return None, None


def current_case(prefix):
    try:
        b = open(prefix + ".current", "rb").read()
        n = int(b[:10])
        nl = b.index(b"\n")
        sub = b[11:nl].decode()
        return sub, json.loads(b[nl + 1:nl + 1 + n])
    except Exception:
        return None, None


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def explore(exe, prop, tier, seed, work):
    """Run the workers. Returns (results, violation, error)."""
    n = WORKERS
    if prop in RACE:
        n = 4
    procs = []
    for i in range(n):
        prefix = os.path.join(work, "w%d" % i)
        errf = open(prefix + ".err", "w+")
        p = subprocess.Popen([exe, "-prop", prop, "-worker", str(i), "-of", str(n), "-tier", tier,
                              "-vseed", str(seed), "-out", prefix],
                             stdout=errf, stderr=errf, env=run_env(prop), start_new_session=True, cwd=work)
        procs.append((i, p, prefix, errf))
    end = time.time() + LIMIT[tier]
    results, violations, errors = [], [], []
    pending = list(procs)
    stop_at = None
    while pending:
        for item in list(pending):
            i, p, prefix, errf = item
            if p.poll() is None:
                continue
            pending.remove(item)
            errf.flush()
            errf.seek(0)
            err = errf.read()
            rc = p.returncode
            res = None
            if os.path.exists(prefix + ".json"):
                try:
                    res = json.load(open(prefix + ".json"))
                except ValueError:
                    res = None
            if rc == 0 and res is not None:
                results.append((prefix, res))
            elif rc == 1 and res is not None and res.get("violation"):
                results.append((prefix, res))
                violations.append(res["violation"])
            else:
                if "HARNESS:" in err:
                    errors.append("worker %d: %s" % (i, err[err.index("HARNESS:"):][:3000]))
                    continue
                reason, detail = crash_reason(err)
                sub, case = current_case(prefix)
                if reason and re.search(r"out of memory|cannot allocate|errno=12", err):
                    reason = None       # the machine, not the code
                if reason and sub:
                    violations.append({"property": prop, "sub": sub, "case": case,
                                       "message": reason + "\n" + detail, "crash": True})
                else:
                    errors.append("worker %d ended with %s: %s" % (i, rc, err[-2000:]))
        if violations and stop_at is None:
            stop_at = time.time() + 12   # let the others finish shrinking
        if (stop_at and time.time() > stop_at) or time.time() > end:
            break
        time.sleep(0.02)
    timed_out = bool(pending) and not violations
    for _, p, _, errf in procs:
        if p.poll() is None:
            kill(p)
            p.wait()
        errf.close()
    if timed_out:
        errors.append("no answer within %d s" % LIMIT[tier])
    return results, violations, errors, n


def guided(exe, prop, work, seconds):
    """Coverage-guided exploration: the fuzzer's bytes are the generators' choices.
    Returns (what was done per sub-check, violations, errors)."""
    p = subprocess.run([exe, "-prop", prop, "-fuzzable"], env=run_env(prop), stdout=subprocess.PIPE, text=True)
    done, violations, errors = {}, [], []
    src = os.path.join(work, "src")
    for sub in p.stdout.split():
        out = os.path.join(work, "guided.json")
        e = run_env(prop)
        e.update(GMVERIF_FUZZ="%s/%s" % (prop, sub), GMVERIF_FUZZ_OUT=out)
        cmd = [shutil.which("go") or find_go(), "test", "-run", "^$", "-fuzz", "FuzzSub", "-fuzztime", "%ds" % seconds,
               "-parallel", str(WORKERS), "-fuzzminimizetime", "1x", "-timeout", "0",
               "-test.fuzzcachedir=" + os.path.join(work, "corpus", sub), "."]
        try:
            q = subprocess.run(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 900)
        except subprocess.TimeoutExpired:
            errors.append("guided exploration of %s gives no answer" % sub)
            continue
        m = re.findall(r"execs: (\d+).*new interesting: (\d+) \(total: (\d+)\)", q.stdout)
        if m:
            done[sub] = {"executions": int(m[-1][0]), "kept_inputs": int(m[-1][2]), "seconds": seconds}
        if q.returncode == 0:
            continue
        m = re.search(r"-run=FuzzSub/(\w+)", q.stdout)
        if not os.path.exists(out) and m:     # the process died: write the case of that input
            e["GMVERIF_FUZZ_DRY"] = "1"
            subprocess.run([cmd[0], "test", "-run", "FuzzSub/" + m.group(1), "."], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.exists(out):
            v = json.load(open(out))
            reason, _ = crash_reason(q.stdout)
            if reason and "the process ended" in v["message"]:
                v["message"] = reason
            violations.append(v)
            break
        errors.append("guided exploration of %s: %s" % (sub, q.stdout[-1500:]))
    return done, violations, errors


def confirm(exe, prop, path):
    """Replay in a fresh process; returns text of what happened."""
    try:
        p = subprocess.run([exe, "-replay", path], env=run_env(prop), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return True, "replay does not end"
    if p.returncode == 0 and "not reproduced" in p.stdout:
        return False, "not reproduced in a fresh process"
    return True, p.stdout[-3000:]


def write_replay(prop, v):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    raw = json.dumps({k: v[k] for k in ("property", "sub", "case", "message")}, indent=1)
    h = hashlib.sha256(json.dumps([v["sub"], v["case"]]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, v["sub"], h))
    with open(path, "w") as f:
        f.write(raw + "\n")
    return path


def evidence(prop, tier, seed, results, violations, wall, n, note, extra):
    distinct = set()
    subs = {}
    for prefix, res in results:
        try:
            b = open(prefix + ".hashes", "rb").read()
        except OSError:
            b = b""
        for i in range(0, len(b), 8):
            distinct.add(b[i:i + 8])
        for name, st in res["stats"].items():
            s = subs.setdefault(name, {"rule": st["rule"], "cases": 0, "nontrivial": 0, "classes": {},
                                       "samples": [], "cpu_s": 0.0})
            s["cases"] += st["cases"]
            s["nontrivial"] += st["nontrivial"]
            s["cpu_s"] = round(s["cpu_s"] + st["cpu_s"], 3)
            for c, k in (st["classes"] or {}).items():
                s["classes"][c] = s["classes"].get(c, 0) + k
            if len(s["samples"]) < 3:
                s["samples"] += (st["samples"] or [])[:3 - len(s["samples"])]
    samples = []
    for name in sorted(subs):
        for c in subs[name]["samples"]:
            samples.append({"sub": name, "case": c})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["cases"] for s in subs.values()),
            "distinct_nontrivial": len(distinct),
            "rule": " || ".join("%s: %s" % (k, subs[k]["rule"]) for k in sorted(subs)),
            "samples": samples,
            "sub_checks": {k: {x: subs[k][x] for x in ("cases", "nontrivial", "classes", "cpu_s")} for k in sorted(subs)},
        },
        "guided": extra,
        "wall_s": round(wall, 3),
        "workers": n,
        "violations": len(violations),
        "note": note,
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, "%s.json" % prop))


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        sys.exit(2)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if tier not in LIMIT:
        tier = "quick"
    seed = int(re.sub(r"[^0-9]", "", os.environ.get("VERIF_SEED", "1")) or "1")
    work = tempfile.mkdtemp(prefix="gmverif-")
    try:
        if args[0] == "--setup":
            build(work, False)
            shutil.rmtree(os.path.join(work, "src"))
            build(work, True)
            print("setup done")
            return 0
        if args[0] == "--replay":
            v = json.load(open(args[1]))
            exe = build(work, v["property"] in RACE)
            ok, text = confirm(exe, v["property"], os.path.abspath(args[1]))
            print(text)
            return 1 if ok else 0
        prop = args[0]
        return check(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work):
    start = time.time()
    exe = build(work, prop in RACE)
    results, violations, errors, n = explore(exe, prop, tier, seed, work)
    extra = {}
    if tier == "thorough" and prop not in RACE and not violations and not errors:
        extra, more, bad = guided(exe, prop, work, 240)
        errors += bad
        for v in more:      # believed only if it happens again in a fresh process
            path = os.path.join(work, "guided-replay.json")
            json.dump(v, open(path, "w"))
            if confirm(exe, prop, path)[0]:
                violations.append(v)
            else:
                errors.append("guided exploration reports a case that does not fail again: %s" % json.dumps(v)[:800])
    known = [k for k in known_findings() if k[0] == prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    violations.sort(key=lambda v: len(json.dumps(v["case"])))
    evidence(prop, tier, seed, results, violations, time.time() - start, n,
             "; ".join(errors)[:500], extra)
    if violations:
        v = violations[0]
        path = write_replay(prop, v)
        ok, text = confirm(exe, prop, path)
        print("%s/%s: %s" % (prop, v["sub"], v["message"][:1500]))
        print("replay in a fresh process: %s" % text[:300].strip())
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("check.py: " + e)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
