#!/usr/bin/env python3
"""Planted bugs.

bug.py add SPEC.py...   make /verif/seeded/<id> from a spec, after confirming it in a scratch copy
bug.py run ID...        run the property's check against a scratch copy with the bug (development)
bug.py all              run every bug; prints a table
A spec defines: id, prop, needs, breaks, edits=[(file, old, new)...], demo (Go main package text)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
ENV = ". /opt/vp/env.sh; "
DEMO = '''#!/bin/bash
# run with cwd = the source tree; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-buildvcs=false -mod=mod" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"
printf 'module demo\\n\\ngo 1.24\\n\\nrequire github.com/ZZMarquis/gm v0.0.0\\n\\nreplace github.com/ZZMarquis/gm => %s\\n' "$repo" > "$t/go.mod"
cd "$t" || exit 3
GOEXTRA go build -o demo . || exit 3
timeout 200 ./demo
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def scratch():
    d = tempfile.mkdtemp(prefix="bugwork-")
    subprocess.run("cp -a /repo %s/repo" % d, shell=True, check=True)
    return d, d + "/repo"

def tests(repo):
    p = sh("rm -f sm2/cert/sample.csr sm2/cert/sample.cer; go test -json -vet=off -count=1 -timeout 5m ./...", repo)
    ok = set()
    for l in p.stdout.splitlines():
        try: r = json.loads(l)
        except ValueError: continue
        if r.get("Action") == "pass" and r.get("Test"): ok.add(r["Package"] + "/" + r["Test"])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable - ok

def add(path):
    g = {"race": False}
    exec(open(path).read(), g)
    d, repo = scratch()
    try:
        tgt = d + "/out"
        os.makedirs(tgt)
        open(tgt + "/main.go", "w").write(g["demo"].lstrip())
        subprocess.run(["gofmt", "-w", tgt + "/main.go"], env={**os.environ, "PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]})
        open(tgt + "/demo.sh", "w").write(DEMO.replace("GOEXTRA go build", "CGO_ENABLED=1 go build -race" if g["race"] else "go build"))
        os.chmod(tgt + "/demo.sh", 0o755)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(tgt + "/meta.json", "w"), indent=1)
        p = sh("bash %s/demo.sh" % tgt, repo)
        if p.returncode != 0:
            print(g["id"], "DEMO FAILS ON CLEAN TREE", p.returncode, p.stdout[-1500:]); return False
        for f, old, new in g["edits"]:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                print(g["id"], "EDIT MATCHES", s.count(old), f, repr(old)); return False
            open(repo + "/" + f, "w").write(s.replace(old, new))
        p = sh("gofmt -l . ; go build ./...", repo)
        if p.returncode != 0:
            print(g["id"], "BUILD", p.stdout[-1500:]); return False
        miss = tests(repo)
        if miss:
            print(g["id"], "TESTS FAIL", sorted(miss)[:5]); return False
        sh("git checkout -q -- sm2/cert/sample.csr sm2/cert/sample.cer", repo)
        p = sh("bash %s/demo.sh" % tgt, repo)
        if p.returncode in (0, 3):
            print(g["id"], "DEMO DOES NOT FAIL WITH PATCH", p.returncode, p.stdout[-500:]); return False
        out = p.stdout[-200:].strip().replace("\n", " | ")
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        open(tgt + "/patch.diff", "w").write(diff)
        dst = S + "/" + g["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tgt, dst)
        print(g["id"], "ok:", out)
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(bid, seed="1", tier="quick"):
    meta = json.load(open("%s/%s/meta.json" % (S, bid)))
    d, repo = scratch()
    try:
        p = sh("git apply %s/%s/patch.diff" % (S, bid), repo)
        if p.returncode != 0:
            return bid, meta["property"], "DOES NOT APPLY", 0, ""
        t = time.time()
        env = dict(os.environ, GMVERIF_DEV_REPO=repo, GMVERIF_DEV_OUT=d, VERIF_SEED=seed, VERIF_TIER=tier)
        p = subprocess.run(["bash", "-c", ENV + "exec python3 %s/check.py %s" % (V, meta["property"])], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        st = {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR %d" % p.returncode)
        return bid, meta["property"], st, time.time() - t, p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "add":
        good = [x for x in a[1:] if add(x)]
        sys.exit(0 if len(good) == len(a) - 1 else 1)
    ids = sorted(os.listdir(S)) if a[0] == "all" else a[1:]
    for b in ids:
        bid, prop, st, t, out = run(b, os.environ.get("VERIF_SEED", "1"))
        first = out.splitlines()[0][:150] if out else ""
        print("%-28s %s %-8s %5.1fs %s" % (bid, prop, st, t, first), flush=True)
        if st.startswith("ERROR"): print(out[-1500:])
