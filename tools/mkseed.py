#!/usr/bin/env python3
"""Turns tools/seeds/<id>.txt into seeded/<id>/, after confirming in a scratch
copy that the change builds, passes the stable tests, and that its
demonstration passes without it and fails with it.

  property: C09 / pkg: wordbreak/hyphenator / race: yes / needs: ... / breaks: ...
  @@ path, <<<< old ==== new >>>>   (as in tools/selftest)
  %%demo  then the Go test file of the demonstration (TestDemo)
Usage: mkseed.py [-c] id...   (-c: also run the check of the property)
"""
import sys, os, re, json, shutil, subprocess, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Run in /repo: exit 0 when the property holds on the demonstrated case.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s": "%s"}}' "$PWD/PKG/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
timeout 240 go test RACE-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG
'''
def stable(w):
    out = {}
    t = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=w, env=ENV, capture_output=True, text=True)
    for l in t.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] in ("pass", "fail"): out[e["Package"] + "/" + e["Test"]] = e["Action"]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [b for b in base if out.get(b) != "pass"]
def make(i, runcheck):
    txt = open(f"{here}/tools/seeds/{i}.txt").read()
    head, _, rest = txt.partition("@@ ")
    body, _, demo = rest.partition("%%demo\n")
    meta = dict(re.findall(r"^(\w+): *(.*)$", head, re.M))
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        w = d + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        out = d + "/out"; os.makedirs(out)
        open(out + "/demo_test.go.txt", "w").write(demo)
        open(out + "/demo.sh", "w").write(DEMO.replace("PKG", meta["pkg"]).replace("RACE", "-race " if meta.get("race") else ""))
        os.chmod(out + "/demo.sh", 0o755)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        if a.returncode: return i, "BAD demo fails on the unchanged tree:\n" + (a.stdout + a.stderr)[-1500:]
        for blk in ("@@ " + body).split("@@ ")[1:]:
            f, _, r = blk.partition("\n")
            fp = w + "/" + f.strip()
            src = open(fp).read()
            for m in re.finditer(r"<<<<\n(.*?)====\n(.*?)>>>>", r, re.S):
                if src.count(m.group(1)) != 1: return i, "BAD %d occurrences in %s of:\n%s" % (src.count(m.group(1)), f, m.group(1))
                src = src.replace(m.group(1), m.group(2))
            open(fp, "w").write(src)
        b = subprocess.run("gofmt -l . ; go build ./...", shell=True, cwd=w, env=ENV, capture_output=True, text=True)
        if b.returncode: return i, "BAD build:\n" + b.stderr[-800:]
        note = " (gofmt: %s)" % b.stdout.split() if b.stdout.strip() else ""
        # the lines removed must be lines of the original repository
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
        base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=w, text=True).strip()
        orig = ""
        for f in re.findall(r"^--- a/(.*)$", diff, re.M):
            orig += subprocess.run(["git", "show", base + ":" + f], cwd=w, capture_output=True, text=True).stdout
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        mine = [l for l in gone if l not in orig.splitlines()]
        if mine: note += " (removes lines of fix commits: %r)" % mine
        lost = stable(w)
        if lost: return i, "BAD stable tests lost: %s" % lost[:5]
        a = subprocess.run(["bash", out + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        if a.returncode == 0: return i, "BAD demo passes with the change"
        if "build failed" in a.stdout: return i, "BAD demo build " + a.stdout[-800:]
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=meta["property"], needs=meta["needs"], what_it_breaks=meta["breaks"]), open(out + "/meta.json", "w"), indent=1)
        dst = f"{here}/seeded/{i}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        res = "ok" + note
        if runcheck:
            v = d + "/v"; os.makedirs(v + "/evidence"); shutil.copy(here + "/known_findings.txt", v)
            if os.path.isdir(here + "/data"): os.symlink(here + "/data", v + "/data")
            c = subprocess.run([here + "/.build/checker", meta["property"], w, v], capture_output=True, text=True, env=dict(ENV))
            res += " | check %s exit %d" % (meta["property"], c.returncode)
            if runcheck > 1: res += "\n" + c.stdout[:1200]
        return i, res
    finally:
        shutil.rmtree(d)
args = sys.argv[1:]; rc = 0
while args and args[0] in ("-c", "-v"): rc = max(rc, 2 if args.pop(0) == "-v" else 1)
ids = args or sorted(f[:-4] for f in os.listdir(here + "/tools/seeds"))
with cf.ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(lambda i: make(i, rc), ids): print(i, r, flush=True)
