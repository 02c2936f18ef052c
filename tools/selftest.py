#!/usr/bin/env python3
"""Runs the checker on edited copies of /repo (tools/selftest/*.txt).

Each case: header lines "expect: C15 C19" (checks that must report) or
"expect: quiet" (all given checks must stay quiet), then edits
  @@ path
  <<<<
  old
  ====
  new
  >>>>
Usage: selftest.py [-c C15,C19] [-v] [-t] [pattern...]   (-t also runs go test)
"""
import sys, os, re, glob, shutil, subprocess, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
only = None; verbose = False; test = False
pats = []
while args:
    a = args.pop(0)
    if a == "-c": only = args.pop(0).split(",")
    elif a == "-v": verbose = True
    elif a == "-t": test = True
    else: pats.append(a)
subprocess.check_call(["bash", here + "/bin/build"])
checker = here + "/.build/checker"
allc = [l.split("\t")[0] for l in subprocess.check_output([checker, "list"], text=True).splitlines()]
def run(path):
    txt = open(path).read()
    head, _, body = txt.partition("@@ ")
    exp = re.search(r"expect: *(.*)", head).group(1).split()
    d = tempfile.mkdtemp(prefix="st.", dir="/tmp")
    out = []
    try:
        w = d + "/repo"; v = d + "/v"; os.makedirs(v + "/evidence")
        shutil.copy(here + "/known_findings.txt", v)
        if os.path.isdir(here + "/data"): os.symlink(here + "/data", v + "/data")
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
        for blk in ("@@ " + body).split("@@ ")[1:]:
            f, _, rest = blk.partition("\n")
            fp = w + "/" + f.strip()
            src = open(fp).read() if os.path.exists(fp) else ""
            for m in re.finditer(r"<<<<\n(.*?)====\n(.*?)>>>>", rest, re.S):
                old, new = m.group(1), m.group(2)
                if old == "":
                    src += new; continue
                if src.count(old) != 1: return path, "BADCASE %d occurrences in %s of:\n%s" % (src.count(old), f, old)
                src = src.replace(old, new)
            open(fp, "w").write(src)
        env = dict(os.environ)
        b = subprocess.run(["go", "build", "./..."], cwd=w, capture_output=True, text=True)
        if b.returncode: return path, "BADCASE does not build: " + b.stderr[:500]
        res = ""
        if test:
            t = subprocess.run(["go", "test", "./..."], cwd=w, capture_output=True, text=True)
            bad = [l for l in t.stdout.splitlines() if l.strip().startswith("--- FAIL")]
            if bad: res += " [tests fail: %d]" % len(bad)
        cs = only or (exp if exp != ["quiet"] else allc)
        if only and exp != ["quiet"]: cs = [c for c in only if c in exp]
        cs = [c for c in cs if c in allc]
        for c in cs:
            try: r = subprocess.run([checker, c, w, v], capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired: out.append("%s TIMEOUT" % c); continue
            bad = r.returncode != 0
            want = exp != ["quiet"]
            if r.returncode not in (0, 1): out.append("%s EXIT %d %s" % (c, r.returncode, (r.stdout + r.stderr)[:600]))
            elif bad != want: out.append("%s %s\n%s" % (c, "MISSED" if want else "FALSE ALARM", r.stdout[-1500:] if bad else ""))
            elif verbose and bad: out.append("%s caught\n%s" % (c, r.stdout[:1500]))
        return path, ("ok" if not [o for o in out if "caught" not in o] else "BAD") + res + " " + " ".join(cs) + ("\n" + "\n".join(out) if out else "")
    finally:
        shutil.rmtree(d)
files = sorted(glob.glob(here + "/tools/selftest/*.txt"))
if pats: files = [f for f in files if any(p in os.path.basename(f) for p in pats)]
with cf.ThreadPoolExecutor(6) as ex:
    for p, o in ex.map(run, files): print(os.path.basename(p), o, flush=True)
