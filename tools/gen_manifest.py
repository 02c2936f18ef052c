#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in the checker and the notes below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["bash", here + "/bin/build"])
lst = subprocess.check_output([here + "/.build/checker", "list"], text=True).splitlines()
notes = json.load(open(here + "/tools/notes.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
have = {}
for l in lst:
    i, level, tech = l.split("\t")
    have[i] = (level, tech)
for p in props:
    i = p["id"]
    if i in have:
        level, tech = have[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="bin/check " + i,
                           technique=tech, level=level, level_note=notes["claimed"][i]))
    else:
        na.append(dict(property=i, reason=notes["na"][i]))
m = dict(version=1, setup_cmd="bash bin/build", checks=checks, not_applicable=na,
         notes="All checks are static analyses of /repo's working tree (checker/); nothing of /repo is run. The quick and thorough tiers are the same full analysis.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", len(na), "not applicable")
