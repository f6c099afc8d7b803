"""addfixed.py PROPERTY COMMIT-PATTERN TEXT: record a fix of /repo"""
import json, subprocess, sys
prop, pat, text = sys.argv[1:4]
sha = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-F",
                      "--grep", pat], capture_output=True,
                     text=True).stdout.split()
assert len(sha) == 1, sha
p = "/verif/known_findings.json"
d = json.load(open(p))
line = f"fixed: property={prop} {sha[0]} {text}"
if line not in d["fixed"]:
    d["fixed"].append(line)
json.dump(d, open(p, "w"), indent=1)
