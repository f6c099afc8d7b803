"""Create and confirm a planted change.

usage: plant.py SPECFILE...      (python files defining lists of dicts BUGS)
Each dict: id, property, edits=[(file, old, new)], demo (python source), needs,
what_it_breaks.  The change is applied in /repo only while it is confirmed.
"""
import json, subprocess, sys
from pathlib import Path

V, R = Path("/verif"), Path("/repo")
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/plant-t.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    return r.stdout.strip().splitlines()[-1][:200]


def main(bug):
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    d = V / "seeded" / bug["id"]
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in bug["edits"]:
            p = R / f
            t = p.read_text()
            assert t.count(old) == 1, (bug["id"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        (d / "demo.py").write_text(bug["demo"])
        (d / "demo.sh").write_text(
            '#!/bin/bash\n# exit 0 when the property holds\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({
            "property": bug["property"], "needs": bug["needs"],
            "what_it_breaks": bug["what_it_breaks"]}, indent=1) + "\n")
        b = sh("bash /opt/vp/build.sh").returncode
        t = tests()
        bad = sh(f"bash {d}/demo.sh", cwd="/repo")
        clean()
        sh("bash /opt/vp/build.sh")
        good = sh(f"bash {d}/demo.sh", cwd="/repo")
        ok = b == 0 and bad.returncode != 0 and good.returncode == 0
        print(("OK  " if ok else "BAD "), bug["id"], "build", b, "|", t,
              "| with:", bad.returncode, bad.stdout.strip()[-120:].replace("\n", " "),
              "| without:", good.returncode, good.stdout.strip()[-200:] if good.returncode else "")
    finally:
        clean()


ns = {}
for f in sys.argv[1:]:
    exec(open(f).read(), ns)
    for bug in ns["BUGS"]:
        main(bug)
