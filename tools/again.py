"""re-run the scenario of a replay file, with pdr's warnings shown: again.py REPLAY"""
import sys, json, tempfile, pathlib, warnings, shutil
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
from harness import registry
r = json.load(open(sys.argv[1]))
p = registry.get(r["property"])("quick", 1)
d = pathlib.Path(tempfile.mkdtemp())
warnings.simplefilter("always")
evs = p.execute(r["scenario"], d)
print(json.dumps(r["reject"])[:600])
print(json.dumps(evs)[:3000])
if "-k" in sys.argv: print(d)
else: shutil.rmtree(d)
