"""summarise why sessions of a check are rejected: triage.py ID [field...]"""
import sys, os, json, collections
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
os.environ["MPLBACKEND"] = "Agg"
from harness import core, registry
import shutil
sys.path.insert(0,"/tmp/fx")
pid = sys.argv[1]
orig = core.validate
def val(prop, sessions, w):
    r, g, o = orig(prop, sessions, w)
    c = collections.Counter(); ex = {}
    for si, rj in r.items():
        ev = sessions[si][rj["ev"]]
        if si >= prop.n_real: continue
        key = (tuple(sorted(map(str, rj["why"]))),) + tuple(
            str(eval(f, {}, {"e": ev, "o": ev.get("obs"), "s": sessions[si]})) for f in sys.argv[2:])
        c[key] += 1; ex.setdefault(key, si)
    for k, n in c.most_common(int(os.environ.get("N","10"))):
        print(n, k, "e.g. session", ex[k])
        ev = sessions[ex[k]][r[ex[k]]["ev"]]
        s = json.dumps({a: b for a, b in ev.items() if a not in ("file",)})
        print("    ", s[:int(os.environ.get("W","260"))], str(r[ex[k]].get("detail", ""))[:300])
    return r, g, o
core.validate = val
prop = registry.get(pid)(os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
try:
    core.run(prop)
except core.Machinery as e:
    print("MACHINERY", e)
