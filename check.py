#!/opt/venv/bin/python
"""check.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import traceback

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from harness import core, registry

    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        a.seed, a.tier = replay["seed"], replay["tier"]
    try:
        prop = registry.get(a.property)(a.tier, a.seed)
        rc = core.run(prop, replay)
    except core.Machinery as e:
        print(f"MACHINERY property={a.property}: {e}")
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print(f"MACHINERY property={a.property}: harness crashed")
        sys.exit(4)
    sys.exit(rc)


if __name__ == "__main__":
    main()
