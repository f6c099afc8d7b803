"""property id -> property class"""
import importlib
from pathlib import Path


def get(pid):
    for p in sorted(Path(__file__).parent.glob("p_*.py")):
        mod = importlib.import_module(f"harness.{p.stem}")
        for obj in vars(mod).values():
            if getattr(obj, "id", None) == pid and isinstance(obj, type):
                return obj
    raise KeyError(pid)


def ids():
    out = {}
    for p in sorted(Path(__file__).parent.glob("p_*.py")):
        mod = importlib.import_module(f"harness.{p.stem}")
        for obj in vars(mod).values():
            if isinstance(obj, type) and getattr(obj, "module", None):
                out[obj.id] = obj
    return out
