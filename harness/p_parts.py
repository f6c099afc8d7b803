"""C36 which part of a FITS file a labelled object is."""
from __future__ import annotations

import random
import struct
import warnings

import numpy as np
import pandas as pd

from . import fitsfile, pds3, project
from .core import Prop

REC = 2880


def block(raw, fill=b"\0"):
    return raw + fill * (-len(raw) % REC)


def brief(cells):
    """cells, or what stands for many"""
    n = len(cells)
    return cells if n <= 60 else [n, *cells[:8], *cells[n // 2:n // 2 + 8],
                                  *cells[-8:]]


def cards(items, records=1):
    """a header of so many records"""
    out = ""
    for k, v in items:
        v = v if isinstance(v, str) else f"{v:>20}"
        out += f"{k:<8}= {v}"[:80].ljust(80)
    while len(out) < REC * (records - 1):
        out += "COMMENT   more of it".ljust(80)
    out += "END".ljust(80)
    assert len(out) <= REC * records, len(out)
    return out.ljust(REC * records).encode()


def yes(x):
    return ("T" if x else "F").rjust(20)


class Parts(Prop):
    id = "C36"
    module = "Trace_Parts"
    chunk_min = 60
    assumptions = (
        "headers take at most three FITS records and data two (of longer data "
        "some cells are compared); HDUs without data have NAXIS = 0 or no "
        "rows; objects of data sets without rules of their own are pointed "
        "at where some HDU's header or data start (C22 has the rest)",
        "the rules are transcribed from the documentation of pdr's own")
    level_note = (
        "TLC pairs the objects of eleven kinds of product, and of products "
        "that differ from them in one keyword, with files whose HDUs are in "
        "several orders, missing or empty and with right and wrong pointers; "
        "a FITS file and a label are written for each, and the object loaded "
        "from it - first, again and from another Data - is compared, by "
        "contents and header, with the part the specification names")

    def __init__(self, *a):
        super().__init__(*a)
        deep = "FALSE" if self.quick else "TRUE"
        self.models = [("MC_Parts", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Deep = {deep}\n"
            "INVARIANTS Apart Fixed Kept Reachable Emit\n"), "products")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        out, seen = [], {}
        most = 1200 if self.quick else 9000
        # some of every object of every kind of product first
        for s in scns:
            k = (s["id"], s["o"]["name"], repr(s["o"]["ids"]))
            seen[k] = seen.get(k, 0) + 1
            s["rank"] = seen[k]
        for s in sorted(scns, key=lambda s: s["rank"])[:most]:
            s.pop("rank")
            out.append(dict(s, seed=self.rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        return []

    @staticmethod
    def hdu(rng, i, h, more):
        """(bytes, cells) of an HDU, with i as its tag"""
        name = f"'{h['name']:<8}'"
        shape = rng.choice(((2, 3), (3, 2), (2, 2, 2), (5,)))
        table = i > 1 and rng.random() < .5
        if h["size"] > 1:
            shape = (2, REC // 2 * (h["size"] - 1) // 2 + rng.randrange(1, 99))
        n = 0 if h["empty"] else (
            REC // 2 * (h["size"] - 1) + rng.randrange(1, 6) if table
            else int(np.prod(shape)))
        cells = [rng.randrange(-3000, 3000) for _ in range(n)]
        if table:
            head = [("XTENSION", "'BINTABLE'"), ("BITPIX", 8), ("NAXIS", 2),
                    ("NAXIS1", 2), ("NAXIS2", n), ("PCOUNT", 0),
                    ("GCOUNT", 1), ("TFIELDS", 1), ("TTYPE1", "'T       '"),
                    ("TFORM1", "'1I      '")]
        else:
            axes = [] if h["empty"] else list(shape)[::-1]
            head = [("SIMPLE", yes(True)) if i == 1 else
                    ("XTENSION", "'IMAGE   '"), ("BITPIX", 16),
                    ("NAXIS", len(axes))]
            head += [(f"NAXIS{j}", a) for j, a in enumerate(axes, 1)]
            head += ([("EXTEND", yes(True))] if i == 1 else
                     [("PCOUNT", 0), ("GCOUNT", 1)])
        if h["name"]:
            head.append(("EXTNAME", name))
        head.append(("TAG", i))
        return (cards(head, h["head"]) + block(struct.pack(f">{n}h", *cells)),
                brief(cells))

    def execute(self, scn, d):
        import pdr
        rng = random.Random(scn["seed"])
        o = scn["o"]
        name, n = o["name"], scn["at"]["n"]
        content, hdus = b"", []
        for i, h in enumerate(scn["hdus"], 1):
            raw, cells = self.hdu(rng, i, h, i < len(scn["hdus"]))
            content += raw
            hdus.append(dict(h, tag=i, cells=cells))
        folder = d / rng.choice(("x", "HEADER", "MASK.fit"))
        folder.mkdir()
        file = rng.choice(("a.fit", "A.FITS", "a.fits"))
        (folder / file).write_bytes(content)
        at = rng.choice((f"{n}", f"{(n - 1) * REC + 1} <BYTES>"))
        at = f'("{file}", {at})'
        if n == 1 and "HEADER" in name and rng.random() < .3:
            at = f'"{file}"'
        ids = [(i["key"], pds3.q(i["text"])) for i in o["ids"]]
        rng.shuffle(ids)
        if "HEADER" in name:
            inner = [("BYTES", REC)]
        elif "TABLE" in name:
            inner = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3),
                     ("ROW_BYTES", 2), ("COLUMNS", 1)]
        else:
            inner = [("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_BITS", 16),
                     ("SAMPLE_TYPE", "MSB_INTEGER")]
        lbl = folder / "p.lbl"
        lbl.write_bytes(pds3.label([
            *ids, ("RECORD_BYTES", REC), ("^" + name, pds3.raw(at)),
            ("OBJECT", name, inner)]))
        e = dict(op="part", id=scn["id"], o=o, at=scn["at"], hdus=hdus,
                 listed=False)

        def look(x):
            v = x[name]
            if isinstance(v, (np.ndarray, pd.DataFrame)):
                cells = [int(c) for c in np.asarray(v).ravel()]
                if not cells:
                    return {"kind": "nothing"}
                own = x[name + "_HEADER"] if name + "_HEADER" in x.keys() \
                    else None
                return {"kind": "data", "cells": brief(cells),
                        "own": int(own.get("TAG", 0)) if own else 0}
            if v is None or "TAG" not in v:
                return {"kind": "absent"}
            return {"kind": "header", "tag": int(v["TAG"])}

        got = {}

        def first():
            x = got["x"] = pdr.read(str(lbl))
            e["listed"] = name in x.keys()
            return look(x)

        def again():
            got["x"].load(name, reload=True)
            return look(got["x"])

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e["obs"] = [project.observe(first, lambda v: v)]
            e["obs"].append(project.observe(again, lambda v: v))
            e["obs"].append(project.observe(
                lambda: look(pdr.read(str(lbl))), lambda v: v))
        return [e]

    def timeout_events(self, scn):
        return [dict(op="part", id=scn["id"], o=scn["o"], at=scn["at"],
                     hdus=[dict(h, tag=i, cells=[]) for i, h in enumerate(
                         scn["hdus"], 1)], listed=True,
                     obs=[{"kind": "timeout"}])]

    def canary(self, evs, rng):
        e = evs[0]
        obs = e["obs"][0]
        if rng.random() < .2:
            e["listed"] = not e["listed"]
        elif obs["kind"] == "data" and rng.random() < .5:
            obs["own"] += 1
        elif obs["kind"] == "data":
            obs["cells"][0] += 1
        elif obs["kind"] == "header":
            obs["tag"] += 1
        else:
            e["obs"][0] = {"kind": "data", "cells": [1], "own": 1}
        return evs


PROPS = [Parts]
