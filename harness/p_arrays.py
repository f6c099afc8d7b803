"""C29 arrays and histograms."""
from __future__ import annotations

import random
import warnings

import numpy as np
import pandas as pd

import pdr

from . import pds3, project
from .core import Prop
from .p_table import cellbytes
from .p_text import integer, real

INT = ["LSB_INTEGER", "PC_INTEGER", "VAX_INTEGER", "MSB_INTEGER",
       "SUN_INTEGER", "MAC_INTEGER", "INTEGER", "LSB_UNSIGNED_INTEGER",
       "PC_UNSIGNED_INTEGER", "VAX_UNSIGNED_INTEGER", "MSB_UNSIGNED_INTEGER",
       "SUN_UNSIGNED_INTEGER", "MAC_UNSIGNED_INTEGER", "UNSIGNED_INTEGER"]
REAL = ["IEEE_REAL", "FLOAT", "REAL", "MAC_REAL", "SUN_REAL", "PC_REAL"]
BITS = ["MSB_BIT_STRING", "LSB_BIT_STRING"]
FOUND = ("packed-reals", "nested-tail", "subobject-first",
         "array-in-array", "bare-nested-array", "group-apart")


def leaf_column(name, a):
    """a: array of plain dtype, raveled"""
    a = np.asarray(a).ravel()
    if a.dtype.kind in "SV":
        return {"name": name, "kind": "bytes", "dtype": "O",
                "data": [list(bytes(x)) for x in a.tolist()]}
    if a.dtype.kind not in "iuf":
        return {"name": name, "kind": a.dtype.kind, "dtype": "O", "data": []}
    return {"name": name, "kind": "num", "dtype": project.dtcode(a.dtype),
            "data": project.canon_bytes(a)}


def leaves(a, out):
    for name in a.dtype.names:
        f = a.dtype[name]
        if f.kind == "V" and f.itemsize == 0:
            continue
        if f.names:
            leaves(a[name], out)
        elif f.subdtype is not None:
            dt, shape = f.subdtype
            x = a[name]
            for i in range(shape[0]):
                if dt.names:
                    leaves(x[..., i], out)
                else:
                    out.append(leaf_column(name, x[..., i]))
        else:
            out.append(leaf_column(name, a[name]))


def binary(v):
    if not isinstance(v, np.ndarray):
        return {"kind": type(v).__name__}
    if v.dtype.names:
        out = []
        leaves(v, out)
    else:
        out = [leaf_column("", v)]
    return {"kind": "leafarray", "shape": list(v.shape), "leaves": out}


def numbers(v):
    if not isinstance(v, np.ndarray) or v.dtype.kind not in "iuf":
        return {"kind": str(getattr(v, "dtype", type(v).__name__))}
    return {"kind": "numbers", "shape": list(v.shape),
            "int": v.dtype.kind in "iu",
            "data": [repr(x) for x in v.ravel().tolist()]}


class Arrays(Prop):
    id = "C29"
    module = "Trace_Arrays"
    chunk_min = 100
    assumptions = (
        "elements of structured arrays are integers, IEEE reals, text or bit "
        "strings; nested arrays have one axis and sub-objects",
        "the last index varies fastest (AXIS_ORDER_TYPE is not read)")
    level_note = (
        "TLC explores every item description up to the bound with a writer "
        "that walks it; each one is replayed with seeded types, sizes and "
        "contents, and flat, ASCII arrays and histograms of every type with "
        "seeded shapes and places (sampled)")

    def __init__(self, *a):
        super().__init__(*a)
        n = (1, 2) if self.quick else (2, 3)
        self.models = [("MC_Arrays", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxGap = {n[0]}\n MaxN = {n[1]}\n"
            "INVARIANTS RoundTrip Size Apart Emit\n"), "items")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        scns = [s for s in scns if not apart(s["nodes"])]
        return [self.one("struct", nodes=s["nodes"], dims=s["dims"])
                for s in scns[:260 if self.quick else 4000]]

    def random_scenarios(self):
        rng = self.rng
        out = [self.one("struct", finding=f) for f in FOUND]
        for _ in range(330 if self.quick else 6000):
            out.append(self.one(rng.choice(
                ("struct", "flat", "flat", "ascii", "ascii", "hist"))))
        return out

    def one(self, kind, nodes=None, dims=None, finding=""):
        rng = self.rng
        return dict(kind=kind, nodes=nodes, dims=dims, finding=finding,
                    seed=rng.randrange(1 << 30))

    # -- structured items --------------------------------------------------

    def retype(self, rng, nodes, flat=False):
        """the same arrangement with other types and widths: offsets are
        laid out again, keeping the gaps"""
        out, at, was = [], 1, 1
        for n in nodes:
            gap = n["start"] - was
            m = dict(n, start=at + gap)
            if n["k"] == "el":
                t = rng.choice(INT + REAL + ["CHARACTER", *BITS])
                w = (rng.choice((1, 2, 4, 8)) if t in INT else
                     rng.choice((4, 8)) if t in REAL else
                     rng.randrange(1, 6))
                m.update(type=t, w=w)
            elif n["k"] == "coll":
                m["sub"] = self.retype(rng, n["sub"])
                m["bytes"] = pitch(m["sub"]) + n["bytes"] - pitch(n["sub"])
            else:
                m["sub"] = self.retype(rng, n["sub"])
            out.append(m)
            at = m["start"] + reach(m)
            was = n["start"] + reach(n)
        return out

    def tree(self, rng, finding):
        el = lambda n, s: dict(k="el", name=n, start=s, type="", w=1)
        sub = [el("A", 1), el("B", 2 + rng.randrange(3))]
        coll = lambda s, sub, extra=0: dict(
            k="coll", start=s, bytes=pitch(sub) + extra, sub=sub)
        arr = lambda s, n, sub: dict(k="arr", start=s, n=n, sub=sub)
        if finding == "subobject-first":
            body = [coll(1, sub), el("Y", 1 + pitch(sub))]
        elif finding == "nested-tail":
            body = [el("X", 1), arr(2, 2, [coll(1, sub, 2)])]
        elif finding == "group-apart":
            body = [el("X", 1), coll(4, sub)]
        elif finding == "array-in-array":
            body = [el("X", 1), arr(2, 2, [coll(1, [
                el("A", 1), arr(2, 2, [el("B", 1)])])])]
        elif finding == "bare-nested-array":
            body = [el("X", 1), arr(2, 3, [])]
        elif finding == "packed-reals":
            body = [el("X", 1)]
        else:
            body, at = [], 1
            for i in range(rng.randrange(1, 5)):
                at += rng.choice((0, 0, 1, 3))
                body.append(el(f"E{i}", at))
                at += 1
            r = rng.random()
            if r < 0.25:
                body.append(coll(at, sub,
                                 rng.randrange(2)))
            elif r < 0.5:
                body.append(arr(at + rng.randrange(3), rng.randrange(2, 5),
                                [sub[0]] if rng.random() < 0.5
                                else [coll(1, sub)]))
            at = pitch(body) + 1
            if rng.random() < 0.5:
                body.append(el("Z", at + rng.randrange(3)))
            if r > 0.8 and not any(
                    b["start"] != a["start"] + reach(a)
                    for a, b in zip(body, body[1:])) and rng.random() < 0.5:
                return body
        return [coll(1, body, rng.randrange(3))]

    def described(self, rng, nodes, top=False, depth=0):
        out = []
        for i, n in enumerate(nodes):
            sb = [("START_BYTE", n["start"])]
            if n["k"] == "el":
                b = [("NAME", n["name"]), ("DATA_TYPE", n["type"]),
                     ("BYTES", n["w"])] + sb
                kind = "ELEMENT"
            elif n["k"] == "coll":
                b = [("NAME", f"GROUP_{depth}"),
                     ("BYTES", n["bytes"])]
                if not (top and rng.random() < 0.5 and not nested(nodes)):
                    b += sb
                b += self.described(rng, n["sub"], False, depth + 1)
                kind = "COLLECTION"
            else:
                b = [("NAME", f"INNER_{depth}"), ("AXES", 1),
                     ("AXIS_ITEMS", n["n"])] + sb
                b += (self.described(rng, n["sub"], False, depth + 1) if n["sub"] else
                      [("DATA_TYPE", "MSB_INTEGER"), ("BYTES", 2)])
                kind = "ARRAY"
            out.append(("OBJECT", kind, b))
        return out

    # ----------------------------------------------------------------------

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        kind = scn["kind"]
        name = "HISTOGRAM" if kind == "hist" else "ARRAY"
        if rng.random() < 0.2:
            name = rng.choice(("X_", "IMAGE_")) + name
        axes = rng.choice((1, 1, 2, 2, 3))
        dims = scn["dims"] or [rng.randrange(1, 6) for _ in range(axes)]
        count = int(np.prod(dims))
        ev = dict(kind=kind, dims=dims, name=name, type="", w=0, nodes=[],
                  file=[], text="", finding=scn["finding"])
        axis = dims[0] if len(dims) == 1 and rng.random() < 0.7 else dims
        block = [("AXES", len(dims)), ("AXIS_ITEMS", axis)]
        binaryformat = ("INTERCHANGE_FORMAT", "BINARY")
        if kind in ("flat", "hist"):
            r = rng.random()
            t = rng.choice(INT if r < 0.5 else REAL if r < 0.7 else
                           ["IBM_REAL", "VAX_REAL"] if r < 0.85 else
                           ["CHARACTER", "DATE", *BITS])
            w = (rng.choice((1, 2, 4, 8)) if t in INT else
                 4 if t == "VAX_REAL" else
                 rng.choice((4, 8)) if t in REAL + ["IBM_REAL"] else
                 rng.randrange(1, 9))
            ev.update(type=t, w=w)
            spelled = t.replace("_", " ") if rng.random() < 0.3 else t
            if kind == "hist":
                n = rng.choice((1, 2, 3, 5, 16))
                count = n
                ev["dims"] = [n]
                block = [("ITEMS", n), ("DATA_TYPE", pds3.q(spelled))]
                block.append((rng.choice(("ITEM_BYTES", "ITEM_BYTES",
                                          "BYTES")), w))
                if block[-1][0] == "ITEM_BYTES" and rng.random() < 0.5:
                    block.append(("BYTES", w * n))
                if rng.random() < 0.3:
                    block.insert(0, ("NAME", "COUNTS"))
                    ev["name"] = "COUNTS"
                if rng.random() < 0.5:
                    block.append(binaryformat)
            else:
                block += [binaryformat, ("DATA_TYPE", pds3.q(spelled)),
                          ("BYTES", w)]
            raws = cellbytes(rng, t, w, count)
            body = b"".join(raws)
        elif kind == "struct":
            nodes = scn["nodes"] or self.tree(rng, scn["finding"])
            nodes = self.retype(rng, nodes)
            if scn["finding"] == "packed-reals":
                nodes[0]["sub"][0].update(type="IBM_REAL", w=4)
                nodes[0]["bytes"] = pitch(nodes[0]["sub"])
            if scn["finding"] == "bare-nested-array":
                nodes[0]["bytes"] += 6
            block += [binaryformat]
            if scn["finding"] == "bare-nested-array":
                nodes[0]["sub"][1]["sub"] = [dict(
                    k="el", name="INNER", start=1, type="MSB_INTEGER", w=2)]
            ev["nodes"] = nodes
            if rng.random() < 0.7:
                block.insert(0, ("NAME", "THING"))
            body = rng.randbytes(count * pitch(nodes))
        else:
            t = rng.choice(("ASCII_INTEGER", "ASCII_REAL", "", ""))
            ev["type"] = t
            made = [integer(rng) if t == "ASCII_INTEGER" else real(rng)
                    if rng.random() < 0.7 else integer(rng)
                    for _ in range(count)]
            seps = rng.choice(([" "], [","], ["  ", " ", "\r\n"],
                               [", ", ",\r\n"], ["\n"], ["\t", "  "]))
            text = rng.choice(("", " ")) + "".join(
                x + rng.choice(seps) for x in made)
            block += [("INTERCHANGE_FORMAT", "ASCII")] * (rng.random() < 0.6)
            if t:
                block += [("DATA_TYPE", t),
                          ("BYTES", max(len(x) for x in made))]
            body = text.encode()
        tail = (rng.choice((b"", b"", b" 17 18 19\r\n", b"END OF DATA 5\n"))
                if kind == "ascii" else rng.randbytes(rng.choice((0, 0, 7))))
        rng.shuffle(block)
        if kind == "struct":       # sub-objects keep their order
            block += self.described(
                rng, nodes_of(ev["nodes"], scn["finding"]), top=True)
        if rng.random() < 0.25:    # attached
            start = 1500
            head = pds3.label([
                ("RECORD_TYPE", "UNDEFINED"),
                ("^" + name, pds3.raw(f"{start + 1} <BYTES>")),
                ("OBJECT", name, block)])
            start = max(start, 0)
            if len(head) > start:
                start = 6000
                head = pds3.label([
                    ("RECORD_TYPE", "UNDEFINED"),
                    ("^" + name, pds3.raw(f"{start + 1} <BYTES>")),
                    ("OBJECT", name, block)])
            assert len(head) <= start
            content = head.ljust(start, b" ") + body + tail
            (d / "a.lbl").write_bytes(content)
        else:
            start = rng.choice((0, 0, 1, 10, 57))
            lead = (b"title 12\n" * 9)[:start] if kind == "ascii" \
                else rng.randbytes(start)
            content = lead + body + tail
            (d / "a.dat").write_bytes(content)
            ptr = (pds3.raw('"a.dat"') if start == 0 else
                   pds3.raw(f'("a.dat", {start + 1} <BYTES>)'))
            (d / "a.lbl").write_bytes(pds3.label([
                ("RECORD_TYPE", "UNDEFINED"), ("^" + name, ptr),
                ("OBJECT", name, block)]))
        ev["start"] = start
        if kind == "ascii":
            ev["text"] = content.decode("latin-1")
        else:
            ev["file"] = list(content)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ev["obs"] = project.observe(
                lambda: pdr.read(str(d / "a.lbl"))[name],
                {"ascii": numbers, "hist": project.value}.get(kind, binary))
        return [ev]

    def timeout_events(self, scn):
        return [dict(kind=scn["kind"], dims=[1], name="", type="", w=1,
                     nodes=[], file=[], text="", start=0, finding="",
                     obs={"kind": "timeout"})]

    def known_key(self, evs, rej):
        return evs[0]["finding"] or None

    def canary(self, evs, rng):
        e = evs[0]
        o = e["obs"]
        if e["finding"]:
            return None
        if o["kind"] in ("leafarray", "table"):
            c = rng.choice(o["leaves" if o["kind"] == "leafarray"
                             else "cols"])
            k = rng.randrange(len(c["data"]))
            if c["data"][k] == []:
                c["data"][k] = [66]
            elif rng.random() < 0.3 and len(c["data"]) > 1:
                c["data"].pop()
            else:
                c["data"][k][0] ^= 64
                if "IBM" in e["type"]:
                    c["data"][k][1] ^= 64
        elif o["kind"] == "numbers":
            if rng.random() < 0.3:
                o["shape"] = o["shape"] + [1]
            else:
                o["data"][rng.randrange(len(o["data"]))] = "31337"
        else:
            return None
        return evs


def nodes_of(nodes, finding):
    if finding != "bare-nested-array":
        return nodes
    a, b = nodes[0]["sub"]
    return [dict(nodes[0], sub=[a, dict(b, sub=[])])]


def apart(nodes):
    """is there a group that does not directly follow an element?"""
    at = 1
    for n in nodes:
        if n["k"] == "coll" and (n["start"] != at or apart(n["sub"])):
            return True
        at = n["start"] + reach(n)
    return False


def nested(nodes):
    return any(n["k"] == "arr" or n["k"] == "coll" and (
        nested(n["sub"]) or any(x["k"] == "coll" for x in n["sub"]))
        for n in nodes)


def pitch(nodes):
    return max([0] + [n["start"] - 1 + reach(n) for n in nodes])


def reach(n):
    if n["k"] == "el":
        return n["w"]
    if n["k"] == "coll":
        return max(n["bytes"], pitch(n["sub"]))
    return n["n"] * pitch(n["sub"])
