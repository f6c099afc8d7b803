"""C30 scaled columns of tables."""
from __future__ import annotations

import random
import struct
import warnings
from fractions import Fraction

import numpy as np

from . import pds3, project
from .core import Prop

INT = {"u1": "B", "i1": "b", "u2": "H", "i2": "h", "u4": "I", "i4": "i"}
NAMES = {"u1": ["UNSIGNED_INTEGER"], "i1": ["INTEGER", "MSB_INTEGER"],
         "u2": ["MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"],
         "i2": ["MSB_INTEGER", "LSB_INTEGER", "SUN_INTEGER"],
         "u4": ["UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER"],
         "i4": ["INTEGER", "VAX_INTEGER"], "r4": ["IEEE_REAL", "PC_REAL"],
         "r8": ["IEEE_REAL", "PC_REAL"], "text": ["CHARACTER"],
         "int": ["ASCII_INTEGER"], "real": ["ASCII_REAL"]}
LITTLE = ("LSB", "PC", "VAX")


def pair(n):
    return list(divmod(n, 10000))


def numeral(rng, n, den):
    """n / den as a number in a label"""
    x = Fraction(n, den)
    if x.denominator == 1 and rng.random() < .6:
        return str(x.numerator)
    text = f"{float(x):.6f}".rstrip("0")
    text += "0" if text.endswith(".") else ""
    if rng.random() < .2:
        text = f"{float(x):.6E}"
    if rng.random() < .2 and not text.startswith("-"):
        text = "+" + text
    return text


class C30(Prop):
    id = "C30"
    module = "Trace_TableScaling"
    chunk_min = 100
    assumptions = ("numbers of up to 32 bits and of moderate fractions",)
    level_note = (
        "TLC explores columns of each type with each factor and offset beside "
        "plain and scaled columns, and checks the arithmetic at the ends of "
        "the types' ranges; tables of stored numbers, mostly extreme, are "
        "loaded from binary, fixed-width and comma-separated products")

    def __init__(self, *a):
        super().__init__(*a)
        self.models = [("MC_TableScaling", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = 2\n"
            "INVARIANTS Proper Order Identity Bytes Emit\n"), "n2")]

    def from_model(self, scns):
        scns = sorted(scns, key=str)
        n = 700 if self.quick else 12000
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [dict(s, seed=self.rng.randrange(1 << 30)) for s in scns]

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(200 if self.quick else 6000):
            asc = rng.random() < .4
            types = ["int", "real", "text"] if asc else list(INT) + [
                "r4", "r8", "text"]
            cols = []
            for _ in range(rng.randrange(1, 7)):
                t = rng.choice(types)
                c = dict(type=t, den=1, factor=dict(has=False, n=0),
                         offset=dict(has=False, n=0))
                if t != "text":
                    c["den"] = rng.choice((1, 1, 2, 4, 10, 100))
                    for k in ("factor", "offset"):
                        if rng.random() < .5:
                            n = rng.choice((1, 2, 10, 255, 999)) * \
                                rng.choice((1, 1, -1))
                            c[k] = dict(has=True, n=n)
                cols.append(c)
            out.append(dict(cols=cols, ascii=asc, seed=rng.randrange(1 << 30)))
        return out

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        asc = scn["ascii"]
        rows = rng.randrange(1, 6)
        items = {i: rng.choice((2, 3)) for i, c in enumerate(scn["cols"])
                 if not asc and c["type"] != "text" and rng.random() < .15}
        sep = rng.choice((",", " ")) if asc else ""
        defs, cells, evs, at = [], [[] for _ in range(rows)], [], 1
        for i, c in enumerate(scn["cols"]):
            t = c["type"]
            dname = rng.choice(NAMES[t])
            little = dname.startswith(LITTLE)
            k = items.get(i, 1)
            vden = 8 if t in ("r4", "r8", "real") else 1
            if asc:
                width = 9
            else:
                width = {"text": 3}.get(t, int(t[1]) if t != "text" else 3)
            stored = [[] for _ in range(k)]
            for r in range(rows):
                for m in range(k):
                    raw, val = self.cell(rng, t, asc, width, little)
                    stored[m].append(val)
                    cells[r].append(raw)
            name = rng.choice(("A", "B2", "VALUE OF", "C")) + f"_{i}"
            col = [("NAME", pds3.q(name)), ("DATA_TYPE", dname),
                   ("START_BYTE", at), ("BYTES", width * k)]
            if k > 1:
                col += [("ITEMS", k), ("ITEM_BYTES", width)]
            for key, w in (("factor", "SCALING_FACTOR"), ("offset", "OFFSET")):
                if c[key]["has"]:
                    text = numeral(rng, c[key]["n"], c["den"])
                    if rng.random() < .15:
                        text += rng.choice((" <K>", " <DEGREE>", "<m/s>"))
                    col.append((w, pds3.raw(text)))
                elif t == "text" and rng.random() < .3:
                    col.append((w, pds3.raw('"N/A"')))
            if rng.random() < .2:
                col.append(("UNIT", pds3.q("K")))
            rng.shuffle(col)
            defs.append(("OBJECT", "COLUMN", col))
            at += width * k + len(sep)
            for m in range(k):
                dt = {"text": "", "int": "i8", "real": "f8", "r4": "f4",
                      "r8": "f8"}.get(t, t)
                evs.append(dict(
                    op="column", stored=stored[m], dtype=dt,
                    c=dict(c, vden=vden, decode=t in INT,
                           signed=t.startswith("i")),
                    name=name if k == 1 else f"{name}_{m}"))
        end = b"\r\n" if asc or rng.random() < .2 else b""
        body = b"".join(sep.encode().join(r) + end for r in cells)
        rb = len(body) // rows
        table = [("INTERCHANGE_FORMAT", "ASCII" if asc else "BINARY"),
                 ("ROWS", rows), ("COLUMNS", len(scn["cols"])),
                 ("ROW_BYTES", rb)]
        rng.shuffle(table)
        head = []
        if rng.random() < .3:  # columns described in a file of their own
            (d / "c.fmt").write_bytes(
                pds3.label(defs, version=False, end=rng.random() < .5))
            defs = [("^STRUCTURE", pds3.q("c.fmt"))]
        fn = "x.tab" if asc else "x.dat"
        (d / fn).write_bytes(body)
        (d / "p.lbl").write_bytes(pds3.label(head + [
            ("^TABLE", pds3.q(fn)), ("OBJECT", "TABLE", table + defs)]))
        import pandas as pd
        import pdr

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                t = pdr.read(d / "p.lbl")["TABLE"]
            except Exception as ex:
                t = ex
        for e in evs:
            name = e.pop("name")
            e["obs"] = dict(kind=type(t).__name__)
            if isinstance(t, pd.DataFrame):
                e["obs"] = self.column(t[name], e["c"]) if name in t else \
                    dict(kind="absent", columns=list(t.columns))
        return evs

    @staticmethod
    def cell(rng, t, asc, width, little):
        """what is in the file, and the number (or text) it stands for"""
        if t == "text":
            x = "".join(rng.choice("abcxyz") for _ in range(3))
            return (x.ljust(width) if asc else x).encode(), x
        if t in INT:
            bits = 8 * width
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) \
                if t[0] == "i" else (0, (1 << bits) - 1)
            v = rng.choice((lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 10,
                            rng.randint(lo, hi)))
            raw = struct.pack(">" + INT[t], v)
            return raw[::-1] if little else raw, list(raw)
        if t in ("r4", "r8"):
            v = rng.randrange(-4000, 4000)
            return struct.pack(("<" if little else ">") + "fd"[t == "r8"],
                               v / 8), pair(v)
        if t == "int":
            v = rng.choice((0, 1, -1, 255, 99999, -99999,
                            rng.randrange(-10 ** 6, 10 ** 6)))
            return str(v).rjust(width).encode(), pair(v)
        v = rng.randrange(-4000, 4000) * 8 + rng.randrange(1, 8)
        return f"{v / 8:.3f}".rjust(width).encode(), pair(v)

    @staticmethod
    def column(s, c):
        if c["type"] == "text":
            return dict(kind="column", dtype="", values=[
                x.decode() if isinstance(x, bytes) else str(x) for x in s])
        den = c["vden"] * c["den"]
        eps = 2e-6 if s.dtype == np.float32 else 1e-12
        out = []
        for x in s.tolist():
            try:
                v = Fraction(x) * den
            except (ValueError, TypeError, OverflowError):
                out.append([0, -1])
                continue
            n = round(v)
            out.append(pair(n) if abs(v - n) <= max(1, abs(n)) * eps
                       else [0, -1])
        dt = s.dtype
        return dict(kind="column", dtype=f"{dt.kind}{dt.itemsize}", values=out)

    def timeout_events(self, scn):
        return [dict(op="column", stored=[], dtype="",
                     c=dict(scn["cols"][0], vden=1, decode=False,
                            signed=False), obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = rng.choice(evs)
        if e["obs"]["kind"] != "column":
            return None
        v = e["obs"]["values"]
        if rng.random() < .15:
            v.append(v[0])
        elif e["c"]["type"] == "text":
            v[0] += "!"
        else:
            v[rng.randrange(len(v))][0] += rng.choice((1, -1, 6))
        return evs
