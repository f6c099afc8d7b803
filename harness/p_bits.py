"""C17 bit columns."""
from __future__ import annotations

import random

import pdr

from . import pds3, project
from .core import Prop
from .p_table import cellbytes, pick_type, walk

BITTYPES = ("MSB_BIT_STRING", "LSB_BIT_STRING")
#       column type, bit type
AGREE = {
    True: [("LSB_BIT_STRING", None)] * 4 + [
        ("LSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"),
        ("LSB_INTEGER", "LSB_INTEGER"), ("LSB_UNSIGNED_INTEGER", "BOOLEAN"),
        ("VAX_UNSIGNED_INTEGER", "VAX_UNSIGNED_INTEGER"),
        ("PC_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER"),
        ("PC_INTEGER", "LSB_INTEGER")],
    False: [("MSB_BIT_STRING", None)] * 4 + [
        ("MSB_UNSIGNED_INTEGER", "MSB_UNSIGNED_INTEGER"),
        ("UNSIGNED_INTEGER", "UNSIGNED_INTEGER"),
        ("INTEGER", "MSB_INTEGER"), ("MSB_INTEGER", "BOOLEAN"),
        ("CHARACTER", "MSB_UNSIGNED_INTEGER")],
}
INNER = ["MSB_UNSIGNED_INTEGER", "BOOLEAN", "MSB_INTEGER",
         "UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"]


class Bits(Prop):
    id = "C17"
    module = "Trace_Bits"
    chunk_min = 60
    level_note = (
        "TLC explores every layout of bit columns up to the bound in both "
        "byte orders; layouts are placed in real tables among other columns, "
        "items and containers, with seeded contents (sampled); wider columns "
        "(to 12 bytes) are sampled")

    def __init__(self, *a):
        super().__init__(*a)
        base = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        inv = "INVARIANTS ReadsBack Arithmetic Lists Emit\n"
        self.models = [("MC_Bits", base + (
            " MaxBytes = 2\n Starts = {1, 2, 8, 9}\n"
            " Lens = {1, 3, 8}\n MaxCols = 2\n Gaps = {0, 1}\n") + inv,
            "two"), ("MC_Bits", base + (
            " MaxBytes = 3\n Starts = {1, 2, 8, 9, 16, 17, 24}\n"
            " Lens = {1, 2, 7, 8, 9, 16}\n MaxCols = 1\n"
            " Gaps = {0, 1, 3}\n") + inv, "one")]
        if not self.quick:
            self.models.append(("MC_Bits", base + (
                " MaxBytes = 2\n Starts = {1, 4, 8, 9}\n"
                " Lens = {1, 4, 8}\n MaxCols = 3\n Gaps = {0, 2}\n") + inv,
                "three"))
            self.models.append(("MC_Bits", base + (
                " MaxBytes = 3\n"
                " Starts = {1, 2, 8, 9, 16, 17}\n"
                " Lens = {1, 3, 8, 9}\n MaxCols = 2\n Gaps = {0, 1}\n")
                + inv, "wide"))

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        n = 800 if self.quick else 12000
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [self.one(s["n"], s["little"], s["cols"]) for s in scns]

    def random_scenarios(self):
        return [self.one(*self.layout(self.rng))
                for _ in range(400 if self.quick else 8000)]

    def layout(self, rng, n=None):
        n = n or rng.choice((1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 12))
        bits, cols = 8 * n, []
        pos = 1
        for _ in range(rng.randrange(1, 7)):
            start = pos if rng.random() < 0.7 else rng.randrange(1, bits + 1)
            room = bits - start + 1
            if room < 1:
                break
            ln = rng.randrange(1, min(room, 20) + 1)
            items, off = 0, 0
            if rng.random() < 0.3:
                off = ln + rng.choice((0, 0, 1, 3))
                most = (room - ln) // off + 1
                items = rng.randrange(1, min(most, 5) + 1)
            cols.append(dict(start=start, len=ln, items=items, off=off))
            pos = start + (off * (items - 1) if items else 0) + ln
        return n, rng.random() < 0.5, cols

    def one(self, n, little, cols):
        return dict(n=n, little=bool(little), cols=cols,
                    seed=self.rng.randrange(1 << 30))

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        defs, kinds = [], {}

        def bitcol(name, pos, n, little, cols, reps=0):
            t, bt = rng.choice(AGREE[little])
            if t.endswith("INTEGER") and n not in (1, 2, 4, 8):
                t = "MSB_BIT_STRING" if not little else "LSB_BIT_STRING"
                bt = None
            defs.append(dict(name=name, little=little, cols=cols))
            kinds[name] = (t, bt)
            return dict(k="col", name=name, type="LSB_BIT_STRING", start=pos,
                        bytes=n * max(1, reps), reps=reps,
                        ib=n if reps else 0, io=n if reps else 0, sub=[])

        def plain(name, pos):
            w = rng.choice((1, 2, 4, 8, 3))
            return dict(k="col", name=name, type=pick_type(rng, w), start=pos,
                        bytes=w, reps=0, ib=0, io=0, sub=[])

        items, pos = [], 1
        shape = rng.choice(("one", "one", "mid", "mid", "two", "items", "con"))
        n, little, cols = scn["n"], scn["little"], scn["cols"]
        if shape != "one":
            items.append(plain("BEFORE", pos))
            pos += items[-1]["bytes"] + (rng.choice((0, 0, 2))
                                         if shape != "con" else 0)
        if shape == "con":
            sub = [bitcol("FLAGS", 1, n, little, cols)]
            if rng.random() < 0.5:
                sub.append(plain("INNER", 1 + n))
            size = sum(s["bytes"] for s in sub)
            reps = rng.randrange(1, 4)
            items.append(dict(k="con", name="GROUP", type="", start=pos,
                              bytes=size, reps=reps, ib=0, io=0, sub=sub))
            pos += size * reps
        else:
            reps = rng.randrange(2, 4) if shape == "items" else 0
            items.append(bitcol("FLAGS", pos, n, little, cols, reps))
            pos += n * max(1, reps)
            if shape in ("mid", "two"):
                pos += rng.choice((0, 0, 1))
                items.append(plain("AFTER", pos))
                pos += items[-1]["bytes"]
            if shape == "two":
                m, l2, c2 = self.layout(rng)
                if rng.random() < 0.5:
                    l2 = not little
                items.append(bitcol("MORE", pos, m, l2, c2))
                pos += m
        tab = dict(items=items, rows=rng.choice((1, 1, 2, 3, 5)),
                   rowbytes=pos - 1, prefix=0, suffix=rng.choice((0, 0, 3)))
        start = rng.choice((0, 0, 5, 31))
        stride = tab["rowbytes"] + tab["suffix"]
        body = bytearray(rng.randbytes(stride * tab["rows"]))
        for off, w, t in walk(items, 0, []):
            for r, b in enumerate(cellbytes(rng, t, w, tab["rows"])):
                body[r * stride + off:r * stride + off + w] = b
        file = rng.randbytes(start) + bytes(body) + rng.randbytes(3)
        (d / "t.dat").write_bytes(file)
        block = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", tab["rows"]),
                 ("COLUMNS", len(items)), ("ROW_BYTES", tab["rowbytes"])]
        if tab["suffix"]:
            block.append(("ROW_SUFFIX_BYTES", tab["suffix"]))
        block += self.render(items, {x["name"]: x["cols"] for x in defs},
                             kinds, rng)
        head = [("RECORD_TYPE", "UNDEFINED")]
        if rng.random() < 0.5:
            head.append(("INSTRUMENT_NAME", pds3.q(rng.choice(
                ("SOME CAMERA", "VIKING LANDER", "MAPPER", "")))))
        (d / "t.lbl").write_bytes(pds3.label(
            head + [("^TABLE", pds3.raw(f'("t.dat", {start + 1} <BYTES>)')),
                    ("OBJECT", "TABLE", block)]))
        return [dict(tab=tab, defs=defs, start=start, file=list(file),
                     obs=project.observe(
                         lambda: pdr.read(str(d / "t.lbl"))["TABLE"]))]

    def render(self, items, defs, kinds, rng):
        out = []
        for it in items:
            if it["k"] == "con":
                out.append(("OBJECT", "CONTAINER", [
                    ("NAME", it["name"]), ("START_BYTE", it["start"]),
                    ("BYTES", it["bytes"]), ("REPETITIONS", it["reps"])]
                    + self.render(it["sub"], defs, kinds, rng)))
                continue
            name = it["name"]
            t, bt = kinds.get(name, (it["type"], None))
            if rng.random() < 0.3:
                t = pds3.q(t.replace("_", " "))
            body = [("NAME", name), ("DATA_TYPE", t),
                    ("START_BYTE", it["start"]), ("BYTES", it["bytes"])]
            if it["reps"]:
                body += [("ITEMS", it["reps"]), ("ITEM_BYTES", it["ib"])]
            for i, c in enumerate(defs.get(name, [])):
                inner = [("NAME", rng.choice(
                            ("FLAG", f"BIT_{i}", "NADIR_OFFSET_SIGN"))),
                         ("BIT_DATA_TYPE", bt or rng.choice(INNER)),
                         ("START_BIT", c["start"])]
                if c["items"]:
                    inner += [("ITEMS", c["items"]),
                              ("ITEM_BITS", c["len"])]
                    if c["off"] != c["len"] or rng.random() < 0.3:
                        inner.append(("ITEM_OFFSET", c["off"]))
                    if rng.random() < 0.3:
                        inner.append(("BITS", c["off"] * (c["items"] - 1)
                                      + c["len"]))
                else:
                    inner.append(("BITS", c["len"]))
                if rng.random() < 0.3:
                    inner.append(("DESCRIPTION", pds3.q("a flag")))
                body.append(("OBJECT", "BIT_COLUMN", inner))
            out.append(("OBJECT", "COLUMN", body))
        return out

    def timeout_events(self, scn):
        return [dict(tab=dict(items=[], rows=0, rowbytes=0, prefix=0,
                              suffix=0), defs=[], start=0, file=[],
                     obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        o = evs[0]["obs"]
        if o["kind"] != "table":
            return None
        cs = [c for c in o["cols"] if c["kind"] == "list"]
        if not cs:
            return None
        c = rng.choice(cs)
        row = rng.choice(c["data"])
        k = rng.randrange(len(row))
        if rng.random() < 0.3 and len(row) > 1:
            row.pop()
        else:
            s = row[k]
            j = rng.randrange(len(s))
            row[k] = s[:j] + ("1" if s[j] == "0" else "0") + s[j + 1:]
        return evs
