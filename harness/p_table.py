"""C15 binary tables, C16 repeated columns / containers."""
from __future__ import annotations

import copy
import random

import pdr

from . import pds3, project
from .core import Prop
from .p_raster import INTS, REALS, vaxbytes

TEXT = ["CHARACTER", "DATE", "TIME"]
BITS = ["MSB_BIT_STRING", "LSB_BIT_STRING"]


def types_of_width(w):
    out = ["CHARACTER", "DATE", "TIME", "EBCDIC_CHARACTER"] + BITS
    if w in (1, 2, 4, 8):
        out += INTS + ["BOOLEAN"]
    if w == 4:
        out += REALS + ["VAX_REAL", "IBM_REAL"]
    if w == 8:
        out += REALS + ["IBM_REAL"]
    return out


WEIGHTED = None


def pick_type(rng, w):
    if w in (1, 2, 4, 8):
        r = rng.random()
        if r < 0.5:
            return rng.choice(INTS)
        if r < 0.75 and w in (4, 8):
            return rng.choice(REALS + ["IBM_REAL"]
                              + (["VAX_REAL"] if w == 4 else []))
    return rng.choice(types_of_width(w))


def ibm(rng, w, mode):
    """one IBM real whose value is exactly representable"""
    if rng.random() < 0.08 and mode == "mild":
        return bytes(w)
    e = {"mild": rng.randrange(40, 91), "small": rng.randrange(24, 40)}.get(
        mode) or rng.choice((rng.randrange(1, 40), rng.randrange(98, 128)))
    m = rng.randrange(1, 1 << 24) if w == 4 else rng.randrange(
        1, 1 << 51) << rng.randrange(0, 5)
    return bytes([rng.randrange(2) * 128 + e]) + m.to_bytes(w - 1, "big")


def cellbytes(rng, t, w, n):
    """bytes of one column over n rows"""
    if t == "VAX_REAL":
        return [vaxbytes(rng, 1) for _ in range(n)]
    if t == "IBM_REAL":
        mode = rng.choice(("mild", "small", "wild"))
        out = [ibm(rng, w, mode) for _ in range(n)]
        if mode == "wild":  # make sure the column does not fit float32
            out[rng.randrange(n)] = bytes(
                [rng.randrange(2) * 128 + 100]) + bytes([0x80]) + bytes(w - 2)
        return out
    if t in TEXT:
        out = []
        for _ in range(n):
            k = rng.randrange(0, w + 1)
            s = bytes(rng.randrange(33, 127) for _ in range(k))
            out.append(s + rng.choice((b" ", b" ", b"\0")) * (w - k))
        return out
    if t == "BOOLEAN":
        return [rng.choice((bytes(w), bytes(w - 1) + b"\1",
                            b"\1" + bytes(w - 1), rng.randbytes(w)))
                for _ in range(n)]
    if rng.random() < 0.15:
        return [bytes(rng.choice((0, 1, 127, 128, 255)) for _ in range(w))
                for _ in range(n)]
    return [rng.randbytes(w) for _ in range(n)]


def walk(items, base, out):
    """concretisation: where to put typed bytes. Any mistake here can only
    make the content of a cell less well-typed, never change a verdict: the
    specification computes expected cells from the file bytes alone."""
    for it in items:
        at = base + it["start"] - 1
        if it["k"] == "col":
            if it["reps"] == 0:
                out.append((at, it["bytes"], it["type"]))
            else:
                for i in range(it["reps"]):
                    out.append((at + i * it["io"], it["ib"], it["type"]))
        else:
            for r in range(it["reps"]):
                walk(it["sub"], at + r * it["bytes"], out)
    return out


def assign_types(items, rng, pick=pick_type):
    for it in items:
        if it["k"] == "col":
            it["type"] = pick(rng, it["ib"] if it["reps"] else it["bytes"])
        else:
            assign_types(it["sub"], rng, pick)


def render_items(items, style, rng, d, ext=0):
    out = []
    for it in items:
        if it["k"] == "col":
            body = [("NAME", pds3.q(it["name"]) if style & 1 else it["name"]),
                    ("DATA_TYPE", it["type"]),
                    ("START_BYTE", it["start"]), ("BYTES", it["bytes"])]
            if it["reps"]:
                body += [("ITEMS", it["reps"]), ("ITEM_BYTES", it["ib"])]
                if it["io"] != it["ib"] or style & 2:
                    body.append(("ITEM_OFFSET", it["io"]))
            if style & 4:
                body.append(("UNIT", pds3.q("m/s")))
                body.append(("DESCRIPTION", pds3.q("some words")))
            out.append(("OBJECT", "COLUMN", body))
        else:
            sub = render_items(it["sub"], style, rng, d, ext + 1)
            if style & 16:
                fn = f"con{ext}_{rng.randrange(10**6)}.fmt"
                (d / fn).write_bytes(pds3.label(sub, version=False,
                                                end=bool(style & 64)))
                sub = [("^STRUCTURE", pds3.q(fn))]
            out.append(("OBJECT", "CONTAINER", [
                ("NAME", it["name"]), ("START_BYTE", it["start"]),
                ("BYTES", it["bytes"]), ("REPETITIONS", it["reps"])] + sub))
    return out


def simple(items):
    return all(i["k"] == "col" and not i["reps"] for i in items)


def fixes(rng, pos):
    """row padding, prefix and suffix; rarely what the known finding about
    prefixes concerns"""
    prefix = rng.choice((0, 0, 1, 4, 9))
    more = not prefix or rng.random() < 0.1
    return dict(rowbytes=pos - 1 + more * rng.choice((0, 0, 1, 4)),
                prefix=prefix, suffix=more * rng.choice((0, 0, 2, 5)))


class TableProp(Prop):
    module = "Trace_Table"
    names = ["TABLE", "BINARY_TABLE", "TIME_SERIES", "SPECTRUM"]
    n_model, n_random = 700, 500

    def __init__(self, *a):
        super().__init__(*a)
        inv = ("INVARIANTS Complete Disjoint Inside Distinct Unchanged "
               "RowsApart Emit\n")
        sp = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        self.models = [("MC_Table", sp + (
            " MaxItems = 2\n Widths2 = {1, 2}\n Reps = {2}\n Fixes = {0, 1}\n"
        ) + inv, "two")]
        if not self.quick:
            self.models.append(("MC_Table", sp + (
                " MaxItems = 3\n Widths2 = {1}\n Reps = {2}\n"
                " Fixes = {0, 1}\n") + inv, "three"))
            self.models.append(("MC_Table", sp + (
                " MaxItems = 2\n Widths2 = {1, 2}\n Reps = {2, 3}\n"
                " Fixes = {0, 2}\n") + inv, "reps"))
            self.n_model, self.n_random = 9000, 7000

    def wants(self, tab):
        raise NotImplementedError

    def one(self, tab, rng):
        rb = rng.choice((16, 37, 64))
        mode = rng.choice(("file", "record", "bytes"))
        start = {"file": 0, "record": rb * rng.randrange(0, 4),
                 "bytes": rng.randrange(0, 70)}[mode]
        return dict(tab=tab, start=start, mode=mode, rb=rb,
                    seed=rng.randrange(1 << 30), name=rng.choice(self.names),
                    tail=rng.randrange(0, 40), style=rng.randrange(1 << 10))

    def from_model(self, scns):
        mine = [s for s in scns if self.wants(s)]
        mine.sort(key=lambda s: repr(sorted(s.items())))
        self.rng.shuffle(mine)
        out, dull = [], 0
        for tab in mine:
            # keep only some of those the known finding makes fail
            if tab["prefix"] and (tab["suffix"] or tab["rowbytes"] != max(
                i["start"] - 1 + (i["bytes"] if i["k"] == "col"
                                  else i["bytes"] * i["reps"])
                for i in tab["items"]
            )):
                dull += 1
                if dull > 40:
                    continue
            if len(out) >= self.n_model:
                break
            tab = copy.deepcopy(tab)
            assign_types(tab["items"], self.rng)
            tab["rows"] = self.rng.choice((1, 2, 2, 3))
            out.append(self.one(tab, self.rng))
        return out

    def random_scenarios(self):
        return [self.one(self.random_table(self.rng), self.rng)
                for _ in range(self.n_random)]

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        tab, start = scn["tab"], scn["start"]
        stride = tab["prefix"] + tab["rowbytes"] + tab["suffix"]
        body = bytearray(rng.randbytes(stride * tab["rows"]))
        for off, w, t in walk(tab["items"], tab["prefix"], []):
            for r, b in enumerate(cellbytes(rng, t, w, tab["rows"])):
                body[r * stride + off:r * stride + off + w] = b
        file = rng.randbytes(start) + bytes(body) + rng.randbytes(scn["tail"])
        (d / "data.dat").write_bytes(file)
        ptr = {
            "file": pds3.q("data.dat"),
            "record": pds3.raw(f'("data.dat", {start // scn["rb"] + 1})'),
            "bytes": pds3.raw(f'("data.dat", {start + 1} <BYTES>)'),
        }[scn["mode"]]
        style = scn["style"]
        sub = render_items(tab["items"], style, rng, d)
        if style & 8:
            (d / "cols.fmt").write_bytes(pds3.label(
                sub, version=False, end=bool(style & 64)))
            sub = [("^STRUCTURE", pds3.q("cols.fmt"))]
        props = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", tab["rows"]),
                 ("COLUMNS", len(tab["items"])),
                 ("ROW_BYTES", tab["rowbytes"])]
        if tab["prefix"]:
            props.append(("ROW_PREFIX_BYTES", tab["prefix"]))
        if tab["suffix"]:
            props.append(("ROW_SUFFIX_BYTES", tab["suffix"]))
        rng.shuffle(props)
        name = scn["name"]
        (d / "data.lbl").write_bytes(pds3.label(
            [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", scn["rb"]),
             ("^" + name, ptr), ("OBJECT", name, props + sub)]))

        def go():
            return pdr.read(str(d / "data.lbl"))[name]

        return [dict(tab=tab, start=start, file=list(file),
                     obs=project.observe(go))]

    def known_key(self, evs, rej):
        why = rej["why"]
        if len(why) == 1 and why[0].startswith("deviation-"):
            return why[0][len("deviation-"):]
        return ""

    def timeout_events(self, scn):
        return [dict(tab=scn["tab"], start=scn["start"], file=[],
                     obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        o = evs[0]["obs"]
        if o["kind"] != "table" or not o["cols"] or not o["nrows"]:
            return None
        c = rng.choice(o["cols"])
        what = rng.choice(("cell", "name", "rows", "cols"))
        if what == "cell":
            if c["kind"] not in ("num", "bytes") or not c["data"][0]:
                return None
            c["data"][0][-1] ^= 1
        elif what == "name":
            c["name"] += "x"
        elif what == "rows":
            o["nrows"] += 1
        else:
            o["cols"].pop()
        return evs

    def random_col(self, rng, name, pos):
        w = rng.choice((1, 2, 4, 8, 1, 2, 4, 8, 3, 5, 7, 12))
        return dict(k="col", name=name, type=pick_type(rng, w), start=pos,
                    bytes=w, reps=0, ib=0, io=0, sub=[])


class BinaryTable(TableProp):
    id = "C15"

    def wants(self, tab):
        return simple(tab["items"])

    def random_table(self, rng):
        items, pos = [], 1
        pool = ["A", "B", "C", "D", "X_1", "LONG NAME", "E", "F"]
        for _ in range(rng.randrange(1, 7)):
            pos += rng.choice((0, 0, 0, 1, 3))
            it = self.random_col(rng, rng.choice(pool), pos)
            items.append(it)
            pos += it["bytes"]
        if rng.random() < 0.25:
            rng.shuffle(items)
        return dict(items=items, rows=rng.randrange(1, 6),
                    **fixes(rng, pos))


def tidy(items):
    """layouts the known findings about containers do not concern: used only
    to choose what to spend time on"""
    for i, it in enumerate(items):
        if it["k"] == "con":
            if i == 0 or any(s["k"] == "con" for s in it["sub"]):
                return False
            p = items[i - 1]
            if p["k"] == "con" or p["start"] + p["bytes"] != it["start"]:
                return False
    return True


class Repeated(TableProp):
    id = "C16"

    def wants(self, tab):
        return not simple(tab["items"]) and (
            tidy(tab["items"]) or self.rng.random() < 0.12)

    def multi(self, rng, name, pos):
        w = rng.choice((1, 2, 4, 8, 1, 2, 3))
        n, gap = rng.randrange(1, 5), rng.choice((0, 0, 1, 4))
        return dict(k="col", name=name, type=pick_type(rng, w), start=pos,
                    bytes=n * (w + gap) - gap, reps=n, ib=w, io=w + gap,
                    sub=[])

    def con(self, rng, name, pos, depth):
        sub, p = [], 1 + rng.choice((0, 0, 1))
        for j in range(rng.randrange(1, 4)):
            r = rng.random()
            if depth and r < 0.25 and all(
                s["k"] == "col" for s in sub
            ):
                c = self.con(rng, "N" + name, p, depth - 1)
            elif r < 0.5:
                c = self.multi(rng, rng.choice(("M", "S")), p)
            else:
                c = self.random_col(rng, rng.choice(("P", "Q", "R")), p)
            sub.append(c)
            p += span(c) + rng.choice((0, 0, 2))
        return dict(k="con", name=name, type="", start=pos,
                    bytes=p - 1 + rng.choice((0, 0, 1)),
                    reps=rng.randrange(1, 4), ib=0, io=0, sub=sub)

    def random_table(self, rng):
        neat = rng.random() < 0.75
        while True:
            items, pos = [], 1
            for k in range(rng.randrange(1, 5)):
                r = rng.random()
                con = r >= 0.65
                pos += 0 if con and neat else rng.choice((0, 0, 0, 1, 3))
                if con:
                    it = self.con(rng, f"K{k}", pos, not neat)
                elif r < 0.3:
                    it = self.random_col(rng, rng.choice("AB"), pos)
                else:
                    it = self.multi(rng, rng.choice("MN"), pos)
                items.append(it)
                pos += span(it)
            if not simple(items) and (tidy(items) or not neat):
                break
        return dict(items=items, rows=rng.randrange(1, 5), **fixes(rng, pos))


def span(it):
    return it["bytes"] * (it["reps"] if it["k"] == "con" else 1)
