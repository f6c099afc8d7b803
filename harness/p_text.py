"""C18 text tables."""
from __future__ import annotations

import math
import random

import pdr

from . import pds3, project
from .core import Prop

DELIMS = {",": "COMMA", "|": "VERTICAL_BAR", ";": "SEMICOLON", "\t": "TAB"}
WORDS = ["A", "abc", "M31", "a b", "x-1", "1 2", "12:30:05", "2001-01-02",
         "N/A-1", "UNKNOWN", "a.b", "#3", "1e", "--", "-", "1.2.3", "0x10",
         "e5", "1,000", "it's", "a  b", "Nulls", "p|q", "a;b", "3 m/s"]


def integer(rng):
    n = rng.choice((1, 1, 2, 3, 5, 9, 10, 14))
    s = "".join(rng.choice("0123456789") for _ in range(n))
    if rng.random() < 0.8:
        s = s.lstrip("0") or "0"
    return rng.choice(("", "", "", "-", "+")) + s


def real(rng):
    a = "".join(rng.choice("0123456789") for _ in range(rng.randrange(0, 6)))
    b = "".join(rng.choice("0123456789") for _ in range(rng.randrange(0, 6)))
    if not a + b:
        a = "0"
    s = rng.choice(("", "", "-", "+")) + a + "." + b
    if rng.random() < 0.3:
        s += rng.choice("eE") + rng.choice(("", "-", "+")) + str(
            rng.randrange(0, 16))
    return s


def content(rng, what):
    if what == "int":
        return integer(rng)
    if what == "real":
        return real(rng)
    if what == "mix":
        return integer(rng) if rng.random() < 0.5 else real(rng)
    if what == "gaps":
        return rng.choice(("", "NULL", "N/A", "")) if rng.random() < 0.4 \
            else content(rng, "mix")
    if what == "textgaps":
        return "" if rng.random() < 0.3 else rng.choice(WORDS)
    if what == "some":
        return content(rng, "int") if rng.random() < 0.5 else rng.choice(WORDS)
    return rng.choice(WORDS)


WHATS = ["int", "int", "real", "real", "mix", "gaps", "text", "text",
         "textgaps", "some"]


def text(v):
    """one cell as the specification sees it"""
    if v is None or (isinstance(v, float) and math.isnan(v)):
        return ""
    return v if isinstance(v, str) else str(v)


def table(df):
    import pandas as pd

    if not isinstance(df, pd.DataFrame):
        return {"kind": type(df).__name__}
    cols = []
    for i in range(df.shape[1]):
        s = df.iloc[:, i]
        vals = s.tolist()
        if s.dtype.kind in "iu":
            kind, data = "int", [str(int(v)) for v in vals]
        elif s.dtype.kind == "f":
            kind = "real"
            data = ["" if math.isnan(v) else repr(float(v)) for v in vals]
        else:
            kind, data = "text", [text(v) for v in vals]
        cols.append({"name": str(df.columns[i]), "kind": kind, "data": data})
    return {"kind": "table", "nrows": int(len(df)), "cols": cols}


class TextTables(Prop):
    id = "C18"
    module = "Trace_Text"
    chunk_min = 60
    level_note = (
        "TLC explores every way of writing rows of up to two or three fields "
        "and every placement of a table in a file; every placement is "
        "replayed with seeded contents (sampled) and column layouts")

    def __init__(self, *a):
        super().__init__(*a)
        base = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                " MaxRows = 2\n")
        inv = "INVARIANTS RoundTrip ExtentOK Emit\n"
        self.models = [("MC_Text", base + (
            ' MaxFields = 2\n Contents = {"", "A", "1.5", "a b", "x,y"}\n'
            ' Seps = {",", "|", ";", "TAB"}\n') + inv, "two")]
        if not self.quick:
            self.models.append(("MC_Text", base + (
                ' MaxFields = 3\n Contents = {"", "A", "x,y"}\n'
                ' Seps = {",", "|"}\n') + inv, "three"))

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        out = [self.one(s) for s in scns for _ in range(2 if self.quick
                                                        else 30)]
        return out

    def random_scenarios(self):
        rng = self.rng
        # the listed findings
        out = [self.one(dict(kind=k, sep=",", pre="none", ptr="file",
                             post=False, stream=False, len="rows", show=show))
               for k, show in (("fixed", "blank"), ("fixed", "guess"))
               for _ in range(3)]
        for _ in range(550 if self.quick else 9000):
            kind = rng.choice(("fixed", "fixed", "delimited"))
            pre = rng.choice(("none", "lines", "lines", "bytes"))
            ptr = {"none": "file", "lines": rng.choice(("record", "byte")),
                   "bytes": "byte"}[pre]
            s = dict(kind=kind, pre=pre, ptr=ptr,
                     sep="," if kind == "fixed" else rng.choice(list(DELIMS)),
                     post=rng.random() < 0.5, stream=rng.random() < 0.4,
                     len=rng.choice(("rows", "bytes")))
            out.append(self.one(s))
        return out

    def one(self, s):
        return {**{k: s[k] for k in ("kind", "sep", "pre", "post", "ptr",
                                     "len", "stream")},
                "show": s.get("show", ""),
                "seed": self.rng.randrange(1 << 30)}

    # ---------------------------------------------------------------- writing
    def columns(self, rng, kind):
        n = rng.choice((1, 2, 2, 3, 3, 4, 5, 7))
        cols = []
        for i in range(n):
            nm = rng.choice((f"COL_{i}", f"COL_{i}", f"c{i}", "SAME"))
            reps = rng.choice((0, 0, 0, 0, 1, 2, 3))
            cols.append(dict(name=nm, what=rng.choice(WHATS), reps=reps))
        return cols

    def field(self, rng, c, sep):
        """write content c as a field of a delimited row"""
        if sep in c or (rng.random() < 0.25 and c not in ("NULL", "N/A")):
            c = '"' + c + '"'
        # (blanks after a marker of a missing value, or after an empty
        # quotation, make a text of it, which is not claimed either way)
        if c in ("NULL", "N/A", '""'):
            return " " * rng.choice((0, 0, 1, 3)) + c
        return " " * rng.choice((0, 0, 0, 1, 3)) + c + " " * rng.choice(
            (0, 0, 0, 2))

    def build(self, scn):
        rng = random.Random(scn["seed"])
        nl = "\n" if rng.random() < 0.2 else "\r\n"
        nrows = rng.choice((1, 2, 2, 3, 4, 6))
        if scn["show"] == "guess":
            return rng, nl, ["12 ignored"] * nrows, [dict(
                k="col", name="COL_0", type="ASCII", start=1, bytes=2, reps=0,
                ib=0, io=0, sub=[])]
        fixed = scn["kind"] == "fixed"
        cols = self.columns(rng, scn["kind"])
        flat = [c["what"] for c in cols for _ in range(max(1, c["reps"]))]
        data = [[content(rng, w) for w in flat] for _ in range(nrows)]
        blankrows = rng.random() < 0.03
        if scn["show"] == "blank":
            blankrows = True
            data.append(["" for _ in flat])
            nrows += 1
        for row in data:
            if not any(x for x in row) and not blankrows:
                row[0] = "7" if flat[0] in ("int", "real", "mix", "gaps") \
                    else "seven"
        sep = scn["sep"]
        items = []
        if fixed:
            # gaps between the fields: what a careful writer does, rarely
            # something that makes the row look comma-separated
            style = rng.choice(("space", "comma", "comma", "none")) \
                if scn["show"] != "blank" else "space"
            quoted = rng.random() < 0.3 and not blankrows
            rows = ["" for _ in range(nrows)]
            for i, c in enumerate(cols):
                m = max(1, c["reps"])
                cells = self.cells(cols, i)
                quote = quoted and c["what"] in ("text", "textgaps", "some")
                # single columns without commas are read as they stand
                texts = [[row[j] for j in cells] for row in data]
                for r, t in enumerate(texts):
                    for j, x in enumerate(t):
                        if "," in x and not (quote and style == "comma"):
                            t[j] = x.replace(",", ".")
                w = max(1, max(len(x) for t in texts for x in t)
                        + rng.choice((0, 0, 1, 3)))
                # ITEMS of a field include whatever lies between them
                gap = 0 if style == "none" else 1
                g = " " * gap if style == "space" else "," * gap
                if rng.random() < 0.2 and gap:
                    g += " " * rng.choice((1, 2))
                q = '"' if quote else ""
                at = len(rows[0]) + 1 + len(q)
                left = c["what"] not in ("int", "real", "mix", "gaps")
                for r, t in enumerate(texts):
                    parts = []
                    for x in t:
                        x = x.ljust(w) if left else x.rjust(w)
                        parts.append(q + x + q)
                    rows[r] += g.join(parts) + g
                step = w + 2 * len(q) + len(g)
                items.append(dict(k="col", name=c["name"], type="ASCII",
                                  start=at, bytes=step * (m - 1) + w,
                                  reps=c["reps"], ib=w if c["reps"] else 0,
                                  io=step if c["reps"] else 0, sub=[]))
            if g and (rng.random() < 0.85 or cols[-1]["what"] == "gaps"):
                rows = [r[:-len(g)] for r in rows]
            if rng.random() < 0.2 and cols[-1]["what"] != "gaps":
                rows = [r + " " * 3 for r in rows]
        else:
            rows = [sep.join(self.field(rng, x, sep) for x in row)
                    for row in data]
            for c in cols:
                w = rng.randrange(1, 12)
                items.append(dict(k="col", name=c["name"], type="ASCII",
                                  start=1, bytes=w * max(1, c["reps"]),
                                  reps=c["reps"], ib=w if c["reps"] else 0,
                                  io=w if c["reps"] else 0, sub=[]))
        if not blankrows:
            rows = [r if r.strip(" \t") else "0" + r[1:] for r in rows]
        return rng, nl, rows, items

    def cells(self, cols, i):
        a = sum(max(1, c["reps"]) for c in cols[:i])
        return list(range(a, a + max(1, cols[i]["reps"])))

    def execute(self, scn, d):
        rng, nl, rows, items = self.build(scn)
        fixed = scn["kind"] == "fixed"
        stream, ptr, pre, post = (scn[k] for k in (
            "stream", "ptr", "pre", "post"))
        lens = {len(r) for r in rows}
        rowlen = max(lens) + len(nl)
        uniform = len(lens) == 1
        textual = rng.random() < 0.6 or not fixed
        nm = rng.choice(("ASCII_TABLE", "X_ASCII_TABLE")) if fixed and textual\
            else rng.choice(("TABLE", "DATA_TABLE", "OBS_TABLE"))
        if not fixed:
            nm = rng.choice(("SPREADSHEET", "DATA_SPREADSHEET", "ASCII_TABLE"))
        body = nl.join(rows) + nl
        lab = dict(ptr=ptr, at=1, recbytes=0, stream=stream, textual=textual,
                   bytes=0, rowbytes=0, suffix=0, rows=0)
        block, head = [], []
        # records
        if not stream:
            lab["recbytes"] = rowlen if uniform else rng.choice(
                (rowlen, rowlen + 7))
            head += [("RECORD_TYPE", "FIXED_LENGTH"),
                     ("RECORD_BYTES", lab["recbytes"])]
        else:
            head += [("RECORD_TYPE", "STREAM")]
            if rng.random() < 0.15:
                head.append(("RECORD_BYTES", pds3.q("")))
        # what stands before
        before = ""
        if pre == "lines":
            n = rng.choice((1, 2, 4))
            if lab["recbytes"]:
                before = "".join(
                    ("head,%d" % i).ljust(lab["recbytes"])[
                        :lab["recbytes"] - len(nl)] + nl for i in range(n))
            else:
                before = "".join(
                    "x" * rng.randrange(0, 30) + ("," if rng.random() < .5
                                                  else "") + nl
                    for _ in range(n))
            lab["at"] = n + 1
        elif pre == "bytes":
            before = "junk" * rng.randrange(1, 9)
        if ptr == "byte":
            lab["at"] = len(before) + 1
        # how long it is
        bylines = stream and ptr != "byte" and textual
        many = ("ROWS", "RECORDS") if not fixed else ("ROWS",)
        if scn["len"] == "bytes":
            lab["bytes"] = len(body)
            if rng.random() < 0.7:
                lab["rows"] = len(rows)
        else:
            lab["rows"] = len(rows)
            if uniform and not (bylines and rng.random() < 0.6):
                # (a file of records of this length need not repeat it)
                if lab["recbytes"] != rowlen or rng.random() < 0.7:
                    lab["rowbytes"] = rowlen
            elif not bylines:
                # only the greatest length of a row is known: such a table
                # must be the last thing in its file
                post = False
                lab["rowbytes"] = rowlen if rng.random() < 0.7 else 0
                if not lab["rowbytes"] and not (
                        lab["recbytes"] >= rowlen or lab["recbytes"] == 0):
                    lab["rowbytes"] = rowlen
        if bylines and not post and rng.random() < 0.2:
            lab["rows"] = 0
            lab["rowbytes"] = 0
        if not bylines and lab["bytes"] == 0 and not post and \
                rng.random() < 0.1 and ptr == "file":
            lab["rows"] = 0
        if stream and ptr == "record" and lab["rows"] and lab["rowbytes"]:
            # the reader counts from the end of the file
            if not (bylines and lab["bytes"] == 0):
                post = False
                if not uniform:
                    lab["rowbytes"] = 0
                    if lab["bytes"] == 0:
                        lab["rows"] = 0
        after = "".join(rng.choice(("tail,1", "tail", "9,9,9", "5")) + nl
                        for _ in range(rng.choice((1, 2)))) if post else ""
        if lab["bytes"]:
            block.append(("BYTES", lab["bytes"]))
        if lab["rows"]:
            block.append((rng.choice(many), lab["rows"]))
        if lab["rowbytes"]:
            if uniform and lab["rowbytes"] == rowlen and rng.random() < 0.3:
                # the end of every row is a suffix
                lab["suffix"] = rng.randrange(
                    1, min(len(nl) + 6, rowlen - 1) + 1)
                lab["rowbytes"] -= lab["suffix"]
                block.append(("ROW_SUFFIX_BYTES", lab["suffix"]))
            block.append(("ROW_BYTES", lab["rowbytes"]))
        if not textual or rng.random() < 0.8:
            block.append(("INTERCHANGE_FORMAT", "ASCII"))
        if not fixed and (scn["sep"] != "," or rng.random() < 0.5):
            block.append(("FIELD_DELIMITER", pds3.q(DELIMS[scn["sep"]])))
        block.append(("COLUMNS" if fixed else "FIELDS", len(items)))
        for it in items:
            col = [("NAME", pds3.q(it["name"])), ("DATA_TYPE", rng.choice(
                ("CHARACTER", "ASCII_REAL", "ASCII_INTEGER", "TIME",
                 "NUMERIC")))]
            if fixed:
                col.append(("START_BYTE", it["start"]))
            col.append(("BYTES", it["bytes"]))
            if it["reps"]:
                col += [("ITEMS", it["reps"]), ("ITEM_BYTES", it["ib"])]
                if it["io"] != it["ib"] or rng.random() < 0.5:
                    col.append(("ITEM_OFFSET", it["io"]))
            block.append(("OBJECT", "COLUMN" if fixed or rng.random() < 0.2
                          else "FIELD", col))
        file = before + body + after
        (d / "t.tab").write_bytes(file.encode("ascii"))
        target = {"file": '"t.tab"', "record": f'("t.tab", {lab["at"]})',
                  "byte": f'("t.tab", {lab["at"]} <BYTES>)'}[ptr]
        (d / "t.lbl").write_bytes(pds3.label(
            head + [("^" + nm, pds3.raw(target)), ("OBJECT", nm, block)]))
        return [dict(kind=scn["kind"], sep=scn["sep"], items=items, lab=lab,
                     file=file, obs=project.observe(
                         lambda: pdr.read(str(d / "t.lbl"))[nm], table))]

    def timeout_events(self, scn):
        return [dict(kind=scn["kind"], sep=",", items=[], file="", lab=dict(
            ptr="file", at=1, recbytes=0, stream=False, textual=True, bytes=0,
            rowbytes=0, suffix=0, rows=0), obs={"kind": "timeout"})]

    def known_key(self, evs, rej):
        for name in ("blank-row", "delimiter-guess"):
            if f"deviation-{name}" in str(rej):
                return name
        return None

    def canary(self, evs, rng):
        o = evs[0]["obs"]
        if o["kind"] != "table":
            return None
        c = rng.choice(o["cols"])
        k = rng.randrange(len(c["data"]))
        what = rng.choice(("value", "row", "name"))
        if what == "name":
            c["name"] += "_"
        elif what == "row" and o["nrows"] > 1:
            for x in o["cols"]:
                x["data"].pop()
            o["nrows"] -= 1
        else:
            c["data"][k] = {"int": "31337", "real": "31337.5"}.get(
                c["kind"], "nothing")
        return evs

