"""C37 labels in other encodings, tables unlike their PDS4 labels."""
from __future__ import annotations

import gzip
import random
import struct
import warnings
from decimal import Decimal

import numpy as np
import pandas as pd

from . import project
from .core import Prop
from .p_parts import block, cards
from .p_pds4 import el

WORDS = ["A1", "x-y", "2020-01-02T03:04:05", "N_8", "r.t", "B/c", "Q"]
FIELDS = ["UTC", "index", "a b", "X_1", "0", "Group", "E", "flux"]
TYPES = {"num": "ASCII_Real", "text": "ASCII_String"}


def number(m, e):
    return {"k": "num", "m": m, "e": e, "t": ""}


def normal(x):
    """a cell's value"""
    if isinstance(x, (bool, np.bool_)) or x is None:
        return {"k": type(x).__name__, "m": 0, "e": 0, "t": repr(x)}
    if isinstance(x, str):
        return {"k": "text", "m": 0, "e": 0, "t": x}
    if isinstance(x, np.generic):
        x = x.item()
    v = Decimal(repr(x))
    if not v.is_finite():
        return {"k": "none", "m": 0, "e": 0, "t": repr(x)}
    m, e = int(v.scaleb(4).to_integral_value()), -4
    if Decimal(m).scaleb(e) != v or abs(m) > 2 ** 31 - 1:
        return {"k": "odd", "m": 0, "e": 0, "t": repr(x)}
    return number(m, e)


class Foreign(Prop):
    id = "C37"
    module = "Trace_Foreign"
    chunk_min = 40
    assumptions = (
        "labels' texts are well-formed in the encoding their names call for; "
        "GB 18030 by a table of seven characters",
        "cells hold no blanks and none is missing; columns of fixed-width "
        "tables are apart in all rows; numbers have at most four decimals and "
        "nine digits; label names of TABLE_0")
    level_note = (
        "TLC decodes the bytes of labels' texts by the encoding their files' "
        "names call for, and spreads the fields and groups of tables to "
        "columns; labels and tables with right and wrong PDS4 data types, "
        "late long cells and all kinds of file names are written and read "
        "three times each")

    def __init__(self, *a):
        super().__init__(*a)
        deep = "FALSE" if self.quick else "TRUE"
        self.models = [("MC_Foreign", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Deep = {deep}\n"
            "INVARIANTS RoundTrip Differ OneRule NamedApart Emit\n"), "products")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        out, seen = [], {}
        most = 2500 if self.quick else 12000
        for s in scns:
            k = (s["file"], s.get("rows", 0) > 100, s.get("late", 0) > 100)
            seen[k] = seen.get(k, 0) + 1
            s["rank"] = seen[k]
        for s in sorted(scns, key=lambda s: s["rank"])[:most]:
            s.pop("rank")
            out.append(dict(s, seed=self.rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        return []

    # ------------------------------------------------------------- labels
    def label(self, scn, d):
        import pdr
        rng = random.Random(scn["seed"])
        folder = d / rng.choice(("x", "CE1.2B", "MAG_DOY_V1.TAB"))
        folder.mkdir()
        size = rng.choice((2, 4, 8)) * 256
        cells = [rng.randrange(256) for _ in range(6)]
        count = rng.randrange(1, 999)
        detached = rng.random() < .3
        ptr = '("a.dat", 2)' if detached else "2"
        nl = rng.choice((b"\r\n", b"\n"))
        lines = [b"RECORD_TYPE = FIXED_LENGTH",
                 b"RECORD_BYTES = %d" % size, b"^IMAGE = " + ptr.encode(),
                 b'NOTE = "n ' + bytes(scn["bytes"]) + b' t"',
                 b"ROW_COUNT = %d" % count]
        rng.shuffle(lines)
        if rng.random() < .5:
            lines.insert(rng.randrange(len(lines)),
                         b"/* " + bytes(scn["bytes"]) + b" */")
        lines = [b"PDS_VERSION_ID = PDS3", *lines,
                 b"OBJECT = IMAGE", b"LINES = 2", b"LINE_SAMPLES = 3",
                 b"SAMPLE_BITS = 8", b"SAMPLE_TYPE = UNSIGNED_INTEGER",
                 b"END_OBJECT = IMAGE", b"END", b""]
        text = nl.join(lines)
        assert len(text) <= size, len(text)
        text = text.ljust(size, rng.choice((b" ", b"\0")))
        name = scn["file"]
        (folder / "a.dat").write_bytes(b"\1" * size + bytes(cells))
        content = text if detached else text + bytes(cells)
        path = folder / name
        if not detached and rng.random() < .2:
            path = folder / (name + ".gz")
            content = gzip.compress(content)
        path.write_bytes(content)
        e = dict(op="label", file=name, bytes=scn["bytes"], count=count,
                 cells=cells)

        def look(x):
            note = x.metaget("NOTE")
            v = x["IMAGE"]
            return {"kind": "label",
                    "text": [ord(c) for c in note[2:-2]]
                    if isinstance(note, str) else [],
                    "whole": isinstance(note, str) and note[:2] == "n "
                    and note[-2:] == " t" and set(x.metadata.keys()) == {
                        "PDS_VERSION_ID", "RECORD_TYPE", "RECORD_BYTES",
                        "^IMAGE", "NOTE", "ROW_COUNT", "IMAGE"},
                    "count": x.metaget("ROW_COUNT"),
                    "cells": v.ravel().tolist()
                    if isinstance(v, np.ndarray) else []}

        def first():
            return look(pdr.read(str(path), label_fn=str(path))
                        if detached else pdr.read(str(path)))
        return e, [first, first]

    # ------------------------------------------------------------- tables
    def table(self, scn, d):
        import pdr
        rng = random.Random(scn["seed"])
        how, groups = scn["how"], scn["groups"]
        folder = d / rng.choice(("x", "v1.0", "data.L"))
        folder.mkdir()
        names = rng.sample(FIELDS, scn["fields"])
        ncol = len(names) + sum(g["reps"] for g in groups)
        kinds = [rng.choice(("num", "num", "num", "text"))
                 if i < len(names) and how in ("columns", "blanks") else "num"
                 for i in range(ncol)]
        whole = [how == "fits" or rng.random() < .4 for _ in range(ncol)]
        rows, texts = [], []
        for r in range(1, scn["rows"] + 1):
            far = scn["late"] and r >= scn["late"]
            row, line = [], []
            for k, w in zip(kinds, whole):
                if k == "text":
                    t = rng.choice(WORDS) * (2 if far else 1)
                    row.append(normal(t))
                    line.append(t)
                    continue
                m = rng.randrange(10000, 200000) if far else \
                    rng.randrange(-99, 100)
                e = 0 if w else rng.choice((1, 2, 3))
                row.append(number(m * 10 ** (4 - e), -4))
                t = f"{Decimal(m).scaleb(-e):f}"
                line.append(t)
            rows.append(row)
            texts.append(line)
        lab = scn["file"]
        path = folder / lab
        e = dict(op="table", file=lab, fields=names, groups=groups, rows=rows,
                 tag=0)
        if how == "fits":
            e["tag"] = rng.randrange(1, 99)
            data = folder / (lab.rsplit(".", 1)[0] + ".fits")
            head = [("XTENSION", "'BINTABLE'"), ("BITPIX", 8), ("NAXIS", 2),
                    ("NAXIS1", 4 * ncol), ("NAXIS2", len(rows)), ("PCOUNT", 0),
                    ("GCOUNT", 1), ("TFIELDS", ncol)]
            for i, n in enumerate(names, 1):
                head += [(f"TTYPE{i}", f"'{n:<8}'"), (f"TFORM{i}", "'1J      '")]
            head.append(("TAG", e["tag"]))
            body = b"".join(struct.pack(f">{ncol}i", *(
                c["m"] // 10000 for c in row)) for row in rows)
            data.write_bytes(
                cards([("SIMPLE", "T".rjust(20)), ("BITPIX", 8), ("NAXIS", 0),
                       ("EXTEND", "T".rjust(20))]) + cards(head) + block(body))
            off = rng.choice((0, 2880))
            xml = el("Header", el("name", "header_Data"),
                     el("offset", off, unit="byte"),
                     el("object_length", 2880, unit="byte"),
                     el("parsing_standard_id", "FITS 3.0")) + el(
                "Table_Binary", el("name", "data"),
                el("offset", off + 2880, unit="byte"), el("records", len(rows)),
                el("Record_Binary", el("fields", ncol), el("groups", 0),
                   el("record_length", 4 * ncol, unit="byte"), "".join(
                    el("Field_Binary", el("name", n), el("field_number", i),
                       el("field_location", 4 * i - 3, unit="byte"),
                       el("data_type", "SignedMSB4"),
                       el("field_length", 4, unit="byte"))
                    for i, n in enumerate(names, 1))))
            obj = "data"
        else:
            data = folder / (lab[:-1])
            width = [max(len(t[c]) for t in texts) for c in range(ncol)]
            left = [rng.random() < .4 for _ in range(ncol)]
            gap = [rng.choice(("", " ", "   "))] + [
                rng.choice((" ", "  ", "    ")) for _ in range(ncol - 1)]
            free = how == "blanks" and not groups and rng.random() < .5
            nl = "\r\n" if rng.random() < .6 else "\n"
            out = ""
            for t in texts:
                for c in range(ncol):
                    if free:
                        out += (rng.choice((" ", "\t", "  ")) if c
                                else "") + t[c]
                    else:
                        out += gap[c] + (t[c].ljust(width[c]) if left[c]
                                         else t[c].rjust(width[c]))
                out += nl
            data.write_text(out, newline="")
            at, inner, n = 1, "", 0
            for c, name in enumerate(names):
                at += len(gap[c])
                kind = TYPES[kinds[c]]
                if scn["wrong"]:
                    kind = rng.choice(("ASCII_Integer", "ASCII_Boolean",
                                       "ASCII_Date_YMD", "ASCII_Time"))
                inner += el("Field_Character", el("name", name),
                            el("field_number", c + 1),
                            el("field_location", at, unit="byte"),
                            el("data_type", kind),
                            el("field_length", width[c], unit="byte"))
                at += width[c]
            c = len(names)
            for g in groups:
                k = g["reps"]
                long = sum(width[c:c + k]) + sum(map(len, gap[c:c + k]))
                inner += el("Group_Field_Character", *(
                    [el("name", g["name"])] if g["name"] else []),
                    el("group_number", 1), el("repetitions", k),
                    el("fields", 1), el("groups", 0),
                    el("group_location", at, unit="byte"),
                    el("group_length", long // k * k, unit="byte"),
                    el("Field_Character", el("name", "v"),
                       el("field_number", 1),
                       el("field_location", 1, unit="byte"),
                       el("data_type", "ASCII_Real"),
                       el("field_length", max(long // k, 1), unit="byte")))
                at += long
                c += k
            length = sum(width) + sum(map(len, gap)) + len(nl)
            xml = el("Table_Character", el("offset", 0, unit="byte"),
                     el("records", len(rows)),
                     el("record_delimiter",
                        "Carriage-Return Line-Feed" if nl == "\r\n"
                        else "Line-Feed"),
                     el("Record_Character", el("fields", len(names)),
                        el("groups", len(groups)),
                        el("record_length", length, unit="byte"), inner))
            obj = "TABLE_0"
        path.write_text(
            '<?xml version="1.0" encoding="UTF-8"?>\n<Product_Observational '
            'xmlns="http://pds.nasa.gov/pds4/pds/v1">' + el(
                "Identification_Area",
                el("logical_identifier", "urn:nasa:pds:a:b:c"),
                el("version_id", "1.0"), el("title", "t"),
                el("information_model_version", "1.11.0.0"),
                el("product_class", "Product_Observational")) + el(
                "File_Area_Observational",
                el("File", el("file_name", data.name)), xml)
            + "</Product_Observational>", encoding="utf-8")
        by_data = rng.random() < .3

        def look(x):
            v = x[obj]
            if how == "fits":
                head = x["header_Data"]
                tag = int(head.get("TAG", 0)) if head is not None else 0
            else:
                tag = 0
            if isinstance(v, pd.DataFrame):
                cols = [str(c) for c in v.columns]
                cells = [[normal(v.iloc[i, j]) for j in range(len(cols))]
                         for i in range(len(v))]
            elif isinstance(v, np.ndarray) and v.dtype.names:
                cols = list(v.dtype.names)
                cells = [[normal(v[c][i]) for c in cols]
                         for i in range(len(v))]
            else:
                return {"kind": type(v).__name__}
            return {"kind": "table", "names": cols, "rows": cells, "tag": tag}

        got = {}

        def first():
            got["x"] = pdr.read(str(data), label_fn=str(path)) if by_data \
                else pdr.read(str(path))
            return look(got["x"])

        def again():
            got["x"].load(obj, reload=True)
            return look(got["x"])
        return e, [first, again]

    def execute(self, scn, d):
        e, looks = getattr(self, scn["k"])(scn, d)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e["obs"] = [project.observe(f, lambda v: v) for f in looks]
        return [e]

    def timeout_events(self, scn):
        return [dict(op=scn["k"], file=scn["file"], obs=[{"kind": "timeout"}])]

    def canary(self, evs, rng):
        e, obs = evs[0], evs[0]["obs"][0]
        if obs["kind"] == "label":
            if rng.random() < .5 and obs["text"]:
                obs["text"][0] += 1
            else:
                obs["count"] += 1
        elif obs["kind"] == "table":
            if rng.random() < .5:
                obs["rows"][-1][-1]["m"] += 1
            else:
                obs["names"][0] += "x"
        else:
            e["obs"][0] = dict(obs, kind="timeout")
        return evs


PROPS = [Foreign]
