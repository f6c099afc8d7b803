"""C35 irregular data sets are read by what is known of them."""
from __future__ import annotations

import random
import struct
import warnings

import numpy as np
import pandas as pd

from . import pds3, project
from .core import Prop

NAMES = ["A", "B1", "TIME", "X Y", "FLAG", "RATE", "UTC", "CODE", "LAT",
         "LON", "ALT", "GAIN", "NOTE_1", "Q"]
WORDS = ["X12", "AB", "Q", "UTC1", "N-7", "ok", "B2B"]


def codes(text):
    return list(text.encode("latin-1"))


def token(v):
    """A cell of a table as the bytes of its text."""
    if isinstance(v, bytes):
        v = v.decode("latin-1")
    if v is None or (isinstance(v, (float, np.floating)) and np.isnan(v)):
        return []
    if isinstance(v, (float, np.floating)) and float(v) == int(v):
        v = int(v)
    return codes(str(v).strip())


WIDTHS = {"counts": (3, 8, 4), "keeping": (3, 4, 2, 2, 3, 2),
          "shifted": (2,) * 9, "encounter": (3,) * 10 + (4,),
          "sixth": (3,) * 5 + (4,), "aero": (1,) * 9, "fourths": (3, 4, 12, 12)}
GIVEN = {
    "sigma": [("TOP_RADIUS", 1, 8), ("UNDER_RADIUS", 10, 8),
              ("ELECTRICAL_CONDUCTANCE", 19, 12)],
    "field": [("TIME", 1, 19), ("X1", 21, 8), ("Y1", 30, 8), ("Z1", 39, 8),
              ("Bx1", 48, 7), ("By1", 56, 7), ("Bz1", 64, 7), ("X2", 72, 10),
              ("Y2", 83, 10), ("Z2", 94, 10), ("Bx2", 105, 7),
              ("By2", 113, 7), ("Bz2", 121, 7)]}
INTS = ("MSB_INTEGER", "LSB_INTEGER", "MSB_UNSIGNED_INTEGER",
        "LSB_UNSIGNED_INTEGER")


def real(rng, how):
    return struct.pack(how, rng.randrange(-9999, 9999) / 8)


def cell_of(v, form):
    """A cell as an integer of eight bytes, a real, or a text."""
    if form == "ASCII" or isinstance(v, (bytes, str)):
        if isinstance(v, str) and form != "ASCII":
            return {"k": "text", "b": codes(v.strip())}
        return {"k": "text", "b": token(v)}
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return {"k": "int", "b": list((v % (1 << 64)).to_bytes(8, "big"))}
    if isinstance(v, (float, np.floating)):
        wide = form == "WIDE"
        return {"k": "real", "b": list(struct.pack(">d" if wide else ">f", v))}
    return {"k": "other", "b": codes(type(v).__name__)}


class C35(Prop):
    id = "C35"
    module = "Trace_Known"
    chunk_min = 60
    assumptions = (
        "the cases of Known.tla are what is known of these data sets: they "
        "were transcribed from the documentation of pdr's own rules",)
    level_note = (
        "TLC pairs every case with right and wrong labels of several sizes; "
        "each is written out with seeded content, loaded, reloaded and loaded "
        "from another Data, and the names, cells and elements compared with "
        "what the specification reads from the same lines or bytes; the "
        "label is compared before and after")

    def __init__(self, *a):
        super().__init__(*a)
        rows, cols = (3, 2) if self.quick else (4, 4)
        self.models = [("MC_Known", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxRows = {rows}\n MaxCols = {cols}\n"
            "INVARIANTS Covered Distinct Sound Emit\n"), "cases")]

    def from_model(self, scns):
        rng, out, groups = self.rng, [], {}
        for s in sorted(scns, key=str):
            groups.setdefault(str(s["o"]), []).append(s)
        most = 12 if self.quick else 120
        for k in sorted(groups):
            g = groups[k]
            rng.shuffle(g)
            # those whose files are long are costly
            long = g[0]["id"] == "afm" and g[0]["how"]["skip"] > 4
            if g[0]["how"]["kind"] == "text":
                g = (g * most)[:most]
            for s in g[:2 if long else most]:
                out.append(dict(s, seed=rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        return []

    # ------------------------------------------------------------- contents
    @staticmethod
    def cell(rng, width=7, words=True, kind=None):
        while True:
            r = rng.random() if kind is None else kind
            if words and r < .3:
                t = rng.choice(WORDS)
            elif r < .5:
                t = f"{rng.randrange(-99, 99)}.{rng.choice('123456789')}"
                if t.startswith("0.") or t.startswith("-"):
                    t = t.replace("-0.", "-1.")
            else:
                t = str(rng.randrange(-999, 10 ** min(6, width)))
            if len(t) <= width:
                return t
            width = max(width, 1)
            kind = .9

    @classmethod
    def text(cls, scn, rng):
        how, lab = scn["how"], scn["label"]
        n = scn["cols"] if scn["id"] != "housekeeping" else 3
        if how["extra"]:
            n = max(n, 8) + rng.randrange(2)
        elif scn["id"] != "housekeeping":
            n += rng.choice((0, 0, 1, 3))
        if scn["id"] == "crism" and rng.random() < .3:
            n = 50
        if scn["id"] == "electrons":
            n = 134
        pool = NAMES + [f"COL_{i}" for i in range(60)]
        pool += [f"COL_{i}" for i in range(60, 140)]
        if how["names"] == "slashes":
            pool = [x for x in pool if " " not in x]
        file_names = rng.sample(pool[:max(n, 14)], n)
        names = [x for x in file_names]
        if how["extra"]:
            names.remove(names[how["at"] - 1])
        for a in how["absent"]:
            names.insert(rng.randrange(len(names) + 1), a)
        if how["names"] == "head":
            names = rng.sample(pool[:max(n, 14)], n)
        sep = {(44,): [","], (59,): [";"], (9, 32): [" ", "  ", "\t"],
               (9, 32, 58): [" ", ":", "  ", "\t"]}[
                   tuple(sorted(how["sep"]))]
        joined = " " in sep
        missing = ["".join(map(chr, m)) for m in how["missing"]]
        numeric = scn["id"] == "diviner"
        # numbers or words
        kinds = [rng.random() for _ in range(n)]

        def row(m=n):
            out = []
            for j in range(m):
                if missing and rng.random() < .25:
                    t = rng.choice(missing)
                    if scn["id"] in ("crism", "rems"):
                        # known in these forms only
                        t = {"N/A": "N/A  ", "UNK": " UNK",
                             "NULL": "   NULL"}[t]
                    out.append(t)
                    continue
                t = cls.cell(rng, 6, not numeric, kinds[j])
                if scn["id"] == "crism" and j in (0, 44, 46, 47, 48):
                    t = rng.choice((t, "007", "1.50"))
                if not joined and rng.random() < .3:
                    t = t.rjust(8)
                out.append(t)
            line = out[0]
            for t in out[1:]:
                line += rng.choice(sep) + t
            if scn["id"] == "electrons":
                line = "".join(c if c != "," else rng.choice((",", ",,"))
                               for c in line)
            if scn["id"] == "echoes":
                line = " ".join(t.rjust(8) for t in out)
            return line

        skip = how["skip"]
        if how["rows"] == "counted":
            skip = lab["start"] // 399
        lines = []
        for i in range(skip):
            if how["names"] == "head" and i == 0 or (
                    scn["id"] in ("saturn", "places") and i == 0):
                lines.append(rng.choice(sep).join(
                    file_names if how["names"] == "head"
                    else [f"H{j}" for j in range(n)]))
            elif scn["id"] == "density" and i == 1:
                lines.append(";".join(f"H{j}" for j in range(n)))
            elif how["rows"] in ("counted", "512"):
                lines.append(row(1 if how["rows"] == "512" else n))
            else:
                lines.append(rng.choice(("Some words", "a,b", "1 2 3", "# x",
                                         "x;y;z", "units: km")))
        if how["names"] == "slashes":
            for _ in range(rng.randrange(4)):
                lines.append(rng.choice(("# words", "STATION 1", "a b c")))
            lines.append("//" + rng.choice(("", " ")) + " ".join(
                x.rjust(8) for x in file_names))
        rows = rng.randrange(1, 5)
        if how["rows"] == "counted":
            rows = lab["rows"] + rng.choice((0, 0, 1, 3))
        if how["rows"] == "512":
            rows = rng.choice((512, 512, 514)) if skip <= 516 else 3
            n = min(n, 2)
            file_names, names = file_names[:n], names[:n]
        for i in range(rows):
            if scn["id"] == "housekeeping" and (i == 0 or rng.random() < .3):
                lines.append(row(1 if i == 0 else rng.randrange(1, 4)))
            else:
                lines.append(row(n))
                if how["over"] and i and rng.random() < .4:
                    lines[-1] += ","
            if how["repeats"] and rng.random() < .4:
                lines.append("VOYAGER 1 " + ",".join("x" * n))
        lab = dict(lab, names=names)
        if how["rows"] == "all":
            # what the label says of them is not to be relied on
            lab["rows"] = max(1, rows + rng.choice((0, 0, 1, -1, 7)))
            if scn["id"] == "horizons":
                lab["rows"] = rows
        eol = rng.choice(("\r\n", "\n"))
        body = b""
        events = []
        for i, t in enumerate(lines):
            raw = t.encode()
            if how["nuls"] and rng.random() < .5:
                at = rng.choice((0, len(raw), rng.randrange(len(raw) + 1)))
                raw = raw[:at] + b"\0" * rng.randrange(1, 4) + raw[at:]
            body += raw + eol.encode()
            events.append(list(raw))
        cols, at = [], 1
        sheet = "SPREADSHEET" in scn["o"]["name"]
        for nm in names:
            w = rng.randrange(2, 9)
            col = [("NAME", pds3.q(nm)), ("DATA_TYPE", rng.choice(
                ("ASCII_REAL", "CHARACTER", "ASCII_INTEGER"))),
                *([] if sheet else [("START_BYTE", at)]), ("BYTES", w)]
            cols.append(("OBJECT", "FIELD" if sheet else "COLUMN", col))
            at += w + (0 if scn["id"] == "gas" else rng.randrange(3))
        block = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", lab["rows"]),
                 *([("FIELD_DELIMITER", pds3.q("COMMA"))]
                   if scn["id"] == "horizons" else []),
                 ("FIELDS" if sheet else "COLUMNS", len(names)),
                 ("ROW_BYTES", at - 1 if scn["id"] == "gas" else at + 1)]
        if scn["id"] == "horizons":
            # a spreadsheet's longest row, with its line end
            block[-1] = ("ROW_BYTES", max(map(len, lines)) + 2)
        return lab, block, cols, body, dict(lines=events, bytes=[])

    @classmethod
    def fixed(cls, scn, rng):
        how, lab = scn["how"], dict(scn["label"])
        by = how["stride"]["by"]
        stride = {"more": lambda: lab["rowbytes"] + how["stride"]["n"],
                  "being": lambda: how["stride"]["n"],
                  "record": lambda: lab["recordbytes"],
                  "wrong": lambda: how["stride"].get("right", 0) if lab[
                      "rowbytes"] == how["stride"]["n"] else
                  lab["rowbytes"]}[by]()
        rows = {"label": lab["rows"], "records": lab["records"],
                "size": rng.randrange(1, 5), "two": 2}[how["rows"]]
        start = 79 * (lab["record"] - 1) if how["start"] == "record" else lab[
            "start"]
        if how["start"] == "bottom":
            start = rng.choice((0, 5, 64, 200))
        if scn["id"] in ("outages",):
            start = lab["start"] = 0
        n = scn["cols"] + rng.randrange(2)
        if how["cols"] in ("numbered", "nameless"):
            n = 3
        if how["cols"] == "six":
            n = 6
        if how["cols"] == "last":
            n = 9
        given = GIVEN.get(how["cols"])
        room = stride - (2 if how["ends"] else 0)
        widths = WIDTHS.get(how["cols"])
        if widths:
            widths = list(widths) + [2] * rng.randrange(2)
            n = len(widths)
        if given:
            n = len(given)
        names = rng.sample(NAMES, n)
        if how["cols"] == "counts":
            names[1] = rng.choice(("COUNTS", "COUNTS", "OTHERS"))
        if how["cols"] == "figures":
            names[0] = "1"
        # true columns
        cols, at = [], 1
        if given:
            cols = [dict(name=a, start=s, bytes=b, number=0)
                    for a, s, b in given]
        if widths:
            if how["cols"] == "shifted":
                at = 2
            spare = room - sum(widths) - at + 1
            for i, w in enumerate(widths):
                if how["cols"] == "encounter" and i == 10:
                    at = max(at, 62)
                elif how["cols"] == "sixth" and i == 5:
                    at = 80
                elif how["cols"] not in ("encounter", "sixth") and spare and (
                        rng.random() < .5):
                    at, spare = at + 1, spare - 1
                cols.append(dict(name=names[i], start=at, bytes=w,
                                 number=i + 1))
                at += w
        tight = how["cols"] in ("six", "last")
        for i in range(0 if cols else n):
            w = rng.randrange(2, min(7, max(3, room // n)))
            if how["cols"] == "last":
                w = 6
            if how["cols"] == "six":
                w = 3
            if how["cols"] == "nameless":
                at = (1, 17, 21)[i]
                w = min(w, 4)
                w = min(w, room - at + 1)
            elif not tight:
                w = max(1, min(w, room - at + 1 - (n - 1 - i) * 2))
            cols.append(dict(name=names[i], start=at, bytes=w, number=i + 1))
            at += w + (0 if tight else rng.choice((0, 1, 1)) if (
                room - at - w) > 3 * (n - i) else 0)
        if how["cols"] == "numbered":
            for i, c in enumerate(cols):
                c["number"] = 12 + i
                c["start"] = (1, 9, 17)[i]
                c["bytes"] = min(c["bytes"], 5)
        brim = how["cols"] in ("label", "fewer", "last", "aero") and (
            rng.random() < .6)
        if brim:
            # up to the row's end, where a byte less tells
            c = cols[-1]
            c["start"] = max(c["start"], room - c["bytes"] + 1)
        body = b""
        for i in range(rows):
            line = [" "] * room
            for c in cols:
                t = cls.cell(rng, c["bytes"], not (i == 0 and c["bytes"] < 3))
                if how["cols"] in WIDTHS:
                    # as long as they can be, so that a byte more or less
                    # tells
                    t = "".join(rng.choice("123456789") for _ in range(
                        c["bytes"])) if rng.random() < .8 else t
                t = (t.rjust if brim and c is cols[-1] else rng.choice(
                    (t.rjust, t.ljust)))(c["bytes"])
                if tight and len(t.strip()) == c["bytes"]:
                    pass
                line[c["start"] - 1:c["start"] - 1 + c["bytes"]] = t
            body += "".join(line[:room]).encode()
            if how["ends"]:
                body += b"\r\n"
        # as labelled
        told = [dict(c) for c in cols]
        others = []
        if how["cols"] == "counts" and told[1]["name"] == "COUNTS":
            told[1]["bytes"] = rng.randrange(3, 8)
        if how["cols"] == "keeping":
            for i in (1, 3, 5):
                told[i]["bytes"] = rng.choice((1, 3))
        if how["cols"] == "shifted":
            for c in told[:9]:
                c["start"] -= 1
        if how["cols"] == "encounter":
            told[10]["start"] = 61
        if how["cols"] == "sixth":
            told[5]["start"] = rng.choice((70, 79))
        if how["cols"] == "fourths":
            for c in told[2:4]:
                c["bytes"] = rng.choice((8, 10))
        if given:
            told = []
        if how["cols"] == "numbered":
            told[1]["start"] += 1
            told[2]["start"] += 2
        if how["cols"] == "nameless":
            for c in told[1:]:
                if rng.random() < .7:
                    c["name"] = ""
        if how["cols"] == "last":
            told[8]["bytes"] = 5
        if how["cols"] == "fewer":
            at = cols[-1]["start"] + cols[-1]["bytes"]
            for i in range(4):
                told.append(dict(name=f"MORE_{i}", start=at + i, bytes=1,
                                 number=20 + i))
        if how["cols"] == "sumry":
            others = told
            told = [dict(name="W", start=1, bytes=2, number=1)]
        lab.update(columns=told, others=others)
        junk = bytes(rng.choice(b"0123456789 XYZ") for _ in range(start))
        if start and how["ends"]:
            junk = junk[:-1] + b"\n"
        tail = b"" if how["rows"] == "size" or how["start"] == "bottom" or scn["id"] == "outages" else \
            rng.choice((b"", b"", b"MORE 1 2 3\r\nAND MORE\r\n"))
        data = junk + body + tail

        def block_of(cs):
            out = []
            for c in cs:
                col = [("START_BYTE", c["start"]), ("BYTES", c["bytes"]),
                       ("DATA_TYPE", rng.choice(("CHARACTER", "ASCII_REAL")))]
                if c["name"] == "1":
                    col.insert(0, ("NAME", 1))
                elif c["name"]:
                    col.insert(rng.randrange(3), ("NAME", pds3.q(c["name"])))
                if how["cols"] == "numbered":
                    col.insert(0, ("COLUMN_NUMBER", c["number"]))
                out.append(("OBJECT", "COLUMN", col))
            return out
        block = [("INTERCHANGE_FORMAT", "ASCII"),
                 ("ROWS", pds3.q("UNK") if how["rows"] == "size"
                  else lab["rows"]), ("COLUMNS", len(told)),
                 ("ROW_BYTES", lab["rowbytes"])]
        if how["cols"] == "encounter":
            block.append(("DESCRIPTION", pds3.q("The encounter data.")))
        return lab, block, (block_of(told), block_of(others)), data, dict(
            lines=[], bytes=list(data))

    @classmethod
    def cells(cls, scn, rng):
        how, lab = scn["how"], dict(scn["label"])
        ascii_ = how["format"] == "ASCII"
        kind, rows, stride = how["cols"], lab["rows"], lab["rowbytes"]
        room = stride - (2 if ascii_ else 0)
        told = {t["told"]: t["true"] for t in how["types"]}
        names = rng.sample(NAMES, 12)

        def of(name, start, type_, width, items=0, each=0):
            return dict(name=name, start=start, bytes=width, type=type_,
                        items=items, each=each)

        def types():
            if ascii_:
                t = rng.choice(("ASCII_REAL", "CHARACTER"))
                return t, rng.randrange(2, 6)
            if kind != "label":
                t = rng.choice(INTS)
            else:
                t = rng.choice([*told] * 2 + [*INTS, "CHARACTER"])
            if scn["id"] == "jovian-tables":
                t = "IEEE_REAL"
            if "REAL" in t:
                return t, 4
            if "INTEGER" in told.get(t, t):
                return t, rng.choice((1, 2, 4))
            return t, rng.randrange(1, 5)
        true, group = [], dict(start=1, bytes=0, reps=0, columns=[])
        at = 1

        def add(width=None, type_=None, items=0, name=None, spare=0):
            """Another column, and where the next may start."""
            nonlocal at
            t, w = types()
            t, w = type_ or t, width or w
            if at + max(1, items) * w - 1 > room - spare:
                return
            if not tight and rng.random() < .4 and (
                    at + max(1, items) * w <= room - spare):
                at += 1
            true.append(of(name or names[len(true)], at, t,
                           w * max(1, items), items, w if items else 0))
            at += w * max(1, items)
        tight = kind in ("eighth", "second")
        jovian = scn["id"] == "jovian-tables"
        if kind == "eighth":
            for i in range(7):
                add(1, rng.choice(INTS), spare=2)
            add(2, rng.choice(INTS))
        elif kind == "second":
            add(rng.choice((1, 2, 4)), rng.choice(INTS), spare=12)
            add(8, "IEEE_REAL")
        elif kind == "sweeps":
            add(3, "ASCII_REAL", spare=13)
            add(4, "ASCII_REAL", rng.randrange(2, 4),
                rng.choice(("SWEEP", "SWEEP1")))
        elif kind == "thirteen":
            add(3 if stride > 40 else 2, "ASCII_REAL", spare=15)
        elif kind == "channels":
            add(3, "ASCII_REAL", spare=15)
        if jovian:
            tight = True
        for _ in range(room // 4 if jovian else rng.randrange(1, 4)):
            add(spare={"channels": 14, "thirteen": 14}.get(kind, 0))
        if tight and at <= room:
            # these fill their rows
            true.append(of("REST", at, "CHARACTER", room - at + 1))
        if kind == "channels":
            items = rng.randrange(1, 3) if stride < 30 else 2
            each = rng.randrange(1, 2) + 1 if stride < 30 else 3
            c = [of("STATUS_WORD", 1, "ASCII_REAL", 3),
                 of("DATA_CHANNELS", 5, "ASCII_REAL", items * each, items,
                    each) if items > 1 else
                 of("DATA_CHANNELS", 5, "ASCII_REAL", each)]
            g = 4 + items * each
            group = dict(start=at, bytes=g, columns=c,
                         reps=max(1, (room - at + 1) // g))
        if kind == "thirteen":
            items = 2 if room - at + 1 >= 26 else 1
            c = [of("RATE", 1, "ASCII_REAL", items * 13, items, 13)
                 if items > 1 else of("RATE", 1, "ASCII_REAL", 13)]
            group = dict(start=at, bytes=items * 13, columns=c, reps=1)
        if kind == "label" and not ascii_ and rng.random() < .3:
            # several items of the last
            c = true[-1]
            n = (room - c["start"] + 1) // c["bytes"]
            if n > 1:
                c.update(items=n, each=c["bytes"], bytes=n * c["bytes"])

        def datum(c):
            w = c["each"] or c["bytes"]
            t = told.get(c["type"], c["type"])
            out = b""
            for _ in range(max(1, c["items"])):
                if ascii_:
                    s = "".join(rng.choice("123456789") for _ in range(
                        rng.choice((w, max(1, w - 1)))))
                    if w > 3 and rng.random() < .3:
                        s = s[:-2] + "." + s[-1]
                    out += s.rjust(w).encode()
                elif "INTEGER" in t:
                    out += bytes(rng.choice((0, 255, rng.randrange(256)))
                                 for _ in range(w))
                elif "REAL" in t:
                    out += real(rng, ("<" if t == "PC_REAL" else ">") + (
                        "f" if w == 4 else "d"))
                elif t == "CHARACTER":
                    out += bytes(rng.choice(b"ABCxyz019") for _ in range(w))
                else:
                    out += bytes(rng.randrange(33, 127) for _ in range(w))
            return out
        body, widths = b"", []
        for i in range(rows):
            line = bytearray(b" " * room if ascii_ else bytes(
                rng.randrange(256) for _ in range(room)))
            for c in true:
                line[c["start"] - 1:c["start"] - 1 + c["bytes"]] = datum(c)
            for k in range(group["reps"]):
                for c in group["columns"]:
                    a = group["start"] + k * group["bytes"] + c["start"] - 2
                    line[a:a + c["bytes"]] = datum(c)
            assert len(line) == room
            body += bytes(line) + (b"\r\n" if ascii_ else b"")
        for c in true:
            widths += [c["each"] or c["bytes"]] * max(1, c["items"])
        # as labelled
        cols = [dict(c) for c in true]
        g = dict(group, columns=[dict(c) for c in group["columns"]])
        if kind == "eighth":
            cols[7]["bytes"] = rng.choice((1, 3))
        if kind == "second":
            cols[1]["bytes"] = 4
            for c in cols[2:]:
                c["start"] -= 4
        if kind == "sweeps":
            cols[1].update(bytes=4, each=0)
        if kind == "channels":
            for c in g["columns"]:
                c["start"] += g["start"] - 1
        if kind == "thirteen":
            for c in g["columns"]:
                c["start"] += rng.choice((0, g["start"] - 1))
                if c["items"]:
                    c["each"] = 12
        lab.update(columns=cols, group=g)
        place = how["place"]
        start = {"64": 64, "0": 0, "early": stride * (lab["record"] - 2),
                 "records": stride * (lab["record"] - 1),
                 "wrapped": stride * (lab["record"] - 1)}.get(
                     place, lab["start"])
        junk = bytes(rng.choice(b"0123456789 XYZ") for _ in range(start))
        if start and ascii_:
            junk = junk[:-1] + b"\n"
        tail = b"" if place == "bottom" else rng.choice(
            (b"", b"", b"MORE 1 2 3\r\nAND MORE\r\n"))
        if place == "bottom":
            lab["start"] += rng.choice((0, 1, 3))

        def entry(c):
            col = [("NAME", pds3.q(c["name"])), ("DATA_TYPE", pds3.q(
                c["type"])), ("START_BYTE", c["start"]), ("BYTES", c["bytes"])]
            if c["items"]:
                col.append(("ITEMS", c["items"]))
                if c["each"]:
                    col.append(("ITEM_BYTES", c["each"]))
            if kind == "second":
                col.append(("COLUMN_NUMBER", cols.index(c) + 1))
            return ("OBJECT", "COLUMN", col)
        inner = [entry(c) for c in cols]
        if g["reps"]:
            inner.append(("OBJECT", "CONTAINER", [
                ("NAME", pds3.q("GROUP")), ("START_BYTE", g["start"]),
                ("BYTES", g["bytes"]), ("REPETITIONS", g["reps"]),
                *(entry(c) for c in g["columns"])]))
        block = [("INTERCHANGE_FORMAT", how["format"]), ("ROWS", rows),
                 ("COLUMNS", len(cols)), ("ROW_BYTES", stride)]
        data = junk + body + tail
        return lab, block, inner, data, dict(lines=[], bytes=list(data))

    @staticmethod
    def image(scn, rng):
        how, lab = scn["how"], dict(scn["label"])
        lines, samples = lab["lines"], lab["samples"]
        if how["swapped"]:
            lines, samples = samples, lines
        prefix = lab["prefix"] if how["prefix"] else 0
        item = how["item"]
        data = bytes(rng.randrange(256) for _ in range(lab["start"]))
        for _ in range(lines):
            data += bytes(rng.randrange(256) for _ in range(prefix))
            for _ in range(samples):
                data += bytes([rng.randrange(256)]) if item == 1 else real(
                    rng, "<f")
        block = [("LINES", lab["lines"]), ("LINE_SAMPLES", lab["samples"]),
                 ("SAMPLE_BITS", 8 * item),
                 ("SAMPLE_TYPE", pds3.q(how["told"]))]
        if lab["prefix"] and (how["prefix"] or item == 1):
            block.append(("LINE_PREFIX_BYTES", lab["prefix"]))
        return lab, block, [], data, dict(lines=[], bytes=list(data))

    def execute(self, scn, d):
        import pdr
        rng = random.Random(scn["seed"])
        o, how = scn["o"], scn["how"]
        name, kind = o["name"], how["kind"]
        lab, block, cols, data, e = getattr(self, kind)(scn, rng)
        e = dict(e, op=kind, o=o, label=lab, id=scn["id"], listed=False,
                 same=False)
        folder = d / rng.choice(("x", "FULL", "A_ULVS_DDP", "IR_1",
                                 "HUY_DTWG_ENTRY_AERO", "event", "summary", "high",
                                 "x.txt", "ODF_1"))
        folder.mkdir(exist_ok=True)
        fmt = o["format"]
        inner = cols[0] if isinstance(cols, tuple) else cols
        if fmt:
            (folder / fmt).write_bytes(pds3.label(inner, version=False))
            if isinstance(cols, tuple) and cols[1]:
                (folder / "SUMRY.FMT").write_bytes(
                    pds3.label(cols[1], version=False))
            inner = [("^STRUCTURE", pds3.q(fmt))]
        (folder / o["file"]).write_bytes(data)
        ids = [(i["key"], pds3.raw(i["text"]) if i["text"].isdigit()
                else pds3.q(i["text"])) for i in o["ids"]]
        rng.shuffle(ids)
        if lab["records"]:
            ids.append(("FILE_RECORDS", lab["records"]))
        if lab["recordbytes"]:
            ids.append(("RECORD_BYTES", lab["recordbytes"]))
        elif rng.random() < .4:
            ids.append(("RECORD_BYTES", lab["rowbytes"] or 40))
        at = f'("{o["file"]}", {lab["start"] + 1} <BYTES>)'
        if how.get("start") == "record":
            at = f'("{o["file"]}", {lab["record"]})'
            ids = [i for i in ids if i[0] != "RECORD_BYTES"] + [
                ("RECORD_BYTES", 80)]
        elif how.get("place") in ("early", "records", "wrapped"):
            at = f'("{o["file"]}", {lab["record"]})'
            if how["place"] == "wrapped":
                at = f'"({o["file"]},{lab["record"]})"'
            ids = [i for i in ids if i[0] != "RECORD_BYTES"] + [
                ("RECORD_BYTES", lab["rowbytes"])]
        elif lab["start"] == 0 and rng.random() < .4 and (
                kind != "image" and how.get("place") != "bytes"):
            at = f'"{o["file"]}"'
        elif how.get("place") == "bytes":
            # counted in bytes, without saying so
            at = f'("{o["file"]}", {lab["start"] + 1})'
            ids = [i for i in ids if i[0] != "RECORD_BYTES"] + [
                ("RECORD_BYTES", lab["rowbytes"])]
        elif how.get("place") in ("64", "0"):
            at = f'("{o["file"]}", {rng.randrange(1, 5)})'
        if o["file"].startswith("p."):
            # of another name in the label
            at = at.replace(o["file"], "OTHER.TAB")
            (folder / "OTHER.TAB").write_bytes(data[::-1])
        owner = {"quality": "QUALITY_QUALITY_IMAGE"}.get(
            scn["id"], how.get("owner") or name)
        if "TIME_SERIES" != name and scn["id"] == "field":
            owner = "TIME_SERIES"
        if any("RMP" in i["text"] for i in o["ids"]):
            owner = "RAMP_TABLE"
        others = []
        if scn["id"] == "waves":
            # the other's definition has the name of this one, or of neither
            other = {"DATA_TABLE": "FREQ_OFFSET_TABLE"}.get(name, "DATA_TABLE")
            others = [("^" + other, pds3.raw(f'("{o["file"]}", 1 <BYTES>)')),
                      ("OBJECT", {"TABLE": "DATA_TABLE"}.get(owner, "TABLE"), [
                          ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 1),
                          ("ROW_BYTES", 3), ("COLUMNS", 1),
                          ("OBJECT", "COLUMN", [
                              ("NAME", "OTHER"), ("START_BYTE", 1),
                              ("BYTES", 3), ("DATA_TYPE", "CHARACTER")])])]
        objs = [("OBJECT", owner, block + inner), *others[1:]]
        if rng.random() < .5:
            objs.reverse()
        text = pds3.label([*ids, ("^" + name, pds3.raw(at)), *others[:1],
                           *objs])
        lbl = folder / "p.lbl"
        lbl.write_bytes(text)

        def proj(v):
            if isinstance(v, np.ndarray):
                return {"kind": "array", "shape": list(v.shape),
                        "cells": [list(struct.pack(">f", x)) for x in
                                  v.ravel()] if v.dtype.kind == "f" else
                        [int(x) for x in v.ravel()]}
            if isinstance(v, pd.DataFrame) and kind == "cells":
                return {"kind": "frame", "names": [str(c) for c in v.columns],
                        "rows": [[cell_of(x, "WIDE" if how["cols"] == "second"
                                           else how["format"]) for x in r]
                                 for r in v.astype(object).to_numpy(
                                     dtype=object).tolist()]}
            if isinstance(v, pd.DataFrame):
                return {"kind": "frame", "names": [str(c) for c in v.columns],
                        "rows": [[token(x) for x in r] for r in v.to_numpy(
                            dtype=object).tolist()]}
            return {"kind": "other", "what": type(v).__name__}

        got = {}

        def words(x):
            return (str(x.metadata), str(x.metablock_(owner)),
                    x.metaget_("LINES"), x.metaget_("ROW_BYTES"),
                    x.metaget_("ROWS"))

        def load():
            x = got["x"] = pdr.read(str(lbl))
            got["words"] = words(x)
            e["listed"] = name in x.keys()
            x.load(name)
            return x[name]

        def again():
            got["x"].load(name, reload=True)
            return got["x"][name]

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e["obs"] = [project.observe(load, proj)]
            if "x" in got:
                e["obs"].append(project.observe(again, proj))
                e["obs"].append(project.observe(again, proj))
                e["same"] = words(got["x"]) == got["words"]
            e["obs"].append(project.observe(
                lambda: pdr.read(str(lbl))[name], proj))
        return [e]

    def timeout_events(self, scn):
        return [dict(op=scn["how"]["kind"], o=scn["o"], id=scn["id"],
                     label=dict(scn["label"], names=[], columns=[], others=[],
                                group={}),
                     lines=[], bytes=[], listed=True, same=True,
                     obs=[{"kind": "timeout"}])]

    def canary(self, evs, rng):
        e = evs[0]
        obs = e["obs"][0]
        r = rng.random()
        if r < .2:
            e["same"] = not e["same"]
        elif r < .3:
            e["listed"] = not e["listed"]
        elif obs["kind"] == "array" and isinstance(obs["cells"][0], list):
            rng.choice(obs["cells"])[3] ^= 1
        elif obs["kind"] == "frame" and e["op"] == "cells" and obs[
                "rows"] and r < .8:
            row = rng.choice(obs["rows"])
            row[rng.randrange(len(row))] = {"k": "text", "b": codes("??")}
        elif obs["kind"] == "array":
            k = rng.randrange(len(obs["cells"]))
            obs["cells"][k] = (obs["cells"][k] + 1) % 256
        elif obs["kind"] == "frame" and obs["rows"] and r < .8:
            row = rng.choice(obs["rows"])
            row[rng.randrange(len(row))] = codes("??")
        elif obs["kind"] == "frame":
            obs["names"] = obs["names"] + ["EXTRA"]
        else:
            e["obs"][0] = {"kind": "exc", "type": "X"}
        return evs
