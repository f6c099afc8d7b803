"""C23 PDS4 products."""
from __future__ import annotations

import random
import struct
import warnings
from xml.sax.saxutils import escape

import numpy as np
import pandas as pd

import pdr

from . import project
from .core import Prop
from .p_text import integer, real

NUM = {"SignedByte": 1, "UnsignedByte": 1}
for _o in ("LSB", "MSB"):
    for _w in (2, 4, 8):
        NUM[f"Signed{_o}{_w}"] = NUM[f"Unsigned{_o}{_w}"] = _w
    NUM[f"IEEE754{_o}Single"], NUM[f"IEEE754{_o}Double"] = 4, 8
    NUM[f"Complex{_o}8"], NUM[f"Complex{_o}16"] = 8, 16
BITS = ("SignedBitString", "UnsignedBitString")
TEXTS = ("ASCII_String", "UTF8_String", "ASCII_Date_YMD", "ASCII_Time",
         "ASCII_Date_Time_YMD_UTC", "ASCII_LID", "ASCII_Short_String_Collapsed",
         "UTF8_Short_String_Preserved", "ASCII_File_Name")
ASCII = ("ASCII_Integer", "ASCII_NonNegative_Integer", "ASCII_Real",
         "ASCII_Boolean", "ASCII_Numeric_Base2", "ASCII_Numeric_Base8",
         "ASCII_Numeric_Base16")
EDGES = [0, 1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536,
         2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1,
         2 ** 63 - 1]
NAMES = ["A", "time", "Flux Density", "GROUP1", "x_y", "RATE (1)", "é",
         "AGE_GROUP_2 n", "B-1", "12", "2e3", "nan", "T:UTC", "Group",
         "field_location", "q/r"]
IDS = ["img", "DATA", "spectrum 1", "my table", "X_1", "a-b", "Q", "hdr",
       "Counts", "back plane", "m1", "z9"]
SEPS = {"Comma": ",", "Horizontal Tab": "\t", "Semicolon": ";",
        "Vertical Bar": "|"}
TAGS = ["title", "comment", "description", "start", "Node", "Block", "kind",
        "note", "pds_x", "Time_Coordinates"]
TEXT_VALUES = ["one", "2", "2.50", "1e5", "true", "a b", "  padded  ", "",
               "a  b\tc", "two\n lines", "\n one line \n", "N/A", "nan", "&<>",
               "2020-01-02T03:04:05Z", "é", "   "]


def el(tag, *inner, unit=None):
    a = f' unit="{unit}"' if unit else ""
    return f"<{tag}{a}>{''.join(str(i) for i in inner)}</{tag}>"


# ------------------------------------------------------------- projections

def array(v):
    if not isinstance(v, np.ndarray):
        return {"kind": type(v).__name__}
    if isinstance(v, np.ma.MaskedArray) or v.dtype.kind not in "iufc":
        return {"kind": f"{type(v).__name__}:{v.dtype}"}
    return {"kind": "array", "dtype": project.dtcode(v.dtype),
            "shape": list(v.shape), "data": project.canon_bytes(v)}


def header(v):
    return {"kind": "bytes", "data": list(v)} if isinstance(v, bytes) \
        else {"kind": type(v).__name__}


def gone(x):
    return x is None or (isinstance(x, (float, np.floating)) and np.isnan(x)) \
        or x is pd.NA


def numeral(x):
    return "" if gone(x) else repr(x.item() if hasattr(x, "item") else x)


def based(x, f):
    if gone(x) or x != int(x):
        return ""
    return format(int(x), f)


def column(series):
    v = series.to_numpy()
    o = {"name": str(series.name), "dtype": project.dtcode(v.dtype),
         "data": [], "text": [], "bin": [], "oct": [], "hex": []}
    cells = v.tolist() if v.dtype.kind in "iufcb" else list(v)
    known = [x for x in cells if not gone(x)]
    if v.dtype.kind in "iufc":
        o["kind"] = {"i": "int", "u": "int", "f": "real",
                     "c": "complex"}[v.dtype.kind]
        o["data"] = project.canon_bytes(v)
    elif v.dtype.kind == "b":
        o["kind"] = "bool"
    elif all(isinstance(x, str) for x in known) and known:
        o["kind"] = "text"
        o["data"] = [[] if gone(x) else list(x.encode()) for x in cells]
    elif all(isinstance(x, (bytes, np.void)) for x in known) and known:
        o["kind"] = "bytes"
        o["data"] = [[] if gone(x) else list(bytes(x)) for x in cells]
    else:
        o["kind"] = "objects"
    if o["kind"] in ("text", "bytes", "complex"):
        o["text"] = [""] * len(cells)
    else:
        o["text"] = [numeral(x) for x in cells]
    if o["kind"] in ("int", "real", "objects") and all(
            isinstance(x, (int, float)) and not np.isinf(x) for x in known):
        for k, f in (("bin", "b"), ("oct", "o"), ("hex", "x")):
            o[k] = [based(x, f) for x in cells]
    else:
        o["bin"] = o["oct"] = o["hex"] = [""] * len(cells)
    return o


def table(df):
    if not isinstance(df, pd.DataFrame):
        return {"kind": type(df).__name__}
    return {"kind": "table", "nrows": len(df),
            "cols": [column(df.iloc[:, i]) for i in range(df.shape[1])]}


def tree(tag, v):
    if hasattr(v, "items"):
        return {"tag": tag, "text": "",
                "sub": [tree(k, x) for k, x in v.items()]}
    return {"tag": tag, "text": "" if v is None else
            v if isinstance(v, str) else f"{type(v).__name__}:{v}", "sub": []}


def want_xml(t):
    inner = escape(t["text"]) if not t["sub"] else "".join(
        want_xml(s) for s in t["sub"])
    return f"<{t['tag']}>{inner}</{t['tag']}>"


# ------------------------------------------------------------------ layout

def values(nd):
    return 1 if nd["k"] == "f" else nd["reps"] * sum(
        values(s) for s in nd["sub"])


def end(nodes):
    return max([0] + [n["loc"] - 1 + n["len"] for n in nodes])


class Pds4(Prop):
    id = "C23"
    module = "Trace_Pds4"
    chunk_min = 60
    assumptions = (
        "array axes are stored last index fastest (the only order PDS4 "
        "allows); groups nest at most twice (deeper ones are refused)",
        "integers fit 64 bits; texts contain no quotes, line ends or NULs",
        "identifiers are not names of attributes of Data")
    level_note = (
        "TLC explores every record description, axis order and row of "
        "delimited values up to the bounds against writers that know nothing "
        "of offsets; each is replayed in seeded products with seeded types, "
        "places, contents and other structures (sampled)")

    def __init__(self, *a):
        super().__init__(*a)
        q = self.quick
        m = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        self.models = [
            ("MC_Pds4", m + f" MaxGap = 1\n MaxReps = {2 if q else 3}\n"
             " Records = 2\nINVARIANTS Fixed4 Delimited4 Whole Emit\n",
             "records"),
            ("MC_Pds4Row", m + f" MaxVals = {2 if q else 3}\n MaxLen = 2\n"
             "INVARIANTS RoundTrip Emit\n", "rows"),
            ("MC_Pds4Axes", m + f" MaxAxes = {3 if q else 4}\n MaxN = 3\n"
             "INVARIANTS RoundTrip Emit\n", "axes")]

    def from_model(self, scns):
        groups = {"nodes": [], "values": [], "axes": []}
        for s in {repr(s): s for s in scns}.values():
            for k in groups:
                if k in s:
                    groups[k].append(s)
        n = {"nodes": 360, "values": 90, "axes": 140} if self.quick else \
            {"nodes": 4000, "values": 3000, "axes": 2000}
        out = []
        for k, g in groups.items():
            g.sort(key=repr)
            self.rng.shuffle(g)
            out += [self.one(k, s) for s in g[:n[k]]]
        return out

    def random_scenarios(self):
        return [self.one(self.rng.choice(("any", "any", "any", "table")), {})
                for _ in range(520 if self.quick else 8000)]

    def one(self, what, model):
        return dict(what=what, model=model, seed=self.rng.randrange(1 << 30))

    # ------------------------------------------------------------- tables
    def nodes(self, rng, depth=0):
        out, at = [], 1
        for _ in range(rng.randrange(1, 5 - depth)):
            at += rng.choice((0, 0, 1, 2))
            if depth < 2 and rng.random() < 0.3:
                sub = self.nodes(rng, depth + 1)
                reps = rng.randrange(1, 4)
                out.append(dict(k="g", name=rng.choice(("", "", "", "G")),
                                reps=reps, loc=at, sub=sub,
                                len=reps * (end(sub) + rng.choice((0, 0, 1)))))
            else:
                out.append(dict(k="f", name="", type="", loc=at, len=1))
            at = end(out) + 1
        return out

    def dress(self, rng, form, nodes, used=None):
        """the same arrangement with names, types and lengths; places are
        laid out again, keeping the gaps"""
        out, at, was = [], 1, 1
        names = set()
        for n in nodes:
            m = dict(n, loc=at + n["loc"] - was)
            if n["k"] == "f":
                m["name"] = rng.choice(NAMES)
                if m["name"] in names and rng.random() < 0.7:
                    m["name"] += "_" + str(len(names))
                names.add(m["name"])
                if form == "Binary":
                    t = rng.choice(list(NUM) + list(NUM) + list(BITS)
                                   + list(ASCII) + list(TEXTS))
                else:
                    t = rng.choice(ASCII + ASCII + TEXTS)
                m["type"] = t
                m["len"] = NUM.get(t) or (rng.randrange(1, 5) if t in BITS
                                          else rng.randrange(1, 24))
            else:
                m["sub"] = self.dress(rng, form, n["sub"])
                each = end(m["sub"]) + n["len"] // n["reps"] - end(n["sub"])
                m["len"] = each * n["reps"]
            out.append(m)
            at = m["loc"] + m["len"]
            was = n["loc"] + n["len"]
        # group names must differ from each other
        seen = set()
        for m in out:
            if m["k"] == "g" and m["name"]:
                while m["name"] in seen:
                    m["name"] += "x"
                seen.add(m["name"])
        return out

    def cell(self, rng, t, wide, empty, flavor):
        """text of a value, at most `wide` bytes"""
        if t in ASCII and empty and rng.random() < 0.3:
            return ""
        for _ in range(30):
            if t == "ASCII_Integer":
                s = integer(rng) if flavor == 0 else str(
                    rng.choice((1, -1)) * rng.choice(EDGES[:4 + 2 * flavor]))
            elif t == "ASCII_NonNegative_Integer":
                s = integer(rng).strip("+-") if flavor == 0 else str(
                    rng.choice(EDGES[:4 + 2 * flavor]
                               + [2 ** 64 - 1] * (flavor == 7)))
            elif t == "ASCII_Real":
                s = real(rng) if rng.random() < 0.7 else integer(rng)
            elif t == "ASCII_Boolean":
                s = rng.choice(("true", "false", "1", "0"))
            elif t in ASCII:
                b = {"2": 2, "8": 8, "6": 16}[t[-1]]
                s = "".join(rng.choice("0123456789abcdefABCDEF"[:b if b < 16
                                                                else 22])
                            for _ in range(rng.choice((1, 2, 3, 8, 12))))
            else:
                s = "".join(rng.choice("abcXYZ 09-_:;,|.'/é" if "UTF8" in t
                                       else "abcXYZ 09-_:;,|.'/")
                            for _ in range(rng.randrange(0, wide + 1)))
                if rng.random() < 0.2:
                    s = rng.choice(("NaN", "N/A", "null", "None", "-999"))
            if len(s.encode()) <= wide:
                return s
        return "1"[:wide]

    def put(self, rng, buf, nodes, base, flavors, key=""):
        for i, n in enumerate(nodes):
            at = base + n["loc"] - 1
            k = f"{key}.{i}"
            if n["k"] == "g":
                each = n["len"] // n["reps"]
                for r in range(n["reps"]):
                    self.put(rng, buf, n["sub"], at + r * each, flavors, k)
                continue
            t, w = n["type"], n["len"]
            if t in NUM:
                b = bytes(rng.randrange(256) for _ in range(w))
                if t[:2] in ("IE", "Co"):      # no NaNs: payloads may change
                    c = "f" if t[-6:] == "Single" or t[-1] == "8" else "d"
                    b = struct.pack(
                        (">" if "MSB" in t else "<")
                        + c * (2 if t[0] == "C" else 1),
                        *[rng.uniform(-9, 9) * 10 ** rng.randrange(-8, 9)
                          for _ in range(2 if t[0] == "C" else 1)])
            elif t in BITS:
                b = bytes(rng.choice((0, 1, 128, 255, rng.randrange(256)))
                          for _ in range(w))
            else:
                s = self.cell(rng, t, w, False, flavors.setdefault(
                    k, rng.randrange(8)))
                s = s or ("0" if t in ASCII else "")
                b = s.encode()
                pad = b" " * (w - len(b))
                b = pad + b if rng.random() < 0.5 else b + pad
            buf[at:at + w] = b

    def field_xml(self, rng, form, nodes):
        out = []
        for i, n in enumerate(nodes):
            if n["k"] == "f":
                x = [el("name", escape(n["name"]))]
                if form == "Delimited":
                    if rng.random() < 0.7:
                        x.append(el("field_number", i + 1))
                else:
                    x.append(el("field_location", n["loc"], unit="byte"))
                x.append(el("data_type", n["type"]))
                if form != "Delimited":
                    x.append(el("field_length", n["len"], unit="byte"))
                if rng.random() < 0.3:
                    x.append(el("unit", "m"))
                if rng.random() < 0.2:
                    x.append(el("scaling_factor", "2.5"))
                out.append(el("Field_" + form, *x))
            else:
                sub = n["sub"]
                x = [el("name", n["name"])] if n["name"] else []
                x += [el("repetitions", n["reps"]),
                      el("fields", sum(s["k"] == "f" for s in sub)),
                      el("groups", sum(s["k"] == "g" for s in sub))]
                if form != "Delimited":
                    x += [el("group_location", n["loc"], unit="byte"),
                          el("group_length", n["len"], unit="byte")]
                x.append(self.field_xml(rng, form, sub))
                out.append(el("Group_Field_" + form, *x))
        return "".join(out)

    def uniform(self, rng, n):
        out, xml = [], ""
        if rng.random() > 0.12:
            return out, xml
        for i in range(rng.choice((1, 1, 2))):
            log = rng.random() < 0.3
            u = dict(name=f"S{i}", scale="logarithmic" if log else "linear",
                     first=4 * rng.randrange(1, 4) if log
                     else rng.randrange(-40, 40),
                     interval=4 * rng.randrange(2, 4) if log
                     else rng.randrange(1, 12))
            out.append(u)
            show = lambda q: str(q // 4) if q % 4 == 0 else str(q / 4)
            last = u["first"] * (u["interval"] // 4) ** (n - 1) if log else \
                u["first"] + (n - 1) * u["interval"]
            p = "sampling_parameter_"
            xml += el("Uniformly_Sampled", el(p + "name", u["name"]),
                      el(p + "interval", show(u["interval"])),
                      *([el(p + "scale", rng.choice(
                          (u["scale"], u["scale"].capitalize())))]
                        if log or rng.random() < 0.5 else []),
                      el("first_" + p + "value", show(u["first"])),
                      el("last_" + p + "value", show(last)))
        return out, xml

    def fixed(self, rng, ids, model, at):
        form = rng.choice(("Binary", "Character"))
        n = rng.randrange(1, 6)
        nodes = self.dress(rng, form, model.get("nodes") or self.nodes(rng))
        size = end(nodes) + rng.choice((0, 0, 3))
        nl = rng.choice((b"\r\n", b"\n")) if form == "Character" else b""
        size += len(nl)
        body, flavors = b"", {}
        for _ in range(n):
            row = bytearray(rng.choice(b" .z") for _ in range(size)) \
                if form == "Character" else \
                bytearray(rng.randrange(256) for _ in range(size))
            if nl:
                row[-len(nl):] = nl
            self.put(rng, row, nodes, 0, flavors)
            body += bytes(row)
        u, uxml = self.uniform(rng, n)
        rec = el("Record_" + form,
                 el("fields", sum(x["k"] == "f" for x in nodes)),
                 el("groups", sum(x["k"] == "g" for x in nodes)),
                 el("record_length", size, unit="byte"),
                 self.field_xml(rng, form, nodes))
        xml = el("Table_" + form, ids, el("offset", at, unit="byte"),
                 el("records", n),
                 *([el("record_delimiter", "Carriage-Return Line-Feed")]
                   if nl else []), uxml, rec)
        return xml, body, dict(op="table", form=form, offset=at, records=n,
                               reclen=size, nodes=nodes, uniform=u)

    def row(self, rng, nodes, sep, flavors, key=""):
        out = []
        for i, n in enumerate(nodes):
            k = f"{key}.{i}"
            if n["k"] == "g":
                for _ in range(n["reps"]):
                    out += self.row(rng, n["sub"], sep, flavors, k)
                continue
            s = self.cell(rng, n["type"], rng.choice((6, 12, 24)),
                          flavors["empty"], flavors.setdefault(
                              k, rng.randrange(8)))
            out.append(self.quoted(rng, s, sep))
        return out

    @staticmethod
    def quoted(rng, s, sep):
        return f'"{s}"' if sep in s or rng.random() < 0.15 else s

    def delimited(self, rng, ids, model, at):
        name = rng.choice(list(SEPS))
        sep = SEPS[name]
        crlf = rng.random() < 0.6
        nl = "\r\n" if crlf else "\n"
        n = rng.randrange(1, 6)
        if "values" in model:
            k = len(model["values"])
            nodes = [dict(k="f", name=f"V{i}", type="ASCII_String", loc=1,
                          len=1) for i in range(k)]
            rows = []
            for _ in range(n):
                order = list(range(k))
                rng.shuffle(order)
                rows.append([
                    (lambda s: f'"{s}"' if model["quoted"][i] else s)(
                        bytes(model["values"][i]).decode().replace(",", sep))
                    for i in order])
        else:
            nodes = self.dress(rng, "Delimited",
                               model.get("nodes") or self.nodes(rng))
            flavors = {"empty": rng.random() < 0.4}
            rows = [self.row(rng, nodes, sep, flavors) for _ in range(n)]
        body = nl.join(sep.join(r) for r in rows)
        longest = max(len(r.encode()) for r in body.split(nl)) + len(nl)
        last = rng.random() < 0.8 or not body
        body = (body + (nl if last else "")).encode()
        u, uxml = self.uniform(rng, n)
        stated = rng.random() < 0.6 or not last
        rec = el("Record_Delimited",
                 el("fields", sum(x["k"] == "f" for x in nodes)),
                 el("groups", sum(x["k"] == "g" for x in nodes)),
                 *([el("maximum_record_length", longest, unit="byte")]
                   if rng.random() < 0.5 else []),
                 self.field_xml(rng, "Delimited", nodes))
        xml = el(rng.choice(("Table_Delimited", "Table_Delimited",
                             "Inventory")), ids,
                 el("offset", at, unit="byte"),
                 *([el("object_length", len(body), unit="byte")]
                   if stated else []),
                 el("parsing_standard_id", "PDS DSV 1"), el("records", n),
                 el("record_delimiter", rng.choice(
                     ("Carriage-Return Line-Feed",
                      "carriage-return line-feed")) if crlf else "Line-Feed"),
                 el("field_delimiter", name), uxml, rec)
        return xml, body, dict(
            op="table", form="Delimited", offset=at, records=n, reclen=0,
            nodes=nodes, uniform=u, crlf=crlf, sep=name,
            length=len(body) if stated else 0)

    # ------------------------------------------------------------- others
    def array(self, rng, ids, model, at):
        axes = model.get("axes")
        if axes is None:
            k = rng.randrange(1, 5)
            seqs = list(range(1, k + 1))
            rng.shuffle(seqs)
            axes = [dict(n=rng.randrange(1, 5), seq=s) for s in seqs]
        t = rng.choice(list(NUM))
        count = int(np.prod([a["n"] for a in axes]))
        w = NUM[t]
        small = rng.random() < 0.3
        body = bytes(rng.choice((1, 2, 3, 255)) if small else
                     rng.randrange(256) for _ in range(count * w))
        real = t[:2] in ("IE", "Co")
        if real:
            c = "f" if t[-6:] == "Single" or t[-1] == "8" else "d"
            m = len(body) // struct.calcsize(c)
            body = struct.pack((">" if "MSB" in t else "<") + c * m,
                               *[rng.uniform(-9, 9) for _ in range(m)])
        mask, specials, extra = "", [], ""
        if rng.random() < 0.35 and not real:
            bits = 8 * w
            mask = "".join(rng.choice("01") for _ in range(
                rng.choice((bits, bits, max(1, bits - 3)))))
            extra += el("Object_Statistics", el("bit_mask", mask))
        if rng.random() < 0.4 and not real:
            pick = body[:w] if rng.random() < 0.5 and w < 8 else \
                bytes(rng.randrange(256) for _ in range(w))
            v = int.from_bytes(pick, "big" if "MSB" in t else "little",
                               signed=t[0] == "S")
            sp = [el(rng.choice(("missing_constant", "saturated_constant")),
                     v)] if rng.random() < 0.7 else []
            if sp:
                specials = [list(v.to_bytes(w, "big", signed=t[0] == "S"))]
            sp += [el("valid_maximum", 100)] if rng.random() < 0.5 or not sp \
                else []
            extra += el("Special_Constants", *sp)
        ax = "".join(el(
            "Axis_Array", el("axis_name", f"ax{i}"), el("elements", a["n"]),
            el("sequence_number", a["seq"])) for i, a in enumerate(axes))
        tag = rng.choice(["Array"] + {
            2: ["Array_2D", "Array_2D_Image", "Array_2D_Map"],
            3: ["Array_3D", "Array_3D_Image", "Array_3D_Spectrum"]}.get(
                len(axes), []))
        sc = [el("scaling_factor", 2), el("value_offset", 5)] \
            if rng.random() < 0.2 else []
        xml = el(tag, ids, el("offset", at, unit="byte"),
                 el("axes", len(axes)),
                 el("axis_index_order", "Last Index Fastest"),
                 el("Element_Array", el("data_type", t), *sc), ax, extra)
        return xml, body, dict(op="array", type=t, offset=at, axes=axes,
                               mask=mask, specials=specials)

    def header(self, rng, ids, model, at):
        n = rng.randrange(1, 60)
        body = bytes(rng.choice((10, 13, 0, 255, *range(32, 127)))
                     for _ in range(n))
        xml = el("Header", ids, el("offset", at, unit="byte"),
                 el("object_length", n, unit="byte"),
                 el("parsing_standard_id", "PDS3"))
        return xml, body, dict(op="header", offset=at, length=n)

    def meta(self, rng, depth=0):
        sub = []
        if depth < 3 and (depth == 0 or rng.random() < 0.5):
            sub = [self.meta(rng, depth + 1)
                   for _ in range(rng.randrange(1, 4))]
        tag = rng.choice(TAGS)
        return {"tag": tag, "sub": sub,
                "text": "" if sub else rng.choice(TEXT_VALUES)}

    # ------------------------------------------------------------ products
    def product(self, rng, scn, d):
        kinds = {"array": self.array, "header": self.header,
                 "fixed": self.fixed, "delimited": self.delimited}
        first = {"nodes": rng.choice(("fixed", "fixed", "delimited")),
                 "values": "delimited", "axes": "array",
                 "table": rng.choice(("fixed", "delimited"))}.get(scn["what"])
        todo = [(first, scn["model"])] if first else []
        for _ in range(rng.choice((0, 0, 1, 2)) if first
                       else rng.randrange(1, 5)):
            todo.append((rng.choice(list(kinds)), {}))
        rng.shuffle(todo)
        areas = [todo] if len(todo) < 2 or rng.random() < 0.6 else [
            todo[:len(todo) // 2], todo[len(todo) // 2:]]
        xml, structures, events = "", [], []
        ids = rng.sample(IDS, len(IDS))
        shared = rng.random() < 0.2
        for i, area in enumerate(areas):
            file, inner, mine = b"", "", []
            for kind, model in area:
                file += bytes(rng.randrange(256)
                              for _ in range(rng.choice((0, 0, 1, 7))))
                nm, lid = "", ""
                if rng.random() < 0.7:
                    lid = ids.pop()
                if rng.random() < 0.4:
                    nm = "shared" if shared else ids.pop()
                tags = (el("name", nm) if nm else "") + (
                    el("local_identifier", lid) if lid else "")
                x, body, ev = kinds[kind](rng, tags, model, len(file))
                file += body
                inner += x
                mine.append(ev)
                structures.append(dict(
                    kind="table" if kind in ("fixed", "delimited") else kind,
                    lid=lid, name=nm))
            # what follows a delimited table of unknown length is not read
            if mine[-1].get("form") != "Delimited" or mine[-1]["length"]:
                file += bytes(rng.randrange(256)
                              for _ in range(rng.choice((0, 0, 5))))
            fn = f"data{i}" + rng.choice((".dat", ".img", ".tab", ".csv", ""))
            (d / fn).write_bytes(file)
            for ev in mine:
                ev["file"] = list(file)
                events.append(ev)
            xml += el(rng.choice(("File_Area_Observational",) * 3 + (
                "File_Area_Observational_Supplemental",))
                if False else "File_Area_Observational",
                el("File", el("file_name", fn)), inner)
        return xml, structures, events

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        xml, structures, events = self.product(rng, scn, d)
        extra = self.meta(rng)
        extra["tag"] = "Context_Area"
        label = el("Identification_Area",
                   el("logical_identifier", "urn:nasa:pds:a:b:c"),
                   el("version_id", "1.0"), el("title", "t"),
                   el("information_model_version", "1.11.0.0"),
                   el("product_class", "Product_Observational"))
        text = ('<?xml version="1.0" encoding="UTF-8"?>\n'
                '<Product_Observational '
                'xmlns="http://pds.nasa.gov/pds4/pds/v1">'
                + label + want_xml(extra) + xml + "</Product_Observational>")
        fn = d / rng.choice(("p.xml", "p.lblx", "p.XML"))
        fn.write_text(text, encoding="utf-8")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = pdr.read(str(fn))
            keys = list(x.keys())
            out = [dict(op="open", structures=structures, keys=keys)]
            if len(keys) == len(events) + 1:
                order = list(range(len(events)))
                rng.shuffle(order)
                order += [i for i in order if rng.random() < 0.2]
                for n, i in enumerate(order):
                    how = {"array": array, "table": table,
                           "header": header}[events[i]["op"]]

                    def get(i=i, again=n >= len(events)):
                        if again:
                            x.load(keys[i], reload=True)
                        return x[keys[i]]
                    out.append(dict(events[i], obs=project.observe(get, how)))
            root = x.metadata["Product_Observational"]
            obs = tree("Context_Area", root["Context_Area"])
            tags = []

            def walk(t):
                if not t["sub"]:
                    tags.append(t["tag"])
                for s in t["sub"]:
                    walk(s)
            walk(extra)
            asked = []
            for t in sorted(set(tags)):
                if t in ("title",) or self.also_block(extra, t):
                    continue
                v = x.metaget(t)
                asked.append(dict(key=t, value="" if v is None else str(v)))
            out.append(dict(op="meta", label=extra, obs=obs, asked=asked))
        return out

    def also_block(self, t, tag):
        return bool(t["sub"]) and (t["tag"] == tag or any(
            self.also_block(s, tag) for s in t["sub"]))

    def timeout_events(self, scn):
        return [dict(op="header", offset=0, length=0, file=[],
                     obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        evs = [e for e in evs if e["op"] in ("table", "array", "header")]
        e = rng.choice(evs)
        o = e["obs"]
        if e["op"] == "header":
            o["data"][0] ^= 1
        elif e["op"] == "array":
            if o.get("shape") and len(set(o["shape"])) > 1 \
                    and rng.random() < 0.5:
                o["shape"] = o["shape"][1:] + o["shape"][:1]
            else:
                o["data"][0][0] ^= 1
                if e["mask"]:
                    o["shape"].append(1)
        else:
            if "cols" not in o:
                return None
            c = rng.choice(o["cols"])
            if rng.random() < 0.4:
                c["name"] += "_"
            else:
                if not c["data"]:
                    c["text"][0] = "77.125"
                    c["kind"] = "int"
                    c["hex"] = c["oct"] = c["bin"] = ["x"] * len(c["text"])
                elif c["kind"] in ("text", "bytes"):
                    c["data"][0] = c["data"][0] + [65]
                else:
                    c["data"][0][0] ^= 1
                    c["text"][0] = "77.125"
                    c["hex"] = c["oct"] = c["bin"] = ["x"] * len(c["text"])
        return evs
