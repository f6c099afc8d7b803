"""C34 rules for irregular data sets leave all other products alone."""
from __future__ import annotations

import random
import warnings

import numpy as np
import pandas as pd

from . import pds3, project
from .core import Prop
from .p_pds4 import el

KINDS = {"image": ["IMAGE", "SPECTRAL_QUBE", "BROWSE_IMAGE", "QUALITY_IMAGE"],
         "table": ["TABLE", "SPREADSHEET", "TIME_SERIES", "DATA_TABLE",
                   "SERIES", "SPECTRUM", "HEADER_TABLE", "SPECTRUM_TABLE"],
         "header": ["HEADER", "ENVI_HEADER", "A_HEADER"],
         "array": ["ARRAY", "DATA_ARRAY"]}
#: identifiers that are part of no rule
PLAIN = [("TARGET_NAME", "MARS"), ("PRODUCER_ID", "ISIS"),
         ("NOTE", "Geometry of x"), ("DATA_SET_NAME", "SOME DATA"),
         ("FILE_NAME", "A1.IMG"), ("FILE_NAME", "SUN_IMAGE_01.DAT"),
         ("PRODUCT_ID", "TIME-00"), ("STANDARD_DATA_PRODUCT_ID", "S2")]


FOLDERS = ["x", "x", "TRAJ_ICE_1", "x.txt", "HUY_DTWG_ENTRY_AERO", "FULL",
           "CE3_BMYK_VNIS-CC_SCI_1.2B", "CE1_SCI_BIO_MAG_DOY_V1.TAB.2C.1A",
           "ch2_cla_l1_1", "HASI_PWA", "y.img", "EXTRAS", "SCI_2B.2A.1B"]


class C34(Prop):
    id = "C34"
    module = "Trace_Irregular"
    chunk_min = 100
    assumptions = (
        "the rule table of Irregular.tla and Dispatch.tla names every data set "
        "with irregular products",)
    level_note = (
        "TLC explores every rule with every choice of its words and each "
        "condition failing in up to four ways, for objects of every name it "
        "may have, and keeps the products no rule covers; each is replayed "
        "as an image, qube, table, spreadsheet, array, header or FITS file "
        "with seeded content, attached or detached; random products mix the "
        "identifiers of several rules")

    def __init__(self, *a):
        super().__init__(*a)
        self.pool = {}
        deep = "FALSE" if self.quick else "TRUE"
        self.models = [("MC_Irregular", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Deep = {deep}\nINVARIANTS Hit Miss Emit\n"), "rules")]

    def from_model(self, scns):
        rng, out = self.rng, []
        scns = sorted((s for s in scns if "PREFIX" not in s["name"]
                       and "HISTOGRAM" not in s["name"]
                       and " " not in s["name"]), key=str)
        for s in scns:
            for i in s["ids"]:
                self.pool.setdefault(i["key"], set()).add(i["text"])
        n = 4500 if self.quick else 20000
        # every rule, and every way of failing it, before the rest
        first, rest, seen = [], [], {}
        rng.shuffle(scns)
        for s in scns:
            k = (s["rule"], s["way"], len(s["ids"]), str(s["ids"]))
            seen[k] = seen.get(k, 0) + 1
            (first if seen[k] <= (1 if self.quick else 3) else
             rest).append(s)
        for s in (first + rest)[:n]:
            out.append(dict(s, seed=rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        pool = {k: sorted(v) for k, v in sorted(self.pool.items())}
        for _ in range(800 if self.quick else 5000):
            kind = rng.choice(sorted(KINDS) + ["image", "table", "fits"])
            name = rng.choice(KINDS["image" if kind == "fits" else kind])
            ids = {}
            for k in rng.sample(sorted(pool), min(len(pool),
                                                  rng.randrange(1, 5))):
                t = rng.choice(pool[k])
                r = rng.random()
                if r < .2:
                    t = t.lower()
                elif r < .4 and len(t) > 3:
                    i = rng.randrange(len(t))
                    t = t[:i] + rng.choice("X-_1") + t[i + 1:]
                ids[k] = t
            for k, t in rng.sample(PLAIN, rng.randrange(4)):
                ids[k] = t
            out.append(dict(
                name=name, ids=[dict(key=k, text=t) for k, t in ids.items()],
                file=rng.choice(("x.dat", "y.img", "TRAJ_1.tab", "z.txt")),
                format=rng.choice(("", "", "", "GASDATA.FMT", "OTHER.FMT")),
                suffixes=[".dat"], kind=kind, rule="", way="random",
                standard="PDS3",
                seed=rng.randrange(1 << 30)))
        return out

    # ---------------------------------------------------------------- objects
    @staticmethod
    def image(name, rng):
        kind = rng.choice((("UNSIGNED_INTEGER", ">u1"), ("MSB_INTEGER", ">i1"),
                           ("MSB_UNSIGNED_INTEGER", ">u2"),
                           ("MSB_INTEGER", ">i2"), ("LSB_INTEGER", "<i2")))
        dt = np.dtype(kind[1])
        lines, samples = rng.randrange(2, 5), rng.randrange(3, 6)
        info = np.iinfo(dt)
        qube = "QUBE" in name
        bands = rng.choice((1, 2, 3)) if qube else 1
        a = np.array([rng.randint(info.min, info.max) for _ in range(
            lines * samples * bands)]).astype(dt)
        cells = [int(x) for x in a]
        if qube:
            shape = (bands, lines, samples)
            bil = rng.random() < .5
            if bil:
                a = a.reshape(shape).transpose(1, 0, 2)
            b = [("AXES", 3), ("AXIS_NAME", pds3.raw(
                "(SAMPLE,BAND,LINE)" if bil else "(SAMPLE,LINE,BAND)")),
                ("CORE_ITEMS", [samples, bands, lines] if bil else
                 [samples, lines, bands]),
                ("CORE_ITEM_BYTES", dt.itemsize), ("CORE_ITEM_TYPE", kind[0])]
        else:
            b = [("LINES", lines), ("LINE_SAMPLES", samples),
                 ("SAMPLE_BITS", dt.itemsize * 8), ("SAMPLE_TYPE", kind[0])]
        return b, a.tobytes(), cells

    @staticmethod
    def numbers(rng, n, rows):
        widths = [rng.randrange(2, 6) for _ in range(n)]
        cells = [[rng.randrange(-(10 ** (w - 1)) + 1, 10 ** w) for w in widths]
                 for _ in range(rows)]
        return widths, cells

    @classmethod
    def table(cls, name, rng, fmt, d):
        rows, n = rng.randrange(1, 6), rng.randrange(1, 5)
        sheet = "SPREADSHEET" in name
        binary = not sheet and rng.random() < .4 and "ASCII" not in name
        names = rng.sample(["A", "B1", "TIME", "X Y", "FLAG"], n)
        cols, body = [], b""
        if binary:
            types = [rng.choice((("MSB_INTEGER", ">i2"),
                                 ("MSB_UNSIGNED_INTEGER", ">u2"),
                                 ("LSB_INTEGER", "<i2"),
                                 ("MSB_INTEGER", ">i4"),
                                 ("UNSIGNED_INTEGER", ">u1")))
                     for _ in range(n)]
            dts = [np.dtype(t[1]) for t in types]
            cells = []
            for _ in range(rows):
                for t in dts:
                    i = np.iinfo(t)
                    v = rng.randint(i.min, i.max)
                    cells.append(v)
                    body += np.array([v]).astype(t).tobytes()
            at = 1
            for nm, t, dt in zip(names, types, dts):
                cols.append(("OBJECT", "COLUMN", [
                    ("NAME", pds3.q(nm)), ("DATA_TYPE", t[0]),
                    ("START_BYTE", at), ("BYTES", dt.itemsize)]))
                at += dt.itemsize
            b = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", rows),
                 ("COLUMNS", n), ("ROW_BYTES", at - 1)]
        else:
            widths, cells = cls.numbers(rng, n, rows)
            at = 1
            for row in cells:
                if sheet:
                    body += (",".join(map(str, row)) + "\r\n").encode()
                else:
                    body += (" ".join(str(v).rjust(w) for v, w in zip(
                        row, widths)) + "\r\n").encode()
            for nm, w in zip(names, widths):
                cols.append(("OBJECT", "FIELD" if sheet else "COLUMN", [
                    ("NAME", pds3.q(nm)), ("DATA_TYPE", "ASCII_INTEGER"),
                    *([] if sheet else [("START_BYTE", at)]), ("BYTES", w)]))
                at += w + 1
            b = [("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", rows),
                 ("FIELDS" if sheet else "COLUMNS", n),
                 ("ROW_BYTES", at if not sheet else max(
                     len(x) + 2 for x in body.split(b"\r\n")))]
            if sheet:
                b += [("FIELD_DELIMITER", pds3.q("COMMA"))]
            cells = [v for r in cells for v in r]
        if fmt:
            (d / fmt).write_bytes(pds3.label(cols, version=False))
            return b + [("^STRUCTURE", pds3.q(fmt))], body, cells
        return b + cols, body, cells

    @classmethod
    def table4(cls, name, rng):
        rows, n = rng.randrange(1, 6), rng.randrange(1, 5)
        widths, cells = cls.numbers(rng, n, rows)
        body = b"".join((" ".join(str(v).rjust(w) for v, w in zip(
            row, widths)) + "\r\n").encode() for row in cells)
        fields, at = [], 1
        for i, w in enumerate(widths):
            fields.append(el("Field_Character", el("name", f"F{i}"), el(
                "field_location", at, unit="byte"), el(
                "data_type", "ASCII_Integer"), el(
                "field_length", w, unit="byte")))
            at += w + 1
        return ('<?xml version="1.0" encoding="UTF-8"?>\n'
                '<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1'
                '">' + el("Identification_Area", el(
                    "logical_identifier", "urn:nasa:pds:a:b:c"), el(
                    "version_id", "1.0"), el("title", "t"), el(
                    "information_model_version", "1.11.0.0"), el(
                    "product_class", "Product_Observational"))
                + el("File_Area_Observational", el("File", el(
                    "file_name", "d.tab")), el(
                    "Table_Character", el("local_identifier", name), el(
                        "offset", 0, unit="byte"), el("records", rows), el(
                        "record_delimiter", "Carriage-Return Line-Feed"), el(
                        "Record_Character", el("fields", n), el("groups", 0),
                        el("record_length", at, unit="byte"), *fields)))
                + "</Product_Observational>"), body, [
                    v for r in cells for v in r]

    @staticmethod
    def header(rng):
        text = "".join(rng.choice("ABC DEF=12'") for _ in range(
            rng.randrange(3, 30))).strip() or "H"
        return [("BYTES", len(text)), ("HEADER_TYPE", "TEXT"),
                ("INTERCHANGE_FORMAT", "ASCII")], text.encode(), \
            list(text.encode())

    @staticmethod
    def array(rng):
        kind = rng.choice((("MSB_INTEGER", ">i2"), ("LSB_INTEGER", "<i2"),
                           ("MSB_UNSIGNED_INTEGER", ">u4")))
        dt = np.dtype(kind[1])
        shape = [rng.randrange(1, 4) for _ in range(rng.choice((1, 2)))]
        i = np.iinfo("i2")
        a = np.array([rng.randint(0, i.max) for _ in range(
            int(np.prod(shape)))]).astype(dt)
        return [("AXES", len(shape)), ("AXIS_ITEMS", shape if len(
            shape) > 1 else shape[0]), ("INTERCHANGE_FORMAT", "BINARY"),
            ("OBJECT", "ELEMENT", [("NAME", "E"), ("DATA_TYPE", kind[0]),
                                   ("BYTES", dt.itemsize)])], \
            a.tobytes(), [int(x) for x in a]

    def execute(self, scn, d):
        import pdr
        rng = random.Random(scn["seed"])
        name, kind, fn = scn["name"], scn["kind"], scn["file"]
        o = dict(name=name, ids=scn["ids"], file=fn, format="",
                 suffixes=scn["suffixes"], standard=scn["standard"])
        e = dict(op="load", kind=kind, o=o, listed=False, consts=[])
        # a folder's name is none of what rules ask of files
        d = d / rng.choice(FOLDERS)
        d.mkdir(exist_ok=True)
        ids = [(i["key"], pds3.q(i["text"])) for i in scn["ids"]]
        rng.shuffle(ids)
        lead = rng.choice((0, 0, 7, 100))
        if kind == "fits":
            from astropy.io import fits
            fn = o["file"] = "x.fits"
            o["suffixes"] = [".fits"]
            arrays = [np.array([rng.randrange(-9, 99) for _ in range(6)],
                               dtype="i2").reshape(2, 3) for _ in range(2)]
            fits.HDUList([fits.PrimaryHDU(arrays[0]),
                          fits.ImageHDU(arrays[1])]).writeto(d / fn)
            k = rng.randrange(2)
            e["cells"] = [int(x) for x in arrays[k].ravel()]
            at = 2 + 2 * k
            items = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880),
                     *ids, ("^" + name, pds3.raw(f'("{fn}", {at})')),
                     ("OBJECT", name, [("LINES", 2), ("LINE_SAMPLES", 3)])]
            lbl = d / "p.lbl"
            lbl.write_bytes(pds3.label(items))
        elif kind == "pds4":
            lbl = d / (fn if fn.endswith(".xml") else fn[:-4] + ".xml")
            o["file"] = lbl.name
            xml, body, e["cells"] = self.table4(name, rng)
            (d / "d.tab").write_bytes(body)
            lbl.write_text(xml)
        else:
            if kind == "image":
                block, body, cells = self.image(name, rng)
            elif kind == "table":
                o["format"] = scn["format"]
                block, body, cells = self.table(name, rng, scn["format"], d)
            elif kind == "header":
                block, body, cells = self.header(rng)
            else:
                block, body, cells = self.array(rng)
            e["cells"] = cells
            junk = bytes(rng.randrange(32, 127) for _ in range(lead))
            tail = bytes(rng.randrange(32, 127)
                         for _ in range(rng.choice((0, 0, 50))))
            if kind == "table" and "SPREADSHEET" in name:
                tail = b""
            attached = rng.random() < .4
            base = 4096 if attached else 0
            at = f"{base + lead + 1} <BYTES>"
            if not attached:
                at = f'("{fn}", {at})'
                if lead == 0 and rng.random() < .4:
                    at = f'"{fn}"'
            items = [*ids, ("^" + name, pds3.raw(at)),
                     ("OBJECT", name, block)]
            text = pds3.label(items)
            if attached:
                lbl = d / fn
                lbl.write_bytes(text.ljust(base) + junk + body + tail)
            else:
                lbl = d / "p.lbl"
                lbl.write_bytes(text)
                (d / fn).write_bytes(junk + body + tail)
        got = {}

        def load():
            x = got["data"] = pdr.read(str(lbl))
            e["listed"] = name in x.keys()
            return x[name]

        def proj(v):
            if isinstance(v, np.ndarray):
                if v.dtype.names and len(v.dtype.names) == 1:
                    v = v[v.dtype.names[0]]
                return {"kind": "array", "cells": [int(x) for x in v.ravel()]}
            if isinstance(v, pd.DataFrame):
                return {"kind": "frame", "cells": [
                    int(x) if float(x) == int(x) else str(x)
                    for x in v.to_numpy(dtype=object).ravel()]}
            if isinstance(v, str):
                return {"kind": "text", "cells": list(v.encode())}
            return {"kind": "other", "cells": [], "what": type(v).__name__}

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e["obs"] = project.observe(load, proj)
            if kind == "image" and e["obs"]["kind"] == "array":
                try:
                    e["consts"] = [int(x) for x in got[
                        "data"].find_special_constants(name).values()]
                except Exception as ex:
                    e["consts"] = [-10 ** 9]
        return [e]

    def timeout_events(self, scn):
        return [dict(op="load", kind=scn["kind"], listed=True, consts=[],
                     o=dict(name=scn["name"], ids=scn["ids"],
                            file=scn["file"], format=scn["format"],
                            suffixes=scn["suffixes"],
                            standard=scn["standard"]),
                     cells=[], obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = evs[0]
        if e["obs"].get("cells") and rng.random() < .7:
            i = rng.randrange(len(e["obs"]["cells"]))
            e["obs"]["cells"][i] += 1
        elif rng.random() < .5:
            e["listed"] = not e["listed"]
        else:
            e["obs"] = {"kind": "exc", "type": "X"}
        return evs
