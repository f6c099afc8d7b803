"""C31 which reader an object goes to: every object is described in a way any
reader can follow, so what comes back tells which one was used."""
from __future__ import annotations

import random
import struct
import warnings

import numpy as np

from . import pds3, project
from .core import Prop

WORDS = ["IMAGE", "TABLE", "HEADER", "TEXT", "ARRAY", "SERIES", "SPECTRUM",
         "SPREADSHEET", "CONTAINER", "HISTOGRAM", "QUBE", "FILE", "DESC",
         "TIFF", "DOCUMENT", "STRUCTURE", "PDF", "NAME", "FOO", "FILENAME",
         "MAP_PROJECTION_CATALOG", "PDS_OBJECT"]
MORE = WORDS + ["TIME", "SPECTRAL", "BROWSE", "ENGINEERING", "DATA", "X29",
                "LINE_PREFIX", "DESCRIPTION", "ANCILLARY", "INDEX",
                "SUPPLEMENT", "QUB", "IMG", "TAB", "OBJECT"]
SUFFIXES = [[".dat"], [".img"], [".tab"], [".txt"], [".fits"], [".fit"],
            [".fz"], [".png"], [".gif"], [".tif"], [".tiff"], [".bmp"],
            [".png", ".dat"], [".dat", ".fits"], [".fitsy"], [".pngx"], []]
DESKTOP = {".png": "PNG", ".gif": "GIF", ".tif": "TIFF", ".tiff": "TIFF",
           ".bmp": "BMP"}


class C31(Prop):
    id = "C31"
    module = "Trace_Dispatch"
    chunk_min = 100
    assumptions = (
        "the description of each object has what its reader needs",)
    level_note = (
        "TLC explores every name of two (thorough: three) words with every "
        "kind of file and every data-set rule with each condition met or not; "
        "the objects are loaded from real products described in a way every "
        "reader can follow")

    def __init__(self, *a):
        super().__init__(*a)
        n = 2 if self.quick else 3
        words = ", ".join(f'"{w}"' for w in WORDS)
        self.models = [("MC_Dispatch", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" N = {n}\n Words = {{{words}}}\nINVARIANTS Total RuleExact"
            " RuleSpares ForeignFirst TableHeaders Emit\n"), f"n{n}")]

    @staticmethod
    def usable(scn):
        """whether one description serves every reader the object might go to"""
        name, rule = scn["name"], scn["rule"]
        ids = {i["key"]: i["text"] for i in scn["ids"]}
        # FILE_NAME: its reader would go by an extension the name does not have
        if "FILE_NAME" in name or "HISTOGRAM" in name and (
                "SPREADSHEET" in name or "ARRAY" in name or "HEADER" in name
                and "HISTOGRAM_HEADER" not in name):
            return False
        # images' prefixes are read as columns of their rows (C12)
        if "PREFIX" in name and ids.get("SPACECRAFT_NAME") != "CE1":
            return False
        # sample types replaced for columns too
        if rule in ("lroc", "jiram") and "TABLE" in name:
            return False
        # other rules of this data set name the table's format
        return not (rule == "mcs" and "V1.0" not in ids["DATA_SET_ID"])

    def from_model(self, scns):
        scns = sorted((s for s in scns if self.usable(s)), key=str)
        ruled = [s for s in scns if s["rule"]]
        plain = [s for s in scns if not s["rule"]]
        n = 900 if self.quick else 9000
        if len(plain) > n:
            plain = self.rng.sample(plain, n)
        ruled = ruled * (3 if self.quick else 20)
        return [dict(s, seed=self.rng.randrange(1 << 30))
                for s in plain + ruled]

    def random_scenarios(self):
        rng, out = self.rng, []
        while len(out) < (600 if self.quick else 6000):
            name = "_".join(rng.choice(MORE)
                            for _ in range(rng.choice((1, 2, 2, 3, 4))))
            scn = dict(name=name, suffixes=rng.choice(SUFFIXES), ids=[],
                       rule="", seed=rng.randrange(1 << 30))
            if self.usable(scn):
                out.append(scn)
        return out

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        name, sfx, rule = scn["name"], scn["suffixes"], scn["rule"]
        if rule == "uvis" and "QUB" not in name or \
                rule in ("lroc", "jiram") and "IMAGE" not in name:
            rule = ""
        fn = rng.choice(("x", "data-1", "Product")) + "".join(
            s.upper() if rng.random() < .4 else s for s in sfx)
        form = "none"
        at = rng.randrange(1, 12)
        foreign = [s for s in sfx if s in DESKTOP]
        content, body = [], b""
        if any(s in (".fits", ".fit", ".fz") for s in sfx):
            from astropy.io import fits
            fits.PrimaryHDU(np.arange(12, dtype="i2").reshape(3, 4)).writeto(
                d / fn)
            at = 1 if "HEADER" in name else 2881
        elif foreign:
            from PIL import Image
            Image.fromarray(np.arange(21, dtype="u1").reshape(3, 7)).save(
                d / fn, format=DESKTOP[foreign[0]])
        else:
            body = b"".join(b"%02d,%02d\r\n" % (i, i + 1)
                            for i in range(10, 40))
            if rule in ("lroc", "uvis"):
                form = "planes" if rule == "uvis" else "bytes"
                content = [rng.randrange(128 if rule == "uvis" else 256)
                           for _ in range(12 if rule == "uvis" else 15)]
            elif rule == "jiram":
                form = "reals"
                content = [b for _ in range(6) for b in
                           (rng.randrange(2, 60), rng.randrange(256),
                            rng.randrange(256), rng.randrange(2, 60))]
            elif rng.random() < .3 and "QUB" not in name:
                form = "bytes"
                content = list(body[at - 1:at + 14])
            if rule in ("lroc", "uvis", "jiram"):
                body = body[:at - 1] + bytes(content) + body[at:]
            (d / fn).write_bytes(body)
            whole = body.replace(b"\r\n", b"\n")
        block = self.block(name, rule, rng)
        items = [(i["key"], pds3.q(i["text"])) for i in scn["ids"]]
        rng.shuffle(items)
        items += [("^" + name, pds3.raw(
            f'("{fn}", {at} <BYTES>)' if not foreign or rng.random() < .5
            else f'"{fn}"')), ("OBJECT", name, block)]
        (d / "p.lbl").write_bytes(pds3.label(items))
        import pdr

        e = dict(op="load", warned=False, listed=False, form=form,
                 o=dict(name=name, suffixes=sfx, ids=scn["ids"],
                        bytes=content))
        data = pdr.read(d / "p.lbl")
        e["listed"] = name in data.keys()

        def proj(v):
            import pandas as pd
            if v is None:
                return {"kind": "nothing"}
            if isinstance(v, pd.DataFrame):
                return {"kind": "table"}
            if isinstance(v, str):
                if foreign or not content and not body:
                    return {"kind": "text" if len(v) > 50 else "header"}
                if v.encode("latin1") == whole:
                    return {"kind": "text"}
                part = body[at - 1:at + 8]
                return {"kind": "header" if v.encode("latin1").replace(
                    b"\n", b"") == part.replace(b"\r", b"").replace(b"\n", b"")
                    else "other"}
            if isinstance(v, np.ndarray):
                kind = {(3, 5): "image", (2, 2, 3): "array", (3, 4): "fits",
                        (3, 7): "desktop",
                        (3, 7, 3): "desktop",
                        (3, 3, 7): "desktop"}.get(v.shape, "other")
                if form == "planes" and v.shape == (2, 2, 3):
                    kind = "image"
                if form == "reals" and v.shape == (2, 3):
                    kind = "image"
                out = {"kind": kind, "data": []}
                if kind == "image":
                    if form == "reals":
                        out["data"] = list(v.astype(
                            v.dtype.newbyteorder(">")).tobytes())
                    else:
                        out["data"] = [int(x) for x in v.ravel()]
                return out
            if hasattr(v, "items"):
                # the header of a FITS file's image, or the object's block
                return {"kind": "fits" if "NAXIS1" in v and "SIMPLE" in v
                        else "unsupported"}
            return {"kind": "other"}

        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e["obs"] = project.observe(lambda: data[name], proj)
        e["warned"] = any("not yet fully supported" in str(x.message)
                          for x in w)
        if e["obs"]["kind"] == "unsupported" and not e["warned"]:
            e["obs"]["kind"] = "block"
        return [e]

    @staticmethod
    def block(name, rule, rng):
        ascii_ = rng.random() < .4
        if "HISTOGRAM" in name:
            ascii_ = False
        if "SPREADSHEET" in name or "ASCII" in name:
            ascii_ = True
        b = [("INTERCHANGE_FORMAT", "ASCII" if ascii_ else "BINARY"),
             ("LINES", 3), ("LINE_SAMPLES", 5), ("SAMPLE_BITS", 8),
             ("SAMPLE_TYPE", "MSB_INTEGER"), ("AXES", 3),
             ("AXIS_ITEMS", [2, 2, 3]),
             ("AXIS_NAME", pds3.raw("(SAMPLE,LINE,BAND)")),
             ("CORE_ITEMS", [5, 3, 1]), ("CORE_ITEM_BYTES", 1),
             ("CORE_ITEM_TYPE", "UNSIGNED_INTEGER"), ("ROWS", 4),
             ("COLUMNS", 2), ("ROW_BYTES", 7), ("FIELDS", 2), ("BYTES", 9)]
        if rule == "jiram":
            b = [x for x in b if not x[0].startswith(("LINE", "SAMPLE"))] + [
                ("LINES", 2), ("LINE_SAMPLES", 3), ("SAMPLE_BITS", 32),
                ("SAMPLE_TYPE", "IEEE_REAL")]
        if rule == "uvis":
            b = [x for x in b if not x[0].startswith(("AXIS_N", "CORE"))] + [
                ("AXIS_NAME", pds3.raw("(SAMPLE,BAND,LINE)")),
                ("CORE_ITEMS", [3, 2, 2]), ("CORE_ITEM_BYTES", 1),
                ("CORE_ITEM_TYPE", "UNSIGNED_INTEGER")]
        if "HISTOGRAM" in name and "ARRAY" not in name:
            b = [x for x in b if x[0] != "BYTES"]
            b += [("ITEMS", 4), ("DATA_TYPE", "UNSIGNED_INTEGER"),
                  ("BYTES", 9 if "HEADER" in name else 1)]
        head = b[:]
        rng.shuffle(head)
        if "ARRAY" in name:
            parts = [("OBJECT", "ELEMENT", [
                ("NAME", "A"), ("BYTES", 2 if ascii_ else 1),
                ("DATA_TYPE",
                 "ASCII_INTEGER" if ascii_ else "UNSIGNED_INTEGER")])]
        else:
            kind = "FIELD" if "SPREADSHEET" in name else "COLUMN"
            parts = [] if "HISTOGRAM" in name and "TABLE" not in name else [
                ("OBJECT", kind, [
                    ("NAME", n), ("START_BYTE", 1 + 3 * k),
                    ("BYTES", 2 if ascii_ else 1), ("DATA_TYPE",
                     "ASCII_INTEGER" if ascii_ else "UNSIGNED_INTEGER")])
                for k, n in enumerate("AB")]
        return head + parts

    def timeout_events(self, scn):
        return [dict(op="load", warned=False, listed=True, form="none",
                     o=dict(name=scn["name"], suffixes=scn["suffixes"],
                            ids=scn["ids"], bytes=[]),
                     obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = evs[0]
        if rng.random() < .2:
            e["listed"] = not e["listed"]
        elif e["obs"].get("data") and e["form"] != "none" and \
                rng.random() < .6:
            e["obs"]["data"][0] ^= 1
        else:
            other = {"image": "table", "table": "image", "text": "header",
                     "header": "text", "array": "image", "fits": "image",
                     "desktop": "image", "nothing": "table"}
            k = e["obs"]["kind"]
            if k not in other or not e["listed"]:
                return None
            e["obs"]["kind"] = other[k]
        return evs
