"""C04 labels and standards, C05 file search, C08 repeated names,
C10 attached labels, C11 pointers."""
from __future__ import annotations

import bz2
import gzip
import hashlib
import json
import random
import re
import warnings
import zipfile
from pathlib import Path

import numpy as np
from dustgoggles.tracker import TrivialTracker

import pdr
from pdr.parselabel.utils import trim_label

from . import pds3, project
from .core import Prop
from .p_product import flatten

COMP = (".gz", ".bz2", ".zip")


def name(x):
    """a file name as the specification sees it"""
    f = x.lower()
    suf = re.findall(r"\.[^.]+", f)
    b = f[:-len(suf[-1])] if len(suf) > 1 and suf[-1] in COMP else f
    s = suf[-1] if suf else ""
    p = f[:-len(s)] if s else f
    return {"x": x, "f": f, "b": b, "s": s, "p": p, "px": x[:len(p)]}


def mixed(rng, x):
    while True:
        y = "".join(rng.choice((c.lower(), c.upper())) for c in x)
        if y not in (x, x.lower(), x.upper()):
            return y


def store(path, content):
    """write content to path, compressed as the name of the file says"""
    s = path.suffix.lower()
    if s == ".gz":
        content = gzip.compress(content)
    elif s == ".bz2":
        content = bz2.compress(content)
    elif s == ".zip":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("inside", content)
        return
    path.write_bytes(content)


def read(fn, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        d = pdr.Data(fn, tracker=TrivialTracker(), **kw)
    return d, [str(x.message) for x in w]


def get(d, k, how="item"):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if how == "attr":
            v = getattr(d, k)
        elif how == "load":
            d.load(k)
            v = getattr(d, k)
        else:
            v = d[k]
    return v, [str(x.message) for x in w]


def proj(v):
    if isinstance(v, str):
        return {"kind": "codes", "codes": [ord(c) for c in v]}
    if hasattr(v, "getall"):
        return {"kind": "meta"}
    return project.value(v)


class FilesProp(Prop):
    module = "Trace_Files"
    chunk_min = 60


# --------------------------------------------------------------------- C05

VARIANT = ("exact", "lower", "upper", "mixed", "exactgz", "lowergz",
           "upperbz2", "lowerzip", "upperGZ", "decoy", "decoy2", "exactbz2")


def spell(rng, base, v):
    return {
        "exact": base, "lower": base.lower(), "upper": base.upper(),
        "mixed": mixed(rng, base), "exactgz": base + ".gz",
        "lowergz": base.lower() + ".gz", "upperbz2": base.upper() + ".BZ2",
        "lowerzip": base.lower() + ".zip", "upperGZ": base.upper() + ".GZ",
        "exactbz2": base + ".bz2",
        "decoy": base + ".bak", "decoy2": "x" + base,
    }[v]


class C05(FilesProp):
    id = "C05"
    level_note = "directories of at most three candidates each; plain names"

    def __init__(self, *a):
        super().__init__(*a)
        n, m = (2, 2) if self.quick else (3, 2)
        self.models = [("MC_Files", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" NDirs = {n}\n MaxIn = {m}\n"
            "INVARIANTS Agrees FirstDir ExactWins NeverDecoy Complete Emit\n"
        ), f"d{n}")]

    def from_model(self, scns):
        out = []
        if len(scns) > 6000:
            scns = self.rng.sample(scns, 6000)
        for s in scns:
            out.append(dict(op="find", dirs=s["dirs"],
                            what="image", seed=self.rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(350 if self.quick else 5000):
            nd = rng.choice((1, 2, 3, 4))
            dirs = [rng.sample(VARIANT, rng.choice((0, 0, 1, 1, 1, 2, 3)))
                    for _ in range(nd)]
            out.append(dict(
                op="find", dirs=dirs, seed=rng.randrange(1 << 30),
                what=rng.choice(("image", "image", "format", "table",
                                 "compressed"))))
        for _ in range(30 if self.quick else 300):
            nd = rng.choice((1, 2, 3))
            out.append(dict(op="several", nd=nd, n=rng.choice((2, 2, 3)),
                            set=rng.random() < 0.5,
                            seed=rng.randrange(1 << 30)))
        return out

    def execute(self, scn, d):
        if scn["op"] == "several":
            return self.several(scn, d)
        rng = random.Random(scn["seed"])
        ext = {"image": ".Img", "format": ".Fmt", "table": ".Dat",
               "compressed": ".Img"}[scn["what"]]
        stem = rng.choice(("Data01", "Aa_b.c", "X1.Y2.Z3", "Pict-9", "Ä1")[:4])
        base = rng.choice((stem + ext, mixed(rng, stem + ext)))
        roots, dirs, k = [], [], 0
        for i, vs in enumerate(scn["dirs"]):
            root = d / f"dir{i}"
            root.mkdir()
            listing, used = [], set()
            for v in vs:
                x = spell(rng, base, v)
                if x in used:
                    continue
                used.add(x)
                k += 1
                store(root / x, self.content(scn["what"], k))
                listing.append(name(x) | {"m": f"M{k}"})
            roots.append(root)
            dirs.append(listing)
        cands = [{"d": i + 1, "w": name(base)} for i in range(len(dirs))]
        label, key = self.label(scn["what"], base)
        if scn["what"] == "format":
            (d / "dir0" / "rows.tab.dat").write_bytes(bytes([1, 2]))
        (d / "dir0" / "label0.lbl").write_bytes(label)
        sp = [str(r) for r in roots[1:]]
        if rng.random() < 0.2:
            # a search path that does not exist holds nothing
            at = rng.randrange(len(sp) + 1)
            sp.insert(at, str(d / "nowhere"))
            dirs.insert(at + 1, [])
            cands = [{"d": i + 1, "w": name(base)} for i in range(len(dirs))]
        kw = {}
        if sp:
            kw["search_paths"] = (sp[0] if len(sp) == 1 and rng.random() < .5
                                  else rng.choice((list, tuple))(sp))
        if scn["what"] == "compressed":
            # both file names of the label are candidates, in each directory;
            # their order is not stated
            comp = name(base + ".gz")
            c2 = [{"d": i + 1, "w": comp} for i in range(len(dirs))]
            orders = [cands + c2, c2 + cands]
        else:
            orders = [cands]
        data, w0 = read(d / "dir0" / "label0.lbl", **kw)
        v, w1 = get(data, key, rng.choice(("item", "attr", "load")))
        m = self.marker(scn["what"], v)
        path = data.file_mapping.get(key)
        obs = {"kind": "ok", "m": m, "d": 0, "x": "", "warned": bool(w0 + w1)}
        if path is not None and scn["what"] != "format":
            p = Path(path)
            at = [i for i, r in enumerate(
                [str(roots[0])] + sp) if Path(r) == p.parent]
            obs["d"], obs["x"] = (at[0] + 1 if at else -1), p.name
        if len(orders) == 2:
            # report the order that explains the file (if either does)
            pick = orders[0]
            for o in orders:
                hit = next((c for c in o if any(
                    f["x"] == c["w"]["x"] or f["b"] == c["w"]["f"]
                    for f in dirs[c["d"] - 1])), None)
                if hit and hit["d"] == obs["d"]:
                    pick = o
                    names = [f for f in dirs[hit["d"] - 1]
                             if f["x"] == obs["x"]]
                    exact = [f for f in dirs[hit["d"] - 1]
                             if f["x"] == hit["w"]["x"]]
                    if names and (not exact or exact == names):
                        break
            cands = pick
        return [dict(op="find", what=scn["what"], dirs=dirs, cands=cands,
                     obs=obs)]

    def content(self, what, k):
        if what in ("image", "compressed"):
            return bytes([7, k, k])
        if what == "table":
            return bytes([7, k, k])
        return pds3.label([
            ("OBJECT", "COLUMN", [
                ("NAME", f"M{k}"), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"),
                ("START_BYTE", 1), ("BYTES", 1)])], version=False, end=False)

    def label(self, what, base):
        img = ("OBJECT", "IMAGE", [
            ("LINES", 1), ("LINE_SAMPLES", 2), ("SAMPLE_BITS", 8),
            ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER")])
        ptr = pds3.raw(f'("{base}", 2 <BYTES>)')
        if what == "image":
            return pds3.label([("^IMAGE", ptr), img]), "IMAGE"
        if what == "compressed":
            return pds3.label([
                ("OBJECT", "COMPRESSED_FILE", [
                    ("FILE_NAME", pds3.q(base + ".gz")),
                    ("ENCODING_TYPE", pds3.q("GZIP"))]),
                ("OBJECT", "UNCOMPRESSED_FILE", [
                    ("FILE_NAME", pds3.q(base)), ("^IMAGE", ptr), img]),
            ]), "IMAGE"
        if what == "table":
            return pds3.label([("^TABLE", ptr), ("OBJECT", "TABLE", [
                ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2),
                ("ROW_BYTES", 1), ("COLUMNS", 1),
                ("OBJECT", "COLUMN", [
                    ("NAME", "A"), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"),
                    ("START_BYTE", 1), ("BYTES", 1)])])]), "TABLE"
        return pds3.label([("^TABLE", pds3.q("rows.tab.dat")),
                           ("OBJECT", "TABLE", [
                               ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 2),
                               ("ROW_BYTES", 1), ("COLUMNS", 1),
                               ("^STRUCTURE", pds3.q(base))])]), "TABLE"

    def marker(self, what, v):
        if isinstance(v, np.ndarray):
            return f"M{int(v.flat[0])}" if v.shape == (1, 2) else "odd"
        if hasattr(v, "columns"):
            if what == "format":
                return str(v.columns[0])
            return f"M{int(v['A'].iloc[0])}"
        return ""

    def several(self, scn, d):
        rng = random.Random(scn["seed"])
        dirs, roots, k = [], [], 0
        bases = [f"Note{i}.Txt" for i in range(scn["n"])]
        for i in range(scn["nd"]):
            root = d / f"dir{i}"
            root.mkdir()
            roots.append(root)
            dirs.append([])
        for b in bases:
            i = rng.randrange(scn["nd"])
            x = rng.choice((b, b.lower(), b.upper()))
            k += 1
            (roots[i] / x).write_bytes(f"M{k}".encode())
            dirs[i].append(name(x) | {"m": f"M{k}"})
        o, c = ("{", "}") if scn["set"] else ("(", ")")
        ptr = pds3.raw(o + ", ".join(f'"{b}"' for b in bases) + c)
        (roots[0] / "label0.lbl").write_bytes(
            pds3.label([("^README_TEXT", ptr)]))
        data, _ = read(roots[0] / "label0.lbl",
                       search_paths=[str(r) for r in roots[1:]])
        v, _ = get(data, "README_TEXT")
        ms = [str(x)[:40] for x in (v if isinstance(v, list) else [v])]
        return [dict(op="several", set=scn["set"], dirs=dirs,
                     wants=[name(b) for b in bases],
                     obs={"kind": "ok", "ms": ms})]

    def timeout_events(self, scn):
        return [dict(op="find", obs={"kind": "timeout"})]

    def known_key(self, evs, rej):
        e = evs[0]
        if e["op"] == "several":
            ms = e["obs"]["ms"]
            if e["set"] and ms[0].startswith("PDS_VERSION_ID") and len(ms) < 2:
                return "pointer-to-set-of-files"
            if not e["set"] and ms == ["M1"]:
                return "pointer-to-sequence-of-files"
        return ""

    def canary(self, evs, rng):
        e = evs[0]
        if e["op"] != "find" or not e["obs"]["m"]:
            return None
        e["obs"]["m"] = "M99"
        return e


# --------------------------------------------------------------------- C04

XML = """<?xml version="1.0" encoding="UTF-8"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
  <Identification_Area>
    <logical_identifier>urn:nasa:pds:a:b:c</logical_identifier>
    <version_id>1.0</version_id>
    <title>{m}</title>
    <information_model_version>1.11.0.0</information_model_version>
    <product_class>Product_Observational</product_class>
  </Identification_Area>
  <File_Area_Observational>
    <File><file_name>{fn}</file_name></File>
    <Array_2D_Image>
      <local_identifier>PIX</local_identifier>
      <offset unit="byte">{at}</offset>
      <axes>2</axes>
      <axis_index_order>Last Index Fastest</axis_index_order>
      <Element_Array><data_type>UnsignedByte</data_type></Element_Array>
      <Axis_Array><axis_name>Line</axis_name><elements>1</elements>
        <sequence_number>1</sequence_number></Axis_Array>
      <Axis_Array><axis_name>Sample</axis_name><elements>2</elements>
        <sequence_number>2</sequence_number></Axis_Array>
    </Array_2D_Image>
  </File_Area_Observational>
</Product_Observational>
"""
MARKS = ["opened", ".xml", ".lbl", ".lblx", "other", "twin"]


class C04(FilesProp):
    id = "C04"
    level_note = ("one directory; labels and data files of the standard "
                  "extensions; Chang'e naming not covered")

    def __init__(self, *a):
        super().__init__(*a)
        self.models = [("MC_Open", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            ' Kinds = {"binary", "attached", "fits", "PNG", "notpng", "lbl",'
            ' "xml", "lblx"}\nINVARIANTS OneOutcome ArgWins XmlFirst LblNext'
            " Itself NeverMisread CaseBlind Emit\n"), "all")]

    def from_model(self, scns):
        out = []
        for s in scns:
            out.append(dict(s, seed=self.rng.randrange(1 << 30), plain=True))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        kinds = ("binary", "attached", "fits", "PNG", "notpng", "lbl", "xml",
                 "lblx", "GIF", "JPEG", "BMP", "TIFF", "text")
        for _ in range(250 if self.quick else 4000):
            out.append(dict(
                kind=rng.choice(kinds),
                sib={s: rng.choice(("absent", "absent", "lower", "upper",
                                    "mixed"))
                     for s in (".xml", ".lbl", ".lblx")},
                arg=rng.choice(("none", "none", "lbl", "xml", "lblx",
                                "missing")),
                seed=rng.randrange(1 << 30), plain=False))
        return out

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        kind = scn["kind"]
        suf = {"binary": ".img", "attached": ".img", "fits": ".fits",
               "PNG": ".png", "notpng": ".png", "lbl": ".lbl", "xml": ".xml",
               "lblx": ".lblx", "GIF": ".gif", "JPEG": ".jpg", "BMP": ".bmp",
               "TIFF": ".tif", "text": ".dat"}[kind]
        if not scn["plain"]:
            if kind == "fits":
                suf = rng.choice((".fits", ".fit", ".FITS", ".Fit"))
            elif kind in ("lbl", "xml", "lblx"):
                suf = rng.choice((suf, suf.upper()))
            elif kind == "binary":
                suf = rng.choice((".img", ".IMG", ".dat", ".qub", ".Tab"))
            elif rng.random() < 0.3:
                suf = suf.upper()
        stem = "prod" if scn["plain"] else rng.choice(
            ("prod", "Prod", "P_1.a", "ABC"))
        pix = bytes([100 + i for i in range(2 * len(MARKS))])
        (d / "pix.dat").write_bytes(pix)
        listing = []

        def put(x, m, k, content):
            (d / x).write_bytes(content)
            listing.append(name(x) | {"m": m, "k": k})

        def lab(s, m):
            at = 2 * MARKS.index(m)
            if s in (".xml", ".lblx"):
                return XML.format(m=m, fn="pix.dat", at=at).encode()
            return pds3.label([
                ("MARK", pds3.q(m)),
                ("^IMAGE", pds3.raw(f'("pix.dat", {at + 1} <BYTES>)')),
                ("OBJECT", "IMAGE", [
                    ("LINES", 1), ("LINE_SAMPLES", 2), ("SAMPLE_BITS", 8),
                    ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER")])])

        opened = stem + suf
        k = kind if kind != "text" else "binary"
        if kind in ("lbl", "xml", "lblx"):
            put(opened, "opened", "label", lab("." + kind, "opened"))
        elif kind == "attached":
            put(opened, "opened", kind, lab(".lbl", "opened") + b"\xff\0" * 9)
        elif kind in ("binary", "notpng", "text"):
            head = rng.randbytes(3) + b"\xfe\xff\x80"
            put(opened, "opened", k, head + rng.randbytes(60))
        elif kind == "fits":
            from astropy.io import fits
            h = fits.PrimaryHDU(np.array([[100, 101]], dtype="u1"))
            h.header["MARK"] = "opened"
            h.writeto(d / opened)
            listing.append(name(opened) | {"m": "opened", "k": kind})
        else:
            from PIL import Image
            im = Image.fromarray(np.array([[100] * 8] * 8, dtype="u1"))
            im.save(d / opened, format=kind)
            listing.append(name(opened) | {"m": "opened", "k": kind})
        for s, pr in scn["sib"].items():
            if pr == "absent" or s == suf.lower():
                continue
            t = {"lower": s, "upper": s.upper(), "mixed": mixed(rng, s)
                 if pr == "mixed" else s}[pr]
            st = stem
            if not scn["plain"] and rng.random() < 0.2:
                st = stem.swapcase()
            put(st + t, s, "label", lab(s, s))
        a, argname = [], None
        if scn["arg"] == "missing":
            argname = "gone.lbl"
        elif scn["arg"] != "none":
            x = "other." + scn["arg"]
            put(x, "other", "label", lab("." + scn["arg"], "other"))
            argname = x
            if not scn["plain"] and rng.random() < 0.3:
                argname = x.upper()
        w = opened
        if not scn["plain"] and rng.random() < 0.2:
            w = opened.swapcase()
            if (d / w).exists():
                w = opened
        kw = {}
        if argname:
            a = [name(argname)]
            kw["label_fn"] = rng.choice((str, Path))(d / argname)
        rng.shuffle(listing)
        obs = self.observe(rng.choice((str, Path))(d / w), kw, listing)
        return [dict(op="open", dir=listing, w=name(w), a=a, obs=obs)]

    def observe(self, fn, kw, listing):
        try:
            data, _ = read(fn, **kw)
        except Exception as e:
            return {"kind": "ok", "std": "error", "m": "", "lab": "",
                    "data": "", "type": type(e).__name__}
        std = data.standard
        lab = Path(data.labelname).name if data.labelname else ""
        of = {n["x"]: n["m"] for n in listing}
        obs = {"kind": "ok", "std": std, "lab": of.get(lab, "?" + lab)
               if lab else ""}
        key = {"PDS4": "PIX", "PDS3": "IMAGE", "FITS": "PRIMARY"}.get(
            std, "IMAGE")
        try:
            v, _ = get(data, key)
            n = (int(np.asarray(v).flat[0]) - 100) // 2
            obs["data"] = MARKS[n] if 0 <= n < len(MARKS) else "odd"
        except Exception as e:
            obs["data"] = type(e).__name__
        if std == "PDS4":
            obs["m"] = str(data.metaget("title", "?"))
        elif std in ("PDS3", "FITS"):
            obs["m"] = str(data.metaget("MARK", "?"))
        else:
            obs["m"] = obs["data"]
        return obs

    def timeout_events(self, scn):
        return [dict(op="open", obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = evs[0]
        if e["obs"]["std"] == "error":
            e["obs"] = dict(e["obs"], std="PDS3", m="opened", lab="opened",
                            data="opened")
        else:
            e["obs"]["m"] = "twin"
        return e


# ---------------------------------------------------------------- C08, C11

KINDS = {
    "image": ("IMAGE", "BROWSE_IMAGE", "RAW_IMAGE", "IMAGE_MAP", "X_IMAGE"),
    "table": ("TABLE", "TIME_SERIES", "A_TABLE", "SPECTRUM", "CAL_TABLE"),
    "ascii": ("ASCII_TABLE", "A_ASCII_TABLE", "TABLE_ASCII"),
    "array": ("ARRAY", "B_ARRAY"),
    "header": ("HEADER", "IMAGE_HEADER", "TABLE_HEADER", "X_HEADER"),
}


def make_object(rng, kind, nm):
    w = rng.choice((1, 1, 2)) if kind in ("image", "table", "array") else 1
    if kind == "image":
        shape = [rng.randrange(1, 5), rng.randrange(1, 5)]
    elif kind == "array":
        shape = [rng.randrange(1, 4) for _ in range(rng.choice((1, 1, 2)))]
    elif kind == "header":
        shape = [rng.randrange(1, 30)]
    else:
        shape = [rng.randrange(1, 6)]
    n = int(np.prod(shape))
    if kind == "header":
        body = bytes(rng.choice(b"abcdefgh XYZ=./0123456789") for _ in range(n))
    elif kind == "ascii":
        body = b"".join(b"%03d\r\n" % rng.randrange(1000) for _ in range(n))
    else:
        body = rng.randbytes(n * w)
    return dict(name=nm, kind=kind, w=w, shape=shape, body=body,
                col="C%d" % rng.randrange(9), rb=0)


def definition(o):
    k, w, shape = o["kind"], o["w"], o["shape"]
    rb = [("RECORD_BYTES", o["rb"])] if o["rb"] else []
    if k == "image":
        return rb + [("LINES", shape[0]), ("LINE_SAMPLES", shape[1]),
                     ("SAMPLE_BITS", 8 * w),
                     ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER")]
    if k == "array":
        return rb + [("AXES", len(shape)),
                     ("AXIS_ITEMS", shape[0] if len(shape) == 1 else shape),
                     ("INTERCHANGE_FORMAT", "BINARY"),
                     ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"), ("BYTES", w)]
    if k == "header":
        return rb + [("BYTES", shape[0]), ("HEADER_TYPE", "TEXT")]
    if k == "table":
        return rb + [
            ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", shape[0]),
            ("ROW_BYTES", w), ("COLUMNS", 1), ("OBJECT", "COLUMN", [
                ("NAME", o["col"]), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"),
                ("START_BYTE", 1), ("BYTES", w)])]
    return rb + [
        ("INTERCHANGE_FORMAT", "ASCII"), ("ROWS", shape[0]),
        ("ROW_BYTES", 5), ("COLUMNS", 1), ("OBJECT", "COLUMN", [
            ("NAME", o["col"]), ("DATA_TYPE", "ASCII_INTEGER"),
            ("START_BYTE", 1), ("BYTES", 3)])]


class LayoutProp(FilesProp):
    """a product of several objects in one or more files"""

    def timeout_events(self, scn):
        return [dict(op="layout", obs={"kind": "timeout"})]

    def build(self, scn, d):
        rng = random.Random(scn["seed"])
        prodrb = scn["rb"]
        objs = [make_object(rng, k, n) for k, n in scn["objs"]]
        nested = scn["nest"]
        nfiles = scn["files"]
        attached = scn["attached"] and not nested
        if attached:
            nfiles = 1
        frbs = [rng.choice((0, 0, 5, 12, prodrb)) if nested else 0
                for _ in range(nfiles)]
        bare = set()
        if nested and scn.get("mixed") and not scn.get("norb"):
            # one file's objects are not in a FILE block
            bare = {0 if scn["mixed"] == "before" else nfiles - 1}
        if nested and scn.get("norb"):
            frbs = [rng.choice((4, 7, 12, 30)) for _ in range(nfiles)]
        for i in bare:
            frbs[i] = 0
        per = [[] for _ in range(nfiles)]
        for i, o in enumerate(objs):
            o["file"] = rng.randrange(nfiles)
            o["rb"] = rng.choice((3, 10)) if rng.random() < 0.15 else 0
            if o["kind"] == "ascii":
                o["rb"] = 0
        if nested:
            # objects are described file by file
            objs.sort(key=lambda o: o["file"])
        for o in objs:
            per[o["file"]].append(o)
        exts = [".img", ".dat", ".tab", ".bin"]
        fnames = [f"f{i}{exts[i % 4]}" for i in range(nfiles)]
        if attached:
            fnames = ["prod.img"]
        rng.shuffle(exts)
        layout = []
        for i in range(nfiles):
            order = list(per[i])
            rng.shuffle(order)
            layout.append(order)
        tail = [rng.randbytes(rng.randrange(0, 9)) for _ in range(nfiles)]

        def compose(i, base):
            blob = b""
            r2 = random.Random(scn["seed"] + i)
            for o in layout[i]:
                size = o["rb"] or frbs[i] or prodrb
                form = o.setdefault("form", r2.choice(
                    ("rec", "rec", "bytes", "recq", "none")))
                if form == "none" and (base or blob):
                    o["form"] = form = "rec"
                if form in ("rec", "recq") and size:
                    pad = -(base + len(blob)) % size + r2.choice((0, 0, size))
                elif form in ("rec", "recq"):
                    o["form"] = form = "bytes"
                    pad = r2.randrange(0, 9)
                else:
                    pad = 0 if form == "none" else r2.randrange(0, 9)
                junk = b"J" * pad if o["kind"] in ("ascii", "header") else bytes(
                    r2.randrange(256) for _ in range(pad))
                blob += junk
                at = base + len(blob)
                if form == "none":
                    o["loc"] = {"k": "none", "v": 0}
                elif form == "bytes":
                    o["loc"] = {"k": "bytes", "v": at + 1}
                else:
                    o["loc"] = {"k": "rec", "v": at // size + 1}
                blob += o["body"]
            return blob + tail[i]

        def pointer(o):
            loc, fn = o["loc"], fnames[o["file"]]
            r3 = random.Random(scn["seed"] + 7 * loc["v"] + o["file"])
            spell = fn if r3.random() < 0.7 else fn.upper()
            v = str(loc["v"])
            if loc["k"] == "bytes":
                v += r3.choice((" <BYTES>", "<BYTES>", " <bytes>")[:2])
            elif o["form"] == "recq":
                v += " <RECORDS>"
            if loc["k"] == "none":
                return pds3.q(spell)
            if attached and r3.random() < 0.7:
                return pds3.raw(v)
            return pds3.raw(f'("{spell}", {v})')

        def label(base):
            blobs = [compose(i, base if i == 0 else 0) for i in range(nfiles)]
            head = [("RECORD_TYPE", "FIXED_LENGTH")]
            if prodrb and not scn.get("norb"):
                head.append(("RECORD_BYTES", prodrb))
            if nested:
                body = []
                for i in range(nfiles):
                    inner = [("FILE_NAME", pds3.q(fnames[i]))]
                    if i in bare:
                        inner = []
                    if frbs[i]:
                        inner.append(("RECORD_BYTES", frbs[i]))
                    mine = [o for o in objs if o["file"] == i]
                    ptrs = [("^" + o["name"], pointer(o)) for o in mine]
                    defs = [("OBJECT", o["name"], definition(o))
                            for o in mine]
                    if rng_mode == "pairs":
                        for p, q in zip(ptrs, defs):
                            inner += [p, q]
                    else:
                        inner += ptrs + defs
                    if i in bare:
                        body += inner
                    else:
                        body.append(("OBJECT", scn["fileword"], inner))
                return pds3.label(head + body), blobs
            ptrs = [("^" + o["name"], pointer(o)) for o in objs]
            defs = [("OBJECT", o["name"], definition(o)) for o in objs]
            if rng_mode == "pairs":
                body = [x for pq in zip(ptrs, defs) for x in pq]
            else:
                body = ptrs + defs
            return pds3.label(head + body), blobs

        rng_mode = scn["mode"]
        if attached:
            base = 0
            base = 64
            while True:
                text, blobs = label(base)
                if len(text) <= base:
                    break
                base = -(-len(text) // 64) * 64
            files = {"prod.img": text + b" " * (base - len(text)) + blobs[0]}
            entry = "prod.img"
        else:
            text, blobs = label(0)
            files = {fnames[i]: blobs[i] for i in range(nfiles)}
            files["prod.lbl"] = text
            entry = "prod.lbl"
        for fn, content in files.items():
            (d / fn).write_bytes(content)
        eobjs = [dict(name=o["name"], kind=o["kind"], w=o["w"],
                      shape=o["shape"], col=o["col"], rb=o["rb"],
                      loc=o["loc"], file=o["file"] + 1, frb=frbs[o["file"]],
                      level=int(nested and o["file"] not in bare))
                 for o in objs]
        efiles = [dict(x=fn, bytes=list(files[fn])) for fn in fnames]
        return entry, eobjs, efiles, prodrb

    def execute(self, scn, d):
        entry, objs, files, prodrb = self.build(scn, d)
        rng = random.Random(scn["seed"] + 1)
        ev = dict(op="layout", objs=objs, files=files, prodRB=prodrb)
        try:
            data, _ = read(d / entry)
        except Exception as e:
            ev["obs"] = {"kind": "exc", "type": type(e).__name__,
                         "msg": str(e)[:100]}
            return [ev]
        names = [n for n in data.index if n != "LABEL"]
        values, paths = {}, {}
        order = list(names)
        rng.shuffle(order)
        for n in order:
            how = rng.choice(("item", "attr", "load"))
            try:
                v, _ = get(data, n, how)
                values[n] = proj(v)
            except Exception as e:
                values[n] = {"kind": "exc", "type": type(e).__name__,
                             "msg": str(e)[:100]}
            p = data.file_mapping.get(n)
            paths[n] = Path(p).name if isinstance(p, str) else str(p)
        ev["obs"] = {"kind": "ok", "names": names,
                     "values": [values[n] for n in names],
                     "paths": [paths[n] for n in names]}
        return [ev]

    def canary(self, evs, rng):
        e = evs[0]
        if e["obs"]["kind"] != "ok":
            return None
        vs = e["obs"]["values"]
        for v in vs:
            if v["kind"] == "array":
                v["data"][0][0] ^= 1
                return e
        if len(vs) > 1:
            e["obs"]["names"].reverse()
            return e
        return None


class C08(LayoutProp):
    id = "C08"
    level_note = "pointers and definitions of one name in the same order"

    def __init__(self, *a):
        super().__init__(*a)
        n = 4 if self.quick else 5
        self.models = [("MC_Layout", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            ' Names = {"A", "B", "C"}\n RBs = {7}\n MaxPos = 1\n'
            f" MaxNames = {n}\n"
            "INVARIANTS Distinct OnceSame EmitNames\n"), "names")]

    def scenario(self, names, kinds):
        rng = self.rng
        return dict(
            objs=[[k, n] for k, n in zip(kinds, names)],
            rb=rng.choice((8, 16, 25)), nest=rng.random() < 0.4,
            files=rng.choice((1, 2, 3)), attached=rng.random() < 0.3,
            fileword=rng.choice(("FILE", "FILE", "UNCOMPRESSED_FILE"[2:],
                                 "DATA_FILE")),
            mixed=rng.choice((None, "before", "after")),
            mode=rng.choice(("pairs", "ptrs")), seed=rng.randrange(1 << 30))

    def from_model(self, scns):
        out = []
        rng = self.rng
        for s in scns:
            kinds = rng.sample(sorted(KINDS), 3)
            pick = {x: (k, rng.choice(KINDS[k]))
                    for x, k in zip("ABC", kinds)}
            out.append(self.scenario([pick[x][1] for x in s["names"]],
                                     [pick[x][0] for x in s["names"]]))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        for i in range(500 if self.quick else 4000):
            pool = []
            for _ in range(rng.randrange(1, 4)):
                k = rng.choice(sorted(KINDS))
                pool.append((k, rng.choice(KINDS[k])))
            # (more than ten of a name, now and then)
            pick = [rng.choice(pool) for _ in range(
                rng.randrange(12, 27) if i % 8 == 0 else rng.randrange(2, 8))]
            out.append(self.scenario([p[1] for p in pick],
                                     [p[0] for p in pick]))
        return out


class C11(LayoutProp):
    id = "C11"
    level_note = ("objects of five kinds; positions within 2 KB files; "
                  "record sizes of product, FILE object and object itself")

    def __init__(self, *a):
        super().__init__(*a)
        self.models = [("MC_Layout", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            ' Names = {"A"}\n RBs = {5, 8, 40}\n'
            f" MaxPos = {4 if self.quick else 9}\n MaxNames = 0\n"
            "INVARIANTS FromOne NamedOnly Steps Nearest EmitLoc\n"), "loc")]

    def from_model(self, scns):
        """one object exactly where the model's pointer says"""
        return [dict(single=s, kind=self.rng.choice(sorted(KINDS)),
                     seed=self.rng.randrange(1 << 30),
                     attached=self.rng.random() < 0.2) for s in scns]

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(500 if self.quick else 6000):
            n = rng.randrange(1, 6)
            kinds = [rng.choice(sorted(KINDS)) for _ in range(n)]
            used, objs = set(), []
            for k in kinds:
                free = [x for x in KINDS[k] if x not in used]
                if free:
                    nm = rng.choice(free)
                    used.add(nm)
                    objs.append([k, nm])
            nest = rng.random() < 0.4
            out.append(dict(
                objs=objs, rb=rng.choice((8, 16, 25, 60)), nest=nest,
                norb=nest and rng.random() < 0.5,
                files=rng.choice((1, 2, 3)), attached=rng.random() < 0.4,
                fileword=rng.choice(("FILE", "DATA_FILE")),
                mode=rng.choice(("pairs", "ptrs")),
                mixed=rng.choice((None, "before", "after")),
                seed=rng.randrange(1 << 30)))
        return out

    def build(self, scn, d):
        if "single" not in scn:
            return super().build(scn, d)
        rng = random.Random(scn["seed"])
        s = scn["single"]
        o = make_object(rng, scn["kind"], rng.choice(KINDS[scn["kind"]]))
        o["rb"], loc = s["o"]["rb"], s["o"]["loc"]
        if o["kind"] == "ascii":
            o["rb"] = 0
        frb, prb = s["fileRB"], s["prodRB"]
        size = o["rb"] or frb or prb
        v = loc["v"]
        at = {"none": 0, "bytes": v - 1, "rec": (v - 1) * size}[loc["k"]]
        fill = b"J" if o["kind"] in ("ascii", "header") else None
        head = fill * at if fill else rng.randbytes(at)
        blob = head + o["body"] + b"J" * rng.randrange(9)
        fn = "data1.dat"
        ptr = {"none": f'"{fn}"', "bytes": f'("{fn}", {v} <BYTES>)',
               "rec": f'("{fn}", {v})'}[loc["k"]]
        items = [("^" + o["name"], pds3.raw(ptr)),
                 ("OBJECT", o["name"], definition(o))]
        if frb or rng.random() < 0.3:
            items = [("OBJECT", "FILE", ([("RECORD_BYTES", frb)] if frb
                                         else []) + items)]
        text = pds3.label([("RECORD_TYPE", "FIXED_LENGTH"),
                           ("RECORD_BYTES", prb)] + items)
        (d / "prod.lbl").write_bytes(text)
        (d / fn).write_bytes(blob)
        return "prod.lbl", [dict(
            name=o["name"], kind=o["kind"], w=o["w"], shape=o["shape"],
            col=o["col"], rb=o["rb"], loc=loc, file=1, frb=frb, level=0)], [
            dict(x=fn, bytes=list(blob))], prb


# --------------------------------------------------------------------- C10

class C10(FilesProp):
    id = "C10"
    level_note = ("END alone at the start of a line; labels up to the "
                  "default limit of 1000 KiB")
    case_limit = 60

    def __init__(self, *a):
        super().__init__(*a)
        n = 7 if self.quick else 9
        self.models = [("MC_Attach", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxLen = {n}\n Head0 = {h}\n Chunk = {c}\n Overlap = {o}\n"
            "INVARIANTS Separated Consistent Emit\n"), f"h{h}c{c}o{o}")
            for h, c, o in ((2, 3, 2), (3, 2, 3), (1, 1, 2))]

    def from_model(self, scns):
        """the end mark of the model's file, at the same place relative to
        the pieces the real reader takes"""
        places = set()
        for s in scns:
            cuts = [s["head"] + i * s["chunk"] for i in range(9)]
            for j, c in enumerate(cuts[:3]):
                delta = s["at"] - 1 - c
                if abs(delta) <= s["chunk"] + 2:
                    places.add((j, delta, s["len"] - s["at"] > 3))
        out = []
        for j, delta, more in sorted(places):
            size = 20 + 51200 * j + delta + 2
            if size >= 18:
                one = self.one(size)
                if not more:
                    one["follow"] = "none"
                out.append(one)
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        edges = [20, 20 + 51200, 51200, 20 + 2 * 51200, 102400]
        deltas = range(-22, 12) if not self.quick else range(-9, 8)
        for e in edges[:3] if self.quick else edges:
            for dl in deltas:
                if e + dl < 18:
                    continue
                out.append(self.one(e + dl))
        for _ in range(500 if self.quick else 5000):
            out.append(self.one(rng.choice((0, rng.randrange(60, 4000)))))
        for _ in range(3 if self.quick else 25):
            out.append(self.one(rng.randrange(200_000, 1_000_000)))
        for _ in range(4 if self.quick else 30):
            out.append(dict(self.one(rng.randrange(100, 900)), quoted=True))
        return out

    def one(self, size):
        rng = self.rng
        return dict(size=size, seed=rng.randrange(1 << 30),
                    eol=rng.choice(("\r\n", "\r\n", "\n")),
                    end=rng.choice(("eol", "eol", "eol", "sp1", "sp5", "sp8",
                                    "sp20")),
                    follow=rng.choice(("binary", "label", "zeros", "spaces",
                                       "text", "none", "high", "ends")),
                    utf=rng.random() < 0.1)

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        eol = scn["eol"]
        lines = ["PDS_VERSION_ID = PDS3", "RECORD_TYPE = UNDEFINED"]
        tiny = 0 < scn["size"] < 60
        if tiny:
            # END inside or just after the first twenty bytes
            lines = ["A" * max(1, scn["size"] - 4 - len(eol)) + " = 1"]
        else:
            lines += ['^IMAGE = ("prod.img", @@@@@@@@ <BYTES>)',
                      "OBJECT = IMAGE", "  LINES = 2", "  LINE_SAMPLES = 3",
                      "  SAMPLE_BITS = 8",
                      "  SAMPLE_TYPE = MSB_UNSIGNED_INTEGER",
                      "END_OBJECT = IMAGE"]
        k = 0
        if scn.get("quoted"):
            lines += ['NOTE = "the words of this text', "END", 'are these"']
        size = sum(len(x) + len(eol) for x in lines)
        while scn["size"] - size > 80:
            k += 1
            long = scn["size"] > 30000
            x = rng.choice((
                f"KEY_{k} = {rng.randrange(10**6)}",
                f'WORD_{k} = "ENDING {k} END_OBJECT END"',
                f"/* a comment END {k} */", f"ENDED_{k} = (1, 2, 3)", "",
                f"  END_TIME_{k} = 2001-01-01T00:00:00",
            )) if not long else '/* %s */' % ("e" * rng.randrange(20, 60))
            if long and scn["size"] - size > 30000:
                x = "/* " + "END " * 2000 + "*/"
            lines.append(x)
            size += len(x) + len(eol)
        if scn["utf"] and not tiny:
            lines.append('ANGSTROM = "\u00c5"')
            size += len(lines[-1].encode()) + len(eol)
        left = scn["size"] - size - len(eol)
        if left >= 7 and not tiny:
            lines.append("/* " + "c" * (left - 6) + " */")
        text = eol.join(lines) + eol
        after = {"eol": eol, "sp1": " " + eol, "sp5": "     " + eol,
                 "sp8": " " * 8, "sp20": " " * 20}[scn["end"]].encode()
        if scn["follow"] == "none" and scn["end"] not in ("sp8", "sp20"):
            after = rng.choice((after, after, b""))
        junk = {
            "binary": rng.randbytes(40), "zeros": b"\0" * 40,
            "label": b"END" + eol.encode() + b"PDS_VERSION_ID = PDS3"
                     + eol.encode() + b"OBJECT = IMAGE" + eol.encode()
                     + b"END" + eol.encode(),
            "spaces": b" " * rng.randrange(1, 70), "text": b"some text\r\n" * 3,
            "none": b"", "high": b"\xff\xfe\x80" * 9,
            "ends": b"\r\nEND\r\n\nEND_OBJECT\r\n",
        }[scn["follow"]]
        pix = b"" if scn["follow"] == "none" else rng.randbytes(6)
        if scn["follow"] == "none":
            pix = b""
        body = text.encode() + b"END" + after + junk
        text = text.replace("@@@@@@@@", "%8d" % (len(body) + 1))
        enc = text.encode()
        content = enc + b"END" + after + junk + pix
        toks = [{"k": "text", "n": len(enc)}, {"k": "end", "n": 3},
                {"k": "junk", "n": len(after) + len(junk) + len(pix)}]
        (d / "a").mkdir()
        (d / "b").mkdir()
        (d / "a" / "prod.img").write_bytes(content)
        (d / "b" / "prod.img").write_bytes(content)
        (d / "b" / "prod.lbl").write_bytes(enc + b"END" + eol.encode())
        n_white = 0
        rest = content[len(enc) + 3:]
        while n_white < len(rest) and rest[n_white:n_white + 1] in b" \r\n":
            n_white += 1
        slack = min(n_white, 16)
        want = hashlib.sha256("\n".join(
            (text + "END").replace("\r\n", "\n").split("\n")
        ).encode()).hexdigest()[:16]
        obs = self.observe(d, content, enc, want, tiny or not pix)
        return [dict(op="attach", toks=toks, slack=slack, object=want,
                     quoted=bool(scn.get("quoted")),
                     data=list(pix) if not tiny else [], obs=obs)]

    def observe(self, d, content, enc, want, nodata):
        obs = {"kind": "ok"}
        try:
            t = trim_label(d / "a" / "prod.img").encode()
            obs["n"], obs["same"] = len(t), content.startswith(t)
        except Exception as e:
            obs["n"], obs["same"] = -1, False
            obs["why"] = repr(e)[:200]
        for sub, fn, tag in (("a", "prod.img", ""),
                             ("b", "prod.lbl", "Detached")):
            try:
                data, _ = read(d / sub / fn)
                obs["meta" + tag] = hashlib.sha256(
                    json.dumps(flatten(data.metadata)).encode()
                ).hexdigest()[:16]
                if not tag:
                    lab = data["LABEL"].rstrip()
                    obs["object"] = hashlib.sha256(
                        lab.encode()).hexdigest()[:16]
                if nodata:
                    obs["data" + tag] = []
                else:
                    v, _ = get(data, "IMAGE")
                    obs["data" + tag] = [int(x) for x in v.ravel()] if (
                        isinstance(v, np.ndarray) and v.shape == (2, 3)
                    ) else [-1]
            except Exception as e:
                obs["meta" + tag] = obs["data" + tag] = "exc" + tag
                obs.setdefault("object", "exc")
                obs["err" + tag] = repr(e)[:200]
        if isinstance(obs["data"], str):
            obs["data"] = [-2]
        if isinstance(obs["dataDetached"], str):
            obs["dataDetached"] = [-3]
        return obs

    def timeout_events(self, scn):
        return [dict(op="attach", obs={"kind": "timeout"})]

    def known_key(self, evs, rej):
        e = evs[0]
        if e.get("quoted") and e["obs"]["same"] and (
                0 < e["obs"]["n"] < e["toks"][0]["n"]):
            return "end-line-in-quoted-text"
        return ""

    def canary(self, evs, rng):
        e = evs[0]
        n = e["toks"][0]["n"] + 3
        e["obs"]["n"] = rng.choice((n - 1, n + e["slack"] + 1))
        return e
