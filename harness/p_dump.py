"""C25 dumping of browse products."""
from __future__ import annotations

import csv
import hashlib
import os
import pickle
import random
import struct
import warnings
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd
from PIL import Image

from . import pds3
from .core import Prop
from .p_browse import options, picture
from .p_files import read
from .p_pds4 import Pds4, el, gone, want_xml

FLOATS = {"f4": np.float32, "f8": np.float64, "c8": np.complex64,
          "c16": np.complex128}


def hexed(v, t):
    return FLOATS[t](v).tobytes().hex()


def cell(text):
    """everything a cell of a file may stand for"""
    c = dict(t=text, i="")
    for t in FLOATS:
        try:
            s = text.strip("()") if t[0] == "c" else text
            c[t] = hexed(complex(s) if t[0] == "c" else float(s), t)
        except ValueError:
            c[t] = ""
    try:
        c["i"] = str(int(text))
    except ValueError:
        try:
            c["i"] = str(int(float(text)))
        except (ValueError, OverflowError):
            pass
    return c


def wanted(v):
    """the cells of a column of a table"""
    a = v.to_numpy() if isinstance(v, pd.Series) else v
    t = {"f": "f", "c": "c", "i": "int", "u": "int"}.get(a.dtype.kind, "str")
    if t in ("f", "c"):
        t += str(a.dtype.itemsize)
    out = []
    for x in a:
        if gone(x) or (t[0] == "c" and np.isnan(x)):
            out.append(dict(t="str", v=""))
        elif t == "int":
            out.append(dict(t=t, v=str(int(x))))
        elif t in FLOATS:
            out.append(dict(t=t, v=hexed(x, t)))
        elif isinstance(x, (float, np.floating)):
            out.append(dict(t="f8", v=hexed(x, "f8")))
        elif isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            out.append(dict(t="int", v=str(int(x))))
        elif isinstance(x, (complex, np.complexfloating)):
            out.append(dict(t="c16", v=hexed(x, "c16")))
        else:
            out.append(dict(t="str", v=str(x)))
    return out


def numbers(v):
    """the record of an array of numbers, and whether it is too varied"""
    m = isinstance(v, np.ma.MaskedArray)
    data = np.ma.getdata(v).ravel()
    mask = np.ma.getmaskarray(v).ravel()
    fin = np.isfinite(data)
    ok = bool(np.all((np.abs(data[fin & ~mask].astype("f8")) <= 30000)
                     & (data[fin & ~mask] == np.floor(
                         data[fin & ~mask].astype("f8")))))
    st = [1 if b else 0 if f else 2 for b, f in zip(mask, fin)]
    k = [int(x) if ok and s == 0 else 0 for x, s in zip(data.tolist(), st)]
    return dict(shape=list(v.shape), k=k, st=st, masked=m,
                exact=v.dtype.kind == "f"), not ok


def describe(name, v, y, fits):
    """an object of the product, from a separate reading of it"""
    if v is None:
        return dict(name=name, kind="nothing")
    if isinstance(v, pd.DataFrame):
        return dict(name=name, kind="table",
                    names=[str(c) for c in v.columns],
                    cells=[wanted(v.iloc[:, i])
                           for i in range(v.shape[1])] or [[]])
    if isinstance(v, np.ndarray):
        if v.ndim == 1 and v.dtype.names:
            if any(v.dtype[n].shape for n in v.dtype.names):
                return dict(name=name, kind="blob", content=token(v),
                            scaled=token(v), dim1=1)
            return dict(name=name, kind="struct", names=list(v.dtype.names),
                        cells=[wanted(v[n]) for n in v.dtype.names])
        if v.ndim == 1:
            return dict(name=name, kind="vector", names=[],
                        cells=[wanted(v)])
        if v.ndim not in (2, 3) or v.dtype.kind not in "biuf":
            return dict(name=name, kind="blob", content=token(v),
                        scaled=token(y.get_scaled(name)))
        a, odd = numbers(v)
        try:
            b, bodd = numbers(np.ma.asarray(y.get_scaled(name))
                              if isinstance(y.get_scaled(name),
                                            np.ma.MaskedArray)
                              else np.asarray(y.get_scaled(name)))
        except Exception:
            return None
        return dict(name=name, kind="image", a=a, sa=b, scalable=False,
                    mul=1, add=0, specials=[], opaque=odd or bodd)
    if hasattr(v, "to_string"):
        return dict(name=name, kind="xml",
                    content=ET.canonicalize(v.to_string()))
    return dict(name=name, kind="text", content=str(v))


def token(v):
    if v.dtype.hasobject:
        return f"object {v.shape} {v.tolist()}"
    v = np.ascontiguousarray(v).astype(v.dtype.newbyteorder(">")) \
        .reshape(v.shape)
    return f"{v.dtype.descr} {v.shape} {v.tobytes().hex()}"


def digest(v):
    if isinstance(v, np.ndarray):
        m = np.ma.getmaskarray(v).tobytes() if isinstance(
            v, np.ma.MaskedArray) else b""
        b = repr((v.dtype, v.shape)).encode() + v.tobytes() + m
    elif isinstance(v, pd.DataFrame):
        b = repr((list(v.columns), list(map(str, v.dtypes)),
                  v.to_numpy(object).tolist())).encode()
    elif hasattr(v, "to_string"):
        b = v.to_string().encode()
    else:
        b = repr(v).encode()
    return hashlib.sha1(b).hexdigest()


def tree(d):
    out = []
    for p in sorted(d.rglob("*")):
        out.append((str(p.relative_to(d)), hashlib.sha1(
            p.read_bytes()).hexdigest() if p.is_file() else ""))
    return out


class Dump(Prop):
    id = "C25"
    module = "Trace_Dump"
    chunk_min = 20
    assumptions = (
        "JPEG images are compared by size and channels only; images that are "
        "not whole numbers of moderate size too",
        "texts can be encoded; object names are file names")
    level_note = (
        "TLC explores every short session of loading, dropping and dumping "
        "objects of every kind; sessions are replayed on real PDS3, PDS4, "
        "FITS and desktop products, and the directories, the contents of "
        "every file written and the state of the held objects after every "
        "step are compared by the trace specification; contents are seeded")

    def __init__(self, *a):
        super().__init__(*a)
        kinds = ('"image", "table", "text", "nothing"' if self.quick else
                 '"image", "table", "text", "nothing", "vector", "blob"')
        m = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
             " MaxOps = {}\n Kinds = {{{}}}\n"
             "INVARIANTS EachHasFile Released Apart OnlyTouched Emit\n"
             "PROPERTY KeepsDisk\n")
        self.models = [("MC_Dump", m.format(2, kinds), "sessions")]
        if not self.quick:
            self.models.append(
                ("MC_Dump", m.format(3, '"image", "text"').replace(
                    "Apart ", ""), "longer"))
        self.pds4 = Pds4("quick", self.seed)

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        return [dict(model=s, seed=self.rng.randrange(1 << 30))
                for s in scns[:220 if self.quick else 6000]]

    def random_scenarios(self):
        return [dict(model={}, seed=self.rng.randrange(1 << 30))
                for _ in range(160 if self.quick else 3500)]

    # ------------------------------------------------------------ products
    def image(self, rng, name):
        """label block, bytes, record"""
        t = rng.choice(("u1", ">i2", ">i2", ">f4"))
        bands = rng.choice((1, 1, 1, 2, 3, 4, 5))
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        lo, hi = (1, 254) if t == "u1" else (-5000, 5000)
        n = bands * h * w
        k = [rng.randint(lo, hi) for _ in range(n)]
        if rng.random() < 0.2:
            k = [rng.choice(k[:2]) for _ in k]
        spec = []
        items = [("LINES", h), ("LINE_SAMPLES", w),
                 ("SAMPLE_TYPE", {"u1": "MSB_UNSIGNED_INTEGER",
                                  ">i2": "MSB_INTEGER",
                                  ">f4": "IEEE_REAL"}[t]),
                 ("SAMPLE_BITS", {"u1": 8, ">i2": 16, ">f4": 32}[t])]
        if bands > 1:
            items += [("BANDS", bands),
                      ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL")]
        if rng.random() < 0.5:
            v = rng.choice(k) if rng.random() < 0.8 else lo
            spec.append(v)
            items.append(("INVALID_CONSTANT", v))
        mul = rng.choice((2, 2, 2, 1, 5, -2, -3))
        add = rng.choice((0, 0, 1, 40, -7))
        if mul != 2:
            items.append(("SCALING_FACTOR", mul / 2))
        if add:
            items.append(("OFFSET", add / 2))
        shape = [h, w] if bands == 1 else [bands, h, w]
        a = dict(shape=shape, k=k, st=[0] * n, masked=False,
                 exact=t == ">f4")
        return items, np.array(k, t).tobytes(), dict(
            name=name, kind="image", a=a, sa=a, scalable=True, mul=mul,
            add=add, specials=spec, opaque=False)

    def table(self, rng, name):
        rows = rng.choice((1, 1, 2, 3, 12))
        cols, at, body = [], 1, [b""] * rows
        for i in range(rng.randint(1, 4)):
            t = rng.choice(("i2", "i8", "f4", "f8", "char"))
            n = {"i2": 2, "i8": 8, "f4": 4, "f8": 8, "char": 5}[t]
            cols.append(("OBJECT", "COLUMN", [
                ("NAME", pds3.q(rng.choice(("A", "B,C", "D E", "F\'S"))
                                + str(i))),
                ("DATA_TYPE", {"i": "MSB_INTEGER", "f": "IEEE_REAL",
                               "c": "CHARACTER"}[t[0]]),
                ("START_BYTE", at), ("BYTES", n)]))
            at += n
            for r in range(rows):
                if t == "char":
                    b = bytes(rng.choice(b"abc,;xyz 09")
                              for _ in range(4)) + b"."
                elif t == "i8":
                    b = struct.pack(">q", rng.choice(
                        (rng.randint(-99, 99), 2 ** 62 + 1,
                         -2 ** 53 - 1)))
                elif t == "i2":
                    b = struct.pack(">h", rng.randint(-3000, 3000))
                else:
                    b = struct.pack(">" + t[1].translate(
                        {52: "f", 56: "d"}), rng.choice(
                        (rng.uniform(-1, 1), 1.5, 1e30, 0.1)))
                body[r] += b
        return [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", rows),
                ("COLUMNS", len(cols)), ("ROW_BYTES", at - 1)] + cols, \
            b"".join(body)

    def pds3(self, rng, d, kinds):
        items, blocks, mine = [], [], {}
        for i, kind in enumerate(kinds):
            tag = "AB"[i] if i < 2 else rng.choice("CDE") + str(i)
            fn = f"{tag.lower()}.dat"
            body, data = [], b""
            if kind == "image":
                name = f"{tag}_IMAGE"
                body, data, mine[name] = self.image(rng, name)
            elif kind == "table":
                name = f"{tag}_TABLE"
                body, data = self.table(rng, name)
            elif kind == "text":
                name = f"{tag}_TEXT"
                body = [("NOTE", pds3.q("n"))]
                data = rng.choice((b"one\r\ntwo, \"x\"\r\n", b"",
                                   b"caf\xc3\xa9 <&>\r\n", b"a\nb\n"))
            elif kind == "nothing":
                name = f"{tag}_IMAGE"
                body, _, _ = self.image(rng, name)
            else:
                name = f"{tag}_ARRAY"
                axes = {"vector": 1, "struct": 1, "blob": 2}[kind]
                el = ("OBJECT", "ELEMENT", [
                    ("NAME", "X"), ("BYTES", 4), ("START_BYTE", 1),
                    ("DATA_TYPE", "IEEE_REAL")])
                if kind != "vector":
                    el = ("OBJECT", "COLLECTION", [
                        ("NAME", "C"), ("BYTES", 6), el,
                        ("OBJECT", "ELEMENT", [
                            ("NAME", "Y"), ("BYTES", 2), ("START_BYTE", 5),
                            ("DATA_TYPE", "MSB_INTEGER")])])
                n = rng.choice((1, 2, 4))
                body = [("AXES", axes),
                        ("AXIS_ITEMS", n if axes == 1 else
                         pds3.raw(f"({n}, 2)")),
                        ("INTERCHANGE_FORMAT", "BINARY"), el]
                for _ in range(n * axes):
                    data += struct.pack(">f", rng.choice(
                        (0.1, 2.5, rng.uniform(-9, 9))))
                    if kind != "vector":
                        data += struct.pack(">h", rng.randint(-99, 99))
            items.append((f"^{name}", pds3.q(fn)))
            blocks.append(("OBJECT", name, body))
            if kind != "nothing":
                (d / fn).write_bytes(data)
        base = rng.choice(("p", "a.b", "PRODUCT_1"))
        fn = d / (base + rng.choice((".lbl", ".LBL")))
        fn.write_bytes(pds3.label(
            [("RECORD_TYPE", "UNDEFINED")] + items + blocks))
        return fn, mine

    def fits(self, rng, d, kinds):
        from astropy.io import fits

        hdus = [fits.PrimaryHDU()]
        for i, kind in enumerate(kinds):
            nm = "AB"[i] if i < 2 else f"H{i}"
            if kind == "table":
                rows = rng.choice((1, 2, 5))
                hdus.append(fits.BinTableHDU.from_columns([
                    fits.Column("N", "J", array=[
                        rng.randint(-9, 9) for _ in range(rows)]),
                    fits.Column("S", "4A", array=[
                        rng.choice(("ab", "c,d", "x"))
                        for _ in range(rows)]),
                    fits.Column("V", "2E", array=[
                        [rng.uniform(-1, 1), 0.5] for _ in range(rows)])],
                    name=nm))
            else:
                dims = rng.choice((1, 2, 2, 2, 3, 4))
                shape = [rng.randint(1, 5) for _ in range(dims)]
                t = rng.choice(("u1", ">i2", ">f4", ">f8"))
                a = np.array([rng.randint(0, 200) for _ in range(
                    int(np.prod(shape)))], t).reshape(shape)
                hdus.append(fits.ImageHDU(a, name=nm))
        fn = d / ("f" + rng.choice((".fits", ".fit", ".FITS")))
        fits.HDUList(hdus).writeto(fn)
        return fn, {}

    def xml(self, rng, d):
        self.pds4.rng = rng
        xml, _, _ = self.pds4.product(
            rng, self.pds4.one("any", {}), d)
        extra = self.pds4.meta(rng)
        extra["tag"] = "Context_Area"
        fn = d / "p.xml"
        fn.write_text(
            '<?xml version="1.0" encoding="UTF-8"?>\n'
            '<Product_Observational '
            'xmlns="http://pds.nasa.gov/pds4/pds/v1">'
            + el("Identification_Area",
                 el("logical_identifier", "urn:nasa:pds:a:b:c"),
                 el("version_id", "1.0"), el("title", "t"),
                 el("information_model_version", "1.11.0.0"),
                 el("product_class", "Product_Observational"))
            + want_xml(extra) + xml + "</Product_Observational>",
            encoding="utf-8")
        return fn, {}

    def desktop(self, rng, d):
        n = rng.choice((1, 1, 3, 11))
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        frames = [Image.fromarray(np.array(
            [rng.randrange(256) for _ in range(h * w * 3)],
            "u1").reshape(h, w, 3)) for _ in range(n)]
        if n > 1:
            fn = d / "g.webp"
            frames[0].save(fn, lossless=True, save_all=True,
                           append_images=frames[1:])
        else:
            fn = d / rng.choice(("i.png", "i.tiff", "i.bmp"))
            if rng.random() < 0.5:
                frames[0] = frames[0].convert("L")
            frames[0].save(fn)
        return fn, {}

    def product(self, rng, scn, d):
        m = scn["model"]
        if m:
            if m["fits"]:
                return self.fits(rng, d, m["kinds"])
            return self.pds3(rng, d, m["kinds"])
        what = rng.choice(("pds3", "pds3", "pds3", "fits", "pds4", "pds4",
                           "desktop"))
        kinds = [rng.choice(("image", "image", "table", "text", "nothing",
                             "vector", "struct", "blob"))
                 for _ in range(rng.randint(1, 5))]
        if what == "pds3":
            return self.pds3(rng, d, kinds)
        if what == "fits":
            return self.fits(rng, d, kinds)
        return (self.xml if what == "pds4" else self.desktop)(rng, d)

    # ------------------------------------------------------------ sessions
    def history(self, rng, scn, objects, auto):
        m = scn["model"]
        names = [o["name"] for o in objects]
        brings = {o["name"]: o["brings"] for o in objects}
        # objects that come with others are listed once these are loaded
        late = {n for b in brings.values() for n in b}
        if m:
            def real(n):
                c = [k for k in names if k.split("_")[0] == n
                     and not k.endswith("_HEADER")]
                return c[0] if c else n
            out = []
            for op in m["h"]:
                if op["op"] == "dump":
                    o = dict(op["o"], format=rng.choice(("jpg", "png",
                                                         "png")))
                    out.append(dict(op="dump", o=o))
                else:
                    out.append(dict(op=op["op"], name=real(op["name"])))
            first = real("A")
            if first not in auto:
                out.insert(0, dict(op="load", name=first))
            return out
        out, held = [], set(auto)
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            rest = [n for n in names if n not in held | late]
            if rest and r < 0.5:
                n = rng.choice(rest)
                if rng.random() < 0.3:
                    for n in rest:
                        out.append(dict(op="load", name=n))
                        held |= {n} | set(brings[n])
                        late -= held
                else:
                    out.append(dict(op="load", name=n))
                    held |= {n} | set(brings[n])
                    late -= held
            elif held and r < 0.58:
                n = rng.choice(sorted(held))
                out.append(dict(op="drop", name=n))
                held.discard(n)
            else:
                o = self.choose(rng)
                out.append(dict(op="dump", o=o))
                if o["purge"]:
                    held = set()
        if out[-1]["op"] != "dump":
            out.append(dict(op="dump", o=self.choose(rng)))
        return out

    def choose(self, rng):
        return dict(
            scaled=rng.choice(("true", "true", "false", "both")),
            purge=rng.random() < 0.3, dir=rng.choice((1, 1, 2)),
            prefix=rng.choice(("", "", "q", "a.b c")),
            format=rng.choice(("jpg", "png", "png", "png")),
            clip=rng.choice(([], [], [0, 0], [5, 5])), one=True,
            color=rng.choice(([0, 255, 255], [0, 255, 255], [9, 8, 7],
                              [])),
            band=rng.choice(([], [], [0], [-1], [-1])),
            override=rng.random() < 0.3, axis=rng.choice((0, 0, 0, 0, 1)),
            rgb=[])

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        src = d / "src"
        src.mkdir()
        dirs = {1: d / "out1", 2: d / "out2"}
        for p in dirs.values():
            p.mkdir()
        fn, mine = self.product(rng, scn, src)
        os.chdir(dirs[1])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y, _ = read(str(fn))
            objects = []
            isfits = fn.suffix.lower() in (".fits", ".fit")
            for n in list(y.keys()):
                y[n]
            for n in list(y.keys()):
                o = describe(n, y[n], y, isfits)
                if o is None:
                    return []
                if n in mine and o["kind"] == "image":
                    o = mine[n]
                o["brings"] = [k for k in y.keys() if isfits
                               and k == n + "_HEADER"]
                objects.append(o)
            x, _ = read(str(fn))
            names = list(y.keys())

            def held():
                return [n for n in names if n in x.__dict__]
            auto = held()
            p = dict(objects=objects, base=fn.stem, fits=isfits)
            steps = []
            source = tree(src)
            for op in self.history(rng, scn, objects, auto):
                steps.append(self.step(rng, x, op, held, dirs, src, source))
                if steps[-1]["error"]:
                    break
        return [dict(p=p, auto=auto, steps=steps)]

    def step(self, rng, x, op, held, dirs, src, source):
        before = {n: digest(x.__dict__[n]) for n in held()}
        st = dict(op, error="", files=[])
        try:
            if op["op"] == "load":
                how = rng.choice(("load", "item", "attr"))
                if how == "load" and op["name"] not in before:
                    x.load(op["name"])
                elif how == "attr":
                    getattr(x, op["name"])
                else:
                    x[op["name"]]
            elif op["op"] == "drop":
                delattr(x, op["name"])
            else:
                self.dump(rng, x, op["o"], dirs)
                st["o"] = {k: op["o"][k] for k in (
                    "scaled", "purge", "prefix", "dir", "format", "clip",
                    "color", "band", "override", "axis", "rgb")}
                st["files"] = [self.contents(f) for f in
                               sorted(dirs[op["o"]["dir"]].iterdir())]
        except Exception as ex:
            st["error"] = f"{type(ex).__name__}: {ex}"[:200]
        st["loaded"] = held()
        st["disk"] = [[i, f.name] for i, dd in dirs.items()
                      for f in sorted(dd.iterdir())]
        st["changed"] = [n for n in held() if n in before
                         and digest(x.__dict__[n]) != before[n]]
        st["source"] = tree(src) == source
        return st

    def dump(self, rng, x, o, dirs):
        kw = options(o)
        kw["scaled"] = {"true": True, "false": False}.get(o["scaled"], "both")
        if o["scaled"] == "true" and rng.random() < 0.5:
            kw.pop("scaled")
        if o["purge"]:
            kw["purge"] = True
        if o["prefix"]:
            kw["prefix"] = o["prefix"]
        if o["dir"] == 2:
            kw["outpath"] = rng.choice((str, lambda v: v))(dirs[2])
        if o["format"] != "jpg":
            kw["image_format"] = o["format"]
        x.dump_browse(**kw)

    def contents(self, f):
        out = dict(name=f.name)
        kind = f.suffix[1:]
        if kind in ("png", "jpg"):
            with Image.open(f) as im:
                out |= picture(im)
            if kind == "jpg":
                out["data"] = []
        elif kind == "csv":
            with open(f, newline="", encoding="utf-8") as s:
                out["rows"] = [[cell(c) for c in r] for r in csv.reader(s)]
        elif kind == "pkl":
            with open(f, "rb") as s:
                out["content"] = token(pickle.load(s))
        elif kind == "xml":
            out["content"] = ET.canonicalize(
                f.read_text(encoding="utf-8"))
        else:
            out["content"] = f.read_bytes().decode("utf-8", "replace")
        return out

    def timeout_events(self, scn):
        return [dict(p=dict(objects=[], base="", fits=False), auto=[],
                     steps=[dict(op="load", name="", error="timeout")])]

    def canary(self, evs, rng):
        if not evs:
            return None
        steps = evs[0]["steps"]
        if any(s["error"] for s in steps):
            return None
        s = rng.choice(steps)
        r = rng.random()
        if r < 0.15:
            s["source"] = False
        elif r < 0.3 and s["loaded"]:
            s["changed"] = s["loaded"][:1]
        elif r < 0.5 and s["loaded"]:
            s["loaded"] = s["loaded"][1:]
        elif r < 0.7 and s["disk"]:
            s["disk"].pop(rng.randrange(len(s["disk"])))
        elif r < 0.85:
            s["disk"].append([1, "more.txt"])
        else:
            return None
        return evs
