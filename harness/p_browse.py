"""C28 browse images of arrays."""
from __future__ import annotations

import random
import warnings

import numpy as np
from PIL import Image

from pdr.browsify import browsify

from . import pds3
from .core import Prop
from .p_files import read

SMALL = ("u1", "i1", ">u2", "<u2", ">i2", "<i2")
WIDE = (">u4", "<u4", ">i4", "<i4", ">u8", "<u8", ">i8", "<i8")
REAL = (">f4", "<f4", ">f8", "<f8")


def picture(im):
    a = np.asarray(im)
    if a.dtype != np.uint8:
        return dict(w=im.size[0], h=im.size[1], ch=0, data=[])
    return dict(w=im.size[0], h=im.size[1],
                ch=1 if a.ndim == 2 else a.shape[2],
                data=[int(v) for v in a.ravel()])


def contents(rng, n, lo, hi):
    """n numbers of units between lo and hi"""
    style = rng.choice(("any", "any", "few", "outliers", "same", "ramp",
                        "ends", "near"))
    if style == "any":
        return [rng.randint(lo, hi) for _ in range(n)]
    if style == "few":
        pool = [rng.randint(lo, hi) for _ in range(rng.choice((2, 3, 5)))]
        return [rng.choice(pool) for _ in range(n)]
    if style == "outliers":
        v = rng.randint(lo, hi)
        out = [v] * n
        for _ in range(rng.choice((1, 1, 2, 4))):
            out[rng.randrange(n)] = rng.randint(lo, hi)
        return out
    if style == "same":
        return [rng.choice((lo, hi, rng.randint(lo, hi)))] * n
    if style == "ramp":
        return [lo + (hi - lo) * i // max(n - 1, 1) for i in range(n)]
    if style == "ends":
        return [rng.choice((lo, hi, (lo + hi) // 2)) for _ in range(n)]
    c = rng.randint(lo, hi)
    return [max(lo, min(hi, c + rng.randint(-3, 3))) for _ in range(n)]


def units(rng, dt):
    """(units between, base, step): values are base + step * k"""
    t = np.dtype(dt)
    if t.kind == "b":
        return (0, 1), 0, 1
    if t.kind == "f":
        step = rng.choice((1, 1, 0.5, 2.0 ** -20, 1024.0, 2.0 ** 60))
        return (-9000, 9000), 0, step
    info = np.iinfo(t)
    if t.itemsize <= 2:
        # half of the range at most
        if rng.random() < 0.5 or t.itemsize == 1:
            return (max(info.min, -30000), min(info.max, 30000)), 0, 1
        if t.kind == "u":
            return (5535, 65535), 0, 1
        return rng.choice(((-32768, 20000), (-20000, 32767))), 0, 1
    if rng.random() < 0.4:
        return (0 if t.kind == "u" else -20000, 30000), 0, 1
    # the whole range of the type
    m = 2000
    step = (int(info.max) - int(info.min)) // (2 * m)
    base = int(info.min) + step * m
    return (-m, m), base, step


def build(rng, a, dt, ma):
    """the array of a record"""
    (_, _), base, step = a["units"]
    t = np.dtype(dt)
    vals = []
    for k, s in zip(a["k"], a["st"]):
        if s == 2:
            vals.append(rng.choice((np.nan, np.inf, -np.inf)))
        elif s == 1:
            vals.append(a["hidden"])
        else:
            vals.append(base + step * k)
    arr = np.array(vals, dtype=t).reshape(a["shape"])
    if ma:
        arr = np.ma.masked_array(
            arr, np.array([s == 1 for s in a["st"]]).reshape(a["shape"]))
    return arr


def options(o):
    kw = {}
    if o["clip"]:
        c = tuple(o["clip"])
        kw["image_clip"] = c[0] if o.get("one") and c[0] == c[1] else c
    if o["color"] != [0, 255, 255]:
        kw["mask_color"] = None if not o["color"] else (
            o["color"][0] if len(o["color"]) == 1 else tuple(o["color"]))
    if o["band"]:
        kw["band_ix"] = "burst" if o["band"] == [-1] else o["band"][0]
    if o["override"]:
        kw["override_rgba"] = True
    if o["axis"]:
        kw["slice_axis"] = o["axis"]
    if o["rgb"]:
        kw["rgb_channels"] = tuple(o["rgb"])
    return kw


class Browse(Prop):
    id = "C28"
    module = "Trace_Browse"
    chunk_min = 30
    assumptions = (
        "integers, bits and single or double precision reals of two or three "
        "dimensions with at least one cell; percentiles of the clipping leave "
        "low < high",
        "a level may differ by one from the exact one (rounding)",
        "JPEGs are compared by size and channels only")
    level_note = (
        "TLC shows that the specified renderer keeps order, fills the range "
        "and shows every cell in its place for every small array and option; "
        "arrays of every type are rendered by the real code (to PNG, to "
        "memory, through Data.show, in place) and every pixel is compared by "
        "the trace specification; contents are seeded")

    def __init__(self, *a):
        super().__init__(*a)
        q = self.quick
        self.models = [
            ("MC_Browse", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             f"CONSTANTS\n Values = {{0, 3, 250{'' if q else ', 4'}}}\n"
             f" Cells = {4 if q else 5}\n MaxDim = {3 if q else 4}\n"
             "INVARIANTS Accepted Monotone Whole BurstAll Emit\n", "images")]

    def from_model(self, scns):
        flat = [s for s in scns if len(s["a"]["shape"]) == 2]
        rest = [s for s in scns if len(s["a"]["shape"]) == 3]
        out = []
        for g, n in ((flat, 160), (rest, 200)):
            g = sorted(g, key=repr)
            self.rng.shuffle(g)
            for s in g[:n if self.quick else n * 25]:
                out.append(dict(model=s, seed=self.rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        longs = [(1, 131001), (65501, 1), (2, 70000), (65500, 1), (1, 65500),
                 (66000, 4), (196501, 1), (3, 65501)]
        if not self.quick:
            longs += [(self.rng.randrange(1, 6), self.rng.randrange(65000,
                                                                    300000))
                      for _ in range(20)]
        return [dict(long=list(s), seed=0) for s in longs] + [
            dict(model={}, seed=self.rng.randrange(1 << 30))
            for _ in range(450 if self.quick else 9000)]

    def long(self, shape, d):
        ev = dict(how="long", h=shape[0], w=shape[1], pictures=[], error="",
                  kept=True)
        a = (np.arange(shape[0] * shape[1]) % 251).astype("u1").reshape(shape)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                browsify(a, d / "x")
            with Image.open(d / "x.jpg") as im:
                ev["pictures"] = [dict(h=im.size[1], w=im.size[0])]
        except Exception as ex:
            ev["error"] = f"{type(ex).__name__}: {ex}"[:150]
        return ev

    def options(self, rng, shape):
        clip = rng.choice(([], [], [], [0, 0], [0, 0], [1, 1], [5, 0], [0, 10],
                           [2, 2], [25, 40], [10, 10]))
        o = dict(clip=clip, one=rng.random() < 0.5, band=[], override=False,
                 axis=0, rgb=[],
                 color=rng.choice(([0, 255, 255], [0, 255, 255], [], [7],
                                   [200, 10, 30])))
        if len(shape) == 3:
            o["axis"] = rng.choice((0, 0, 0, 1, 2))
            n = shape[o["axis"]]
            o["band"] = rng.choice(
                ([], [-1], [-1], [0], [n - 1], [n], [n + 7],
                 [rng.randrange(n)]))
            o["override"] = rng.random() < 0.4
            if n >= 3 and rng.random() < 0.3:
                o["rgb"] = [rng.randrange(n) for _ in range(3)]
        return o

    def draw(self, scn):
        """the array, its type and the options"""
        rng = random.Random(scn["seed"])
        m = scn["model"]
        if m:
            a, o = dict(m["a"]), dict(m["o"])
            dt = rng.choice(SMALL[:1] + SMALL[2:] + WIDE + REAL)
            a["units"] = ((0, 250), 0, 1)
            a["exact"] = dt in REAL
            a["hidden"] = rng.choice((0, 255 if dt == "u1" else 9999, 0))
            return rng, a, o, dt
        dt = rng.choice(SMALL + SMALL + WIDE + REAL + REAL + ("?",))
        if rng.random() < 0.55:
            shape = [rng.choice((1, 2, 3, 7, 12, 30)),
                     rng.choice((1, 2, 5, 9, 25))]
            if rng.random() < 0.2:
                shape = [rng.choice((12, 20)), rng.choice((12, 18))]
        else:
            shape = [rng.choice((1, 2, 3, 3, 4, 4, 5, 7)), rng.randint(1, 7),
                     rng.randint(1, 7)]
        n = int(np.prod(shape))
        u = units(rng, dt)
        k = contents(rng, n, *u[0])
        st = [0] * n
        ma = rng.random() < 0.35
        if ma and rng.random() < 0.9:
            share = rng.choice((0.02, 0.2, 0.7, 1))
            st = [1 if rng.random() < share else 0 for _ in st]
        if dt in REAL and rng.random() < 0.35:
            share = rng.choice((0.02, 0.1, 0.6, 1))
            st = [2 if rng.random() < share else s for s in st]
        k = [0 if s else v for v, s in zip(k, st)]
        (lo, hi), base, step = u
        hidden = base + step * rng.choice((lo, hi, 0 if lo <= 0 else lo))
        a = dict(shape=shape, k=k, st=st, masked=ma, units=u, hidden=hidden,
                 exact=dt in REAL or step != 1)
        return rng, a, self.options(rng, shape), dt

    def execute(self, scn, d):
        if scn.get("long"):
            return [self.long(scn["long"], d)]
        rng, a, o, dt = self.draw(scn)
        how = rng.choice(("png", "png", "png", "purge", "purge", "jpg", "show",
                          "show"))
        kw = options(o)
        ev = dict(a={k: a[k] for k in ("shape", "k", "st", "masked",
                                       "exact")},
                  o={k: o[k] for k in ("clip", "color", "band", "override",
                                       "axis", "rgb")},
                  how=how, dt=dt, kept=True, pictures=[], error="")
        arr = build(rng, a, dt, a["masked"])
        if how == "show" and not a["masked"] and 2 not in a["st"] \
                and self.shown(ev, arr, kw, d):
            return [ev]
        if rng.random() < 0.3:      # not contiguous
            wide = arr.repeat(2, axis=-1)
            if a["masked"]:
                wide = np.ma.masked_array(wide)
            arr = wide[..., ::2]
        before = arr.copy()
        out = d / "out"
        out.mkdir()
        fmt = "jpg" if how == "jpg" else "png"
        if fmt == "png":
            kw["image_format"] = "png"
        if how == "purge":
            kw["purge"] = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                browsify(arr, out / "x_OBJ", **kw)
        except Exception as ex:
            ev["error"] = f"{type(ex).__name__}: {ex}"[:150]
            return [ev]
        if how != "purge":
            ev["kept"] = bool(
                np.array_equal(np.ma.getdata(arr), np.ma.getdata(before),
                               equal_nan=dt in REAL)
                and np.array_equal(np.ma.getmaskarray(arr),
                                   np.ma.getmaskarray(before))
                and arr.dtype == before.dtype)
        names = sorted(p.name for p in out.iterdir())
        want = [f"x_OBJ.{fmt}"]
        if names != want:
            want = [f"x_OBJ_{i}.{fmt}" for i in range(len(names))]
        if sorted(want) != names:
            ev["error"] = f"files {names}"[:150]
            return [ev]
        for n in want:
            with Image.open(out / n) as im:
                p = picture(im)
            if fmt == "jpg":
                p["data"] = []
            ev["pictures"].append(p)
        return [ev]

    def shown(self, ev, arr, kw, d):
        """through Data.show, of an image in a labelled product"""
        t = arr.dtype
        if t.kind == "b" or t.itemsize == 8 and t.kind != "f":
            return False
        kind = {"i": "INTEGER", "u": "UNSIGNED_INTEGER",
                "f": "REAL"}[t.kind]
        if t.byteorder == "<" or (t.byteorder == "=" and t.itemsize > 1):
            kind = "PC_REAL" if t.kind == "f" else "LSB_" + kind
        else:
            kind = "IEEE_REAL" if t.kind == "f" else "MSB_" + kind
        s = ev["a"]["shape"]
        items = [("LINES", s[-2]), ("LINE_SAMPLES", s[-1]),
                 ("SAMPLE_TYPE", kind), ("SAMPLE_BITS", 8 * t.itemsize)]
        if len(s) == 3:
            items += [("BANDS", s[0]),
                      ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL")]
            if s[0] == 1:       # read as a flat image
                return False
        (d / "x.img").write_bytes(arr.tobytes())
        (d / "x.lbl").write_text(
            "PDS_VERSION_ID = PDS3\r\nRECORD_TYPE = UNDEFINED\r\n"
            "^IMAGE = \"x.img\"\r\nOBJECT = IMAGE\r\n"
            + "".join(f" {k} = {v}\r\n" for k, v in items)
            + "END_OBJECT = IMAGE\r\nEND\r\n", newline="")
        ev["how"] = "show"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, _ = read(str(d / "x.lbl"))
            try:
                got = x.show("IMAGE", scaled=False, **kw)
            except Exception as ex:
                ev["error"] = f"{type(ex).__name__}: {ex}"[:150]
                return True
            ev["kept"] = bool(np.array_equal(x.IMAGE, arr))
        ev["pictures"] = [picture(i) for i in (
            got if isinstance(got, list) else [got])]
        return True

    def timeout_events(self, scn):
        return [dict(a={}, o={}, how="", kept=True, pictures=[], error="timeout")]

    def canary(self, evs, rng):
        e = evs[0]
        if e["error"] or not e["pictures"] or e["how"] == "long":
            return None
        p = e["pictures"][0]
        r = rng.random()
        if r < 0.2:
            e["kept"] = False
        elif r < 0.4:
            p["w"] += 1
        elif r < 0.5:
            e["pictures"].append(p)
        elif not p["data"] or e["o"]["clip"] != [0, 0] or len(
                set(e["a"]["k"])) < 2 or any(e["a"]["st"]):
            return None
        else:
            i = rng.randrange(len(p["data"]))
            p["data"][i] = (p["data"][i] + 128) % 256
        return evs
