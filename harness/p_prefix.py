"""C33 tables stored in the line prefixes of images."""
from __future__ import annotations

import random
import warnings

import numpy as np
import pandas as pd

from . import pds3
from .core import Prop
from .p_files import name as file_name, read, get

COLS = ["ALPHA", "B", "TIME TAG", "GAIN_1", "X2", "MODE", "NOTE", "LAST"]
DIRS = ("here", "search", "label", "LABEL")


class C33(Prop):
    id = "C33"
    module = "Trace_Prefix"
    chunk_min = 60
    assumptions = (
        "images of 8-bit samples; at most one structure for each image; "
        "pointers to prefixes without definitions of their own",)
    level_note = (
        "TLC explores images with prefixes, suffixes and structures beside "
        "pointers to their or other places, against a writer that knows no "
        "row length; each is replayed with seeded columns, bands, files and "
        "places of the structure files")

    def __init__(self, *a):
        super().__init__(*a)
        inv = "INVARIANTS Placed Reachable Made1 Emit\n"
        head = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        if self.quick:
            sizes = ((1, 3, 2), (2, 1, 1))
        else:
            sizes = ((1, 4, 2), (2, 1, 2), (2, 2, 1))
        self.models = [("MC_Prefix", (
            f"{head} MaxImages = {i}\n MaxLines = {n}\n MaxPointers = {p}\n"
            f"{inv}"), f"i{i}l{n}p{p}") for i, n, p in sizes]

    def from_model(self, scns):
        scns = sorted(scns, key=str)
        n = 700 if self.quick else 6000
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [dict(c=s, seed=self.rng.randrange(1 << 30)) for s in scns]

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(300 if self.quick else 4000):
            images, at = [], [rng.choice((0, 0, 7, 40)) for _ in range(2)]
            names = rng.sample(["IMAGE", "B_IMAGE", "IMAGE_C", "IMAGE_BLUE",
                                "BROWSE_IMAGE"], rng.randrange(1, 4))
            if rng.random() < .15:
                names = ["IMAGE_0", "IMAGE_1"] + names[:0]
            for n in names:
                f = rng.choice((1, 1, 2))
                g = dict(name=n, file=f, start=at[f - 1],
                         lines=rng.randrange(1, 7),
                         pre=rng.choice((1, 2, 4, 9, 16, 24)),
                         suf=rng.choice((0, 0, 1, 3)), bands=1,
                         samples=rng.randrange(1, 9),
                         ref=rng.choice(("ref", "ref", "ref", "none",
                                         "empty")))
                if rng.random() < .25:
                    g["bands"] = rng.choice((2, 3))
                g["line"] = g["bands"] * g["samples"]
                images.append(g)
                at[f - 1] += g["lines"] * (g["pre"] + g["line"] + g["suf"]) \
                    + rng.choice((0, 0, 5))
            listed = [g["name"] for g in images]
            pointers = []
            for n in rng.sample(["LINE_PREFIX_TABLE", "A_LINE_PREFIX_TABLE",
                                 "LINE_PREFIX_TABLE_B"],
                                rng.choice((0, 0, 1, 1, 2))):
                g = rng.choice(images)
                p = dict(name=n, file=g["file"], start=g["start"])
                r = rng.random()
                if r < .25:
                    p["file"] = 3 - p["file"]
                elif r < .4:
                    p["start"] += rng.choice((1, 5, g["pre"]))
                pointers.append(p)
                listed.insert(rng.randrange(len(listed) + 1), n)
            out.append(dict(c=dict(images=images, pointers=pointers,
                                   listed=listed),
                            seed=rng.randrange(1 << 30)))
        return out

    # ---- what the structure files say
    @staticmethod
    def structure(rng, width, taken, offset=0):
        """columns in disjoint parts of `width` bytes"""
        items, at = [], offset
        while at < width + offset and len(items) < 5:
            at += rng.choice((0, 0, 1, 2))
            left = width + offset - at
            if left < 1:
                break
            t = rng.choice(("msb", "lsb", "msb", "lsb", "text"))
            n = rng.choice((1, 2)) if t != "text" else rng.randrange(1, 5)
            n = min(n, left)
            free = [x for x in COLS if x not in taken]
            if not free:
                break
            nm = rng.choice(free)
            taken.add(nm)
            items.append(dict(kind="col", name=nm, type=t, at=at, n=n, to=0))
            at += n
        return items

    @staticmethod
    def column(rng, c):
        dt = {"msb": ("MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER"),
              "lsb": ("LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER"),
              "text": ("CHARACTER",)}[c["type"]]
        body = [("NAME", pds3.q(c["name"])), ("DATA_TYPE", rng.choice(dt)),
                ("START_BYTE", c["at"] + 1), ("BYTES", c["n"])]
        if rng.random() < .3:
            rng.shuffle(body)
        return ("OBJECT", "COLUMN", body)

    def write_structure(self, rng, items, names, img, wrap):
        body = []
        for it in items:
            if it["kind"] == "col":
                body.append(self.column(rng, it))
            else:
                body.append(("^STRUCTURE", pds3.q(names[it["to"] - 1])))
        row = []
        if wrap != "bare":
            row = [("ROW_BYTES", img["pre"])]
            if rng.random() < .5:
                row = [("INTERCHANGE_FORMAT", "BINARY"),
                       ("ROWS", img["lines"]),
                       ("COLUMNS", len(body))] + row + [
                    ("ROW_SUFFIX_BYTES", img["line"] + img["suf"])]
        if wrap == "table":
            out = [("OBJECT", "LINE_PREFIX_TABLE", row + body)]
        else:
            out = row + body
        return pds3.label(out, version=False)

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        c = dict(scn["c"])
        images = [dict(g) for g in c["images"]]
        c["images"] = images
        dup = [g["name"] for g in images] == ["IMAGE_0", "IMAGE_1"]
        for g in images:
            if "bands" not in g:
                g.update(bands=1, samples=g["line"])
            g["part"] = "core"
            g["fmt"] = 0
        # the files: random bytes, letters where there is text
        size = 60 + max(g["start"] + g["lines"] * (
            g["pre"] + g["line"] + g["suf"]) for g in images)
        files = [[rng.randrange(256) for _ in range(size)] for _ in range(2)]
        wants, fmts, kinds = [], [], []
        dirs = {k: {} for k in DIRS}
        for i, g in enumerate(images):
            if g["ref"] != "ref":
                if not dup and len(images) > 1 and rng.random() < .15 and \
                        g["bands"] == 1 and g["ref"] == "none":
                    side = rng.choice(("prefix", "suffix"))
                    if side == "prefix" or g["suf"]:
                        # the samples before or after the lines' own
                        new = f"{g['name']}_{side.upper()}"
                        c["listed"] = [new if x == g["name"] else x
                                       for x in c["listed"]]
                        g["name"], g["part"] = new, side
                continue
            # P refers to at most one other
            base = rng.choice(("prefix", "PREFIX", "Line_Prefix")) + str(i)
            base += rng.choice((".fmt", ".FMT"))
            wants.append(base)
            g["fmt"] = k = len(wants)
            nested = rng.random() < .3
            inner = ""
            if nested:
                inner = f"in{i}.fmt"
                wants.append(inner)
            where = rng.choice(("here", "here", "here", "search", "label",
                                "LABEL"))
            spots = [where]
            if rng.random() < .4:
                spots.append(rng.choice(DIRS))
            for n, spot in enumerate(dict.fromkeys(spots)):
                taken = set()
                half = g["pre"] // 2 if nested else 0
                items = self.structure(rng, g["pre"] - half, taken)
                sub = self.structure(rng, half, taken, g["pre"] - half) \
                    if nested else []
                if not items and not sub:
                    taken = set()
                    items = [dict(kind="col", name="ALPHA", type="msb", at=0,
                                  n=1, to=0)]
                if nested and not sub:
                    sub = [dict(kind="col", name="LAST", type="msb",
                                at=g["pre"] - 1, n=1, to=0)]
                    items = [x for x in items if x["name"] != "LAST"
                             and x["at"] + x["n"] < g["pre"]]
                if nested:
                    ref = dict(kind="ref", name="", type="", at=0, n=0,
                               to=k + 1)
                    items = items + [ref]
                wrap = rng.choice(("bare", "rows", "table"))
                for w, its, deep in ((base, items, False), (inner, sub, True)):
                    if w == "":
                        continue
                    m = f"f{len(fmts) + 1}"
                    fn = w if rng.random() < .6 else rng.choice(
                        (w.upper(), w.lower()))
                    dirs[spot][fn] = m
                    fmts.append(dict(m=m, items=its, w=w, deep=deep, img=i,
                                     wrap=wrap, spot=spot, fn=fn))
        # letters where any structure puts text, in every row
        for f in fmts:
            for it in f["items"]:
                g = images[f["img"]]
                if it["type"] != "text":
                    continue
                for r in range(g["lines"]):
                    at = g["start"] + r * (g["pre"] + g["line"] + g["suf"]) \
                        + it["at"]
                    files[g["file"] - 1][at:at + it["n"]] = [
                        rng.randrange(65, 91) for _ in range(it["n"])]
        # directories
        root = d / "vol"
        used = {f["spot"] for f in fmts}
        here = root / "DATA" / "orbit" if rng.random() < .5 or used & {
            "label", "LABEL"} else d / "plain"
        paths = dict(here=here, search=d / "extra", label=root / "label",
                     LABEL=root / "LABEL")
        for p in paths.values():
            p.mkdir(parents=True, exist_ok=True)
        for f in fmts:
            (paths[f["spot"]] / f["fn"]).write_bytes(self.write_structure(
                rng, f["items"], wants, images[f["img"]],
                "bare" if f["deep"] else f["wrap"]))
        searched = ["here", "search"]
        if here != d / "plain":
            searched += ["label", "LABEL"]
        # the label
        names = ["a.img", "b.img"]
        ptrs, shown = [], list(c["listed"])
        entries = {g["name"]: g for g in images} | {
            p["name"]: p for p in c["pointers"]}

        def loc(e):
            if e["start"] == 0 and rng.random() < .3:
                return pds3.q(names[e["file"] - 1])
            at = e["start"] + 1
            return pds3.raw(f'("{names[e["file"] - 1]}", ' + (
                f"{at} <BYTES>)" if rng.random() < .6 else f"{at})"))

        for n in shown:
            ptrs.append(("^" + ("IMAGE" if dup and n.startswith("IMAGE")
                                else n), loc(entries[n])))
        blocks = []
        for n in shown:
            if n not in [g["name"] for g in images]:
                continue
            g = entries[n]
            b = [("LINES", g["lines"]), ("LINE_SAMPLES", g["samples"]),
                 ("SAMPLE_BITS", 8), ("SAMPLE_TYPE", "UNSIGNED_INTEGER"),
                 ("LINE_PREFIX_BYTES", g["pre"])]
            if g["suf"] or rng.random() < .3:
                b.append(("LINE_SUFFIX_BYTES", g["suf"]))
            if g["bands"] > 1:
                b += [("BANDS", g["bands"]),
                      ("BAND_STORAGE_TYPE", "LINE_INTERLEAVED")]
            if g["ref"] != "none":
                b.append(("^LINE_PREFIX_STRUCTURE", pds3.q(
                    wants[g["fmt"] - 1] if g["ref"] == "ref" else "")))
            if rng.random() < .4:
                rng.shuffle(b)
            blocks.append(("OBJECT", "IMAGE" if dup else n, b))
        (here / "a.lbl").write_bytes(pds3.label(
            [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 1)]
            + ptrs + blocks))
        for n, f in zip(names, files):
            (here / n).write_bytes(bytes(f))
        c["listed"] = ["LABEL"] + c["listed"]
        for g in images:
            g.setdefault("part", "core")
        e = dict(op="case", c=c, files=files,
                 dirs=[[dict(file_name(x), m=m) for x, m in dirs[s].items()]
                       for s in searched],
                 wants=[file_name(w) for w in wants],
                 fmts=[dict(m=f["m"], items=f["items"]) for f in fmts])
        kw = {}
        if "search" in used or rng.random() < .3:
            kw["search_paths"] = [str(paths["search"])]
        try:
            data, _ = read(str(here / "a.lbl"), **kw)
        except Exception as ex:
            e["obs"] = dict(kind="no-product:" + type(ex).__name__)
            return [e]
        keys = list(data.keys())
        order = [k for k in keys if k != "LABEL"]
        rng.shuffle(order)
        objects = []
        bare = {p["name"] for p in c["pointers"]}
        for k in order:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    v = data[k]
            except Exception as ex:
                if k in bare:  # perhaps not described anywhere
                    objects.append(dict(name=k, kind="other"))
                    continue
                raise
            objects.append(dict(self.seen(v), name=k))
        e["obs"] = dict(kind="product", keys=keys, objects=objects)
        return [e]

    @staticmethod
    def seen(v):
        if isinstance(v, np.ndarray):
            return dict(kind="array", shape=list(v.shape),
                        values=[int(x) for x in v.ravel()])
        if isinstance(v, pd.DataFrame):
            vals = []
            for i in range(len(v.columns)):
                col = v.iloc[:, i].tolist()
                vals.append([[ord(ch) for ch in x] if isinstance(x, str)
                             else list(x) if isinstance(x, bytes)
                             else int(x) for x in col])
            return dict(kind="table", names=[str(x) for x in v.columns],
                        values=vals)
        return dict(kind="other")

    def canary(self, evs, rng):
        e = evs[0]
        if e["obs"]["kind"] != "product":
            return None
        o = [x for x in e["obs"]["objects"] if x["kind"] == "table"]
        how = rng.choice(("keys", "table", "table", "image"))
        if how == "table" and o:
            t = rng.choice(o)
            col = rng.choice(t["values"])
            i = rng.randrange(len(col))
            col[i] = col[i] + 1 if isinstance(col[i], int) else \
                [col[i][0] ^ 1] + col[i][1:]
            used = self.used_tables(e["c"])
            return evs if t["name"] in used else None
        if how == "image":
            a = [x for x in e["obs"]["objects"] if x["kind"] == "array"
                 and x["values"]]
            if not a:
                return None
            x = rng.choice(a)
            i = rng.randrange(len(x["values"]))
            x["values"][i] ^= 1
            return evs
        e["obs"]["keys"] = e["obs"]["keys"][:-1]
        return evs

    @staticmethod
    def used_tables(c):
        out = {g["name"] + "_LINE_PREFIX_TABLE" for g in c["images"]}
        for p in c["pointers"]:
            if any(g["ref"] == "ref" and (g["file"], g["start"]) == (
                    p["file"], p["start"]) for g in c["images"]):
                out.add(p["name"])
        return out
