"""C01 lazy loading, C02 independence, C03 degradation: lives of a product."""
from __future__ import annotations

import hashlib
import json
import os
import warnings

import numpy as np
import pandas as pd
from dustgoggles.tracker import TrivialTracker

import pdr

from . import pds3, project
from .core import Prop

BASE = {
    "image": ["IMAGE", "BROWSE_IMAGE", "RAW_IMAGE", "A_IMAGE", "IMAGE_B"],
    "table": ["TABLE", "TIME_SERIES", "SPECTRUM", "A_TABLE", "B_SERIES"],
    "header": ["HEADER", "IMAGE_HEADER", "A_HEADER"],
    "text": ["README_TEXT", "TEXT", "A_TEXT"],
    "desc": ["DATA_SET_DESC", "INSTRUMENT_DESC", "A_DESCRIPTION",
             "DESCRIPTION_12", "X_DESCRIPTION"],
    "unsup": ["FOO", "A_FOO", "HISTORY", "DATA_SET_MAP_PROJECTION"],
}
FAULTS = {
    "image": ["missing", "short", "badtype", "nokey", "garbage", "noblock",
              "empty", "badwidth"],
    "table": ["missing", "badtype", "nokey", "noblock", "nofmt", "nocols"],
    "header": ["missing", "nokey", "noblock"],
    "text": ["missing", "badutf", "pdf"],
    "desc": ["missing", "badutf"],
    "unsup": ["none"],
}


def flatten(m):
    """a metadata mapping as a list of [key, text]"""
    out = []
    for k, v in m.items():
        if hasattr(v, "items"):
            out.append([str(k), "{"])
            out += flatten(v)
            out.append([str(k), "}"])
        else:
            out.append([str(k), str(v)])
    return out


def flat_items(items):
    """the same for the label items the harness wrote"""
    out = []
    for it in items:
        if len(it) == 3:
            out.append([it[1], "{"])
            out += flat_items(it[2])
            out.append([it[1], "}"])
        else:
            v = it[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "raw":
                v = v[1].strip('"')
            out.append([it[0], str(v)])
    return out


def proj(v):
    if v is None:
        return {"kind": "none"}
    if isinstance(v, str):
        return {"kind": "codes", "codes": [ord(c) for c in v]}
    if isinstance(v, (np.ndarray, pd.DataFrame)):
        return project.value(v)
    if hasattr(v, "items") and hasattr(v, "getall"):
        return {"kind": "meta", "items": flatten(v)}
    return {"kind": "other", "type": type(v).__name__, "repr": str(v)[:80]}


class World:
    """builds the product in directory d"""

    def __init__(self, scn, d):
        self.scn, self.d = scn, d
        self.hidden = set()
        rng = self.rng = __import__("random").Random(scn["seed"])
        rb = self.rb = rng.choice((8, 16, 25))
        shared, objs, blocks, ptrs, self.own = b"", [], [], [], {}
        specs = []
        for o in scn["objs"]:
            kind, fault, name = o["kind"], o["fault"], o["name"]
            w = rng.choice((1, 1, 2)) if kind in ("image", "table") else 1
            if kind == "image":
                shape = [rng.randrange(1, 4), rng.randrange(1, 4)]
                data = rng.randbytes(shape[0] * shape[1] * w)
            elif kind == "table":
                shape = [rng.randrange(1, 5)]
                data = rng.randbytes(shape[0] * w)
            else:
                shape = []
                data = bytes(rng.choice(b"abcXYZ 019.") for _ in range(
                    rng.randrange(1, 20)))
            items = self.items(kind, fault, w, shape, data)
            with_block = items is not None
            place = "own" if (
                kind in ("text", "desc") or fault in (
                    "missing", "short", "empty", "pdf", "badutf")
                or rng.random() < 0.35
            ) else "shared"
            if scn.get("fits") and kind == "image" and fault == "none" \
                    and rng.random() < 0.6 and not any(
                        x["name"] == name + "_HEADER" for x in scn["objs"]):
                # (8-bit images: the others of FITS files are C22's business)
                w, place = 1, "fits"
                data = data[:shape[0] * shape[1]]
                items = self.items(kind, fault, w, shape, data)
            specs.append((o, w, shape, data, items, place))
        # lay out the shared file
        pos = 0
        if scn["attached"]:
            pos = None
        layout = []
        for ix, (o, w, shape, data, items, place) in enumerate(specs):
            if place == "shared":
                layout.append(ix)
        self.build(specs, layout)

    def items(self, kind, fault, w, shape, data):
        rng = self.rng
        if fault == "noblock":
            return None
        if kind == "image":
            it = [("LINES", shape[0]), ("LINE_SAMPLES", shape[1]),
                  ("SAMPLE_BITS", 8 * w),
                  ("SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER")]
            if fault == "badtype":
                it[3] = ("SAMPLE_TYPE", "NO_SUCH_TYPE")
            if fault == "badwidth":
                it[2] = ("SAMPLE_BITS", 24)
            if fault == "nokey":
                it.pop(rng.randrange(4))
            if fault == "garbage":
                it[rng.randrange(2)] = (it[0][0], "JUNK")
                if it[1][0] == "LINES":
                    it[0] = ("LINE_SAMPLES", shape[1])
            return it
        if kind == "table":
            col = [("NAME", "A"), ("DATA_TYPE", "MSB_UNSIGNED_INTEGER"),
                   ("START_BYTE", 1), ("BYTES", w)]
            if fault == "badtype":
                col[1] = ("DATA_TYPE", "NO_SUCH_TYPE")
            if fault == "nokey":
                col.pop(rng.choice((1, 3)))
            it = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", shape[0]),
                  ("ROW_BYTES", w), ("COLUMNS", 1)]
            if fault == "nofmt":
                return it + [("^STRUCTURE", pds3.q("nope.fmt"))]
            if fault == "nocols":
                return it
            return it + [("OBJECT", "COLUMN", col)]
        if kind == "header":
            if fault == "nokey":
                return [("HEADER_TYPE", "JUNK")]
            return [("BYTES", len(data)), ("HEADER_TYPE", "TEXT")]
        if rng.random() < 0.5:
            return [("NOTE", "SOMETHING"), ("PUBLICATION_DATE", "1999")]
        return None

    def build(self, specs, layout):
        rng, rb, d, scn = self.rng, self.rb, self.d, self.scn
        order = list(layout)
        rng.shuffle(order)
        gaps = {ix: rng.randrange(3) for ix in order}

        def compose(base):
            pos, where, blob = base, {}, b""
            for ix in order:
                pad = (-(len(blob)) % rb) + gaps[ix] * rb
                blob += rng_pad[:pad] if pad <= len(rng_pad) else b"z" * pad
                where[ix] = base + len(blob)
                blob += specs[ix][3]
            return where, blob

        rng_pad = bytes(rng.randrange(256) for _ in range(200))
        attached = scn["attached"] and bool(layout)
        stem = "prod"
        shared_name = stem + (".img" if not attached else ".img")

        def make_label(base):
            where, blob = compose(base)
            head = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", rb)]
            ptrs, blocks = [], []
            self.files, self.objs = {}, []
            for ix, (o, w, shape, data, items, place) in enumerate(specs):
                name, fault = o["name"], o["fault"]
                mode = o.get("mode", ix)
                if place == "fits":
                    fn = f"own{ix}.fits"
                    cards = [("SIMPLE", "T"), ("BITPIX", 8), ("NAXIS", 2),
                             ("NAXIS1", shape[1]), ("NAXIS2", shape[0])]
                    content = "".join(
                        f"{k:8}= {v:>20}".ljust(80) for k, v in cards
                    ) + "END".ljust(80)
                    self.own[name] = (fn, data)
                    self.files[fn] = content.ljust(2880).encode() + \
                        data.ljust(2880, b"\0")
                    ptr = pds3.raw(f'("{fn}", 2881 <BYTES>)')
                    # (headers of FITS objects come along with them)
                    self.hidden.add(name + "_HEADER")
                elif place == "own":
                    ext = {"text": ".txt", "desc": ".cat"}.get(
                        o["kind"], ".dat")
                    if fault == "pdf":
                        ext = ".pdf"
                    fn = f"own{ix}{ext}"
                    content = data
                    if fault == "short":
                        content = data[:-1] if len(data) > 1 else b""
                    if fault == "empty":
                        content = b""
                    if fault == "badutf":
                        content = b"\xff\xfe\x00" + data
                    self.own[name] = (fn, data)
                    if fault != "missing":
                        self.files[fn] = content
                    ptr = pds3.q(fn)
                else:
                    at = where[ix]
                    form = (ix + scn["seed"]) % 2
                    if attached:
                        ptr = (at // rb + 1) if form else pds3.raw(
                            f"{at + 1} <BYTES>")
                    else:
                        ptr = pds3.raw(
                            f'("{shared_name}", {at // rb + 1})' if form else
                            f'("{shared_name}", {at + 1} <BYTES>)')
                ptrs.append(("^" + name, ptr))
                if items is not None:
                    blocks.append(("OBJECT", name, items))
                self.objs.append(dict(
                    name=name, kind={"header": "text", "desc": "text"}.get(
                        o["kind"], o["kind"]),
                    w=w, shape=shape, bytes=list(data), fault=fault,
                    **{"def": flat_items(items or [])}, canon=False))
            if scn.get("interleave"):
                body = []
                done = set()
                for p in ptrs:
                    body.append(p)
                    for b in blocks:
                        if b[1] == p[0][1:]:
                            body.append(b)
            else:
                body = ptrs + blocks
            return pds3.label(head + body), blob

        if attached:
            # find a label length that is stable
            base = 0
            for _ in range(20):
                lab, blob = make_label(base)
                need = -(-len(lab) // rb) * rb
                if need == base:
                    break
                base = need
            text = lab
            self.files[shared_name] = lab.ljust(base, b" ") + blob
            self.entries = [shared_name]
        else:
            text, blob = make_label(0)
            if layout:
                self.files[shared_name] = blob
            self.files[stem + ".lbl"] = text
            self.entries = [stem + ".lbl"] + ([shared_name] if layout else [])
        self.label = text
        self.objs.insert(0, dict(
            name="LABEL", kind="text", w=1, shape=[],
            bytes=list(text),
            fault="none", **{"def": []}, canon=True))
        for fn, content in self.files.items():
            (d / fn).write_bytes(content)

    def state(self):
        h = hashlib.sha1()
        for p in sorted(os.listdir(self.d)):
            h.update(p.encode() + b"\0" + (self.d / p).read_bytes() + b"\1")
        return h.hexdigest()


class Life(Prop):
    module = "Trace_Product"
    chunk_min = 30
    faults = ("none",)
    kindsets = ()
    ops = ()
    debugs = "{FALSE}"
    nmodel = 1500
    fits = False             # whether images may live in FITS files

    def __init__(self, *a):
        super().__init__(*a)
        ks = ", ".join(
            "<<" + ", ".join(f'"{k}"' for k in t) + ">>"
            for t in self.kindsets)
        self.models = [("MC_Product", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n"
            " Kinds <- MKinds\n"
            f" Faults = {{{', '.join(chr(34) + f + chr(34) for f in self.mfaults)}}}\n"
            f" Debugs = {self.debugs}\n"
            f" Ops = {{{', '.join(chr(34) + f + chr(34) for f in self.ops)}}}\n"
            " MaxTok = 9\n"
            "INVARIANTS NoHarm OwnValue OnlyRaisersStay\n"
            "PROPERTIES FrameOK StableOK LoadPure\n"
        ).replace(" Kinds <- MKinds\n",
                  f" Kinds <- {self.kindop}\n"), "life", {"workers": 1})]

    def finish(self, o, rng, used):
        """model or random object -> concrete object"""
        k, f = o["k"], o["fault"]
        if k == "text" and rng.random() < 0.4:
            k = "header"
        name = o.get("name")
        if name is None or rng.random() < 0.6:
            name = rng.choice(BASE[k])
        elif k == "header":
            name = "A_HEADER"
        base, n = name, 2
        while name in used:
            name = f"{chr(64 + n)}_{base}"
            n += 1
        used.add(name)
        if f not in ("none", "missing"):
            f = rng.choice([x for x in FAULTS[k] if x != "missing"])
        if k == "unsup":
            f = "none"
        return dict(name=name, kind=k, fault=f)

    def from_model(self, scns):
        rng = self.rng
        scns = sorted(scns, key=lambda s: json.dumps(s, sort_keys=True))
        cap = self.nmodel if self.quick else self.nmodel * 12
        if len(scns) > cap:
            scns = rng.sample(scns, cap)
        out = []
        for s in scns:
            used = {"LABEL"}
            objs = [self.finish(o, rng, used) for o in s["objs"]]
            ops = [[op, i - 1] for op, i in s["hist"]]
            out.append(dict(
                objs=objs, debug=s["debug"], ops=ops + [["audit", -1]],
                seed=rng.randrange(1 << 30), attached=rng.random() < 0.3,
                fits=self.fits and rng.random() < 0.4,
                interleave=rng.random() < 0.3, via=rng.randrange(2)))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(250 if self.quick else 4000):
            used = {"LABEL"}
            n = rng.randrange(1, 7)
            objs = []
            for _ in range(n):
                k = rng.choice(self.rkinds)
                objs.append(self.finish(dict(
                    k=k, fault=rng.choice(self.rfaults)), rng, used))
            ops = []
            for _ in range(rng.randrange(3, 26)):
                op = rng.choice(self.ops)
                i = -1 if op in ("all", "iter", "noitem", "noattr",
                                 "noload") else rng.choice(
                    [-2] + list(range(n)) * 3)
                ops.append([op, i])
                if rng.random() < 0.15:
                    ops.append(["audit", -1])
            out.append(dict(
                objs=objs, debug=rng.random() < 0.3 and "TRUE" in self.debugs,
                ops=ops + [["audit", -1]], seed=rng.randrange(1 << 30),
                attached=rng.random() < 0.3,
                fits=self.fits and rng.random() < 0.4, interleave=rng.random() < 0.3,
                via=rng.randrange(2)))
        return out

    def execute(self, scn, d):
        w = World(scn, d)
        cfg = dict(objs=w.objs, debug=scn["debug"])
        names = [o["name"] for o in w.objs]
        by = {o["name"]: o for o in w.objs}
        entry = w.entries[scn["via"] % len(w.entries)]
        kw = dict(debug=True, tracker=TrivialTracker()) if scn["debug"] else {}
        keep, ids = [], {}

        def tok(v):
            if id(v) not in ids:
                keep.append(v)
                ids[id(v)] = len(keep)
            return ids[id(v)]

        events = []
        before = w.state()
        data = None

        def listing(ev):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                un = list(data.unloaded())
                keys = [n for n in data.keys() if n not in w.hidden]
                ev["index"] = keys
                ev["unloaded"] = un
                ev["len"] = len(data) - len(w.hidden & set(data.keys()))
                ev["has"] = [n in data for n in names]
                ev["hasno"] = "NO_SUCH" in data
                ev["toks"] = {n: tok(data[n]) for n in keys if n not in un}
                ev["files"] = w.state() == before
            return ev

        def start():
            nonlocal data
            data = pdr.read(str(d / entry), **kw)

        def warned(f):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                r = project.observe(f, lambda x: x)
            return r, any(x.category is UserWarning for x in ws)

        r, _ = warned(start)
        if isinstance(r, dict) and r.get("kind") == "exc":
            return [dict(op="open", cfg=cfg, obs=r)]
        ev = dict(op="open", cfg=cfg, obs={"kind": "none"})
        events.append(listing(ev))
        for op, i in scn["ops"]:
            # -2: the label itself
            n = None if i == -1 else names[0] if i == -2 else scn[
                "objs"][i]["name"]
            held = [x for x in names if x not in data.unloaded()]
            ev = dict(op=op, n=n or "")
            raw = {}

            def act():
                if op == "item":
                    raw["v"] = data[n]
                elif op == "attr":
                    raw["v"] = getattr(data, n)
                elif op == "load":
                    return data.load(n)
                elif op == "reload":
                    return data.load(n, reload=True)
                elif op == "del":
                    delattr(data, n)
                    return None
                elif op == "scaled":
                    raw["v"] = data.get_scaled(n)
                elif op == "all":
                    return data.load("all")
                elif op == "iter":
                    raw["l"] = [tok(v) for v in data
                                if not any(v is data.__dict__.get(h)
                                           for h in w.hidden)]
                elif op == "noitem":
                    return data["NO_SUCH"]
                elif op == "noattr":
                    return data.NO_SUCH
                elif op == "noload":
                    return data.load("NO_SUCH")
                elif op == "fresh":
                    other = pdr.read(str(d / w.entries[
                        (scn["via"] + 1) % len(w.entries)]), **kw)
                    raw["v"] = other[n]
                elif op == "mutate":
                    v = data[n]
                    if isinstance(v, np.ndarray):
                        v.view("u1")[...] = 85
                    else:
                        v.iloc[:, 0] = np.array(
                            [85 if v.dtypes.iloc[0].itemsize == 1 else
                             85 * 257] * len(v)).astype(v.dtypes.iloc[0])
                return None

            if op == "mutate":
                if n not in held or by[n]["kind"] not in ("image", "table"):
                    continue
                v = data[n]
                if not isinstance(v, (np.ndarray, pd.DataFrame)):
                    continue
            if op == "repair":
                o = by[n]
                if o["fault"] != "missing" or n not in w.own:
                    continue
                fn, content = w.own[n]
                (d / fn).write_bytes(content)
                before = w.state()
                o["fault"] = "none"
                ev["op"], ev["fault"] = "world", "none"
                ev["obs"], ev["warned"] = {"kind": "none"}, False
                events.append(listing(ev))
                continue
            if op == "audit":
                ev["obs"], ev["warned"] = {"kind": "none"}, False
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ev["held"] = {x: proj(data[x]) for x in held}
                events.append(listing(ev))
                continue
            r, ev["warned"] = warned(act)
            if isinstance(r, dict) and r.get("kind") == "exc":
                ev["obs"] = r
            elif "l" in raw:
                ev["obs"] = {"kind": "toks", "toks": raw["l"]}
            elif "v" in raw:
                ev["obs"] = proj(raw["v"])
                if op == "scaled":
                    ev["obs"] = project.observe(
                        lambda: {"kind": project.value(raw["v"])["kind"]},
                        lambda x: x)
                ev["ret"] = tok(raw["v"])
            else:
                ev["obs"] = {"kind": "none"} if r is None else proj(r)
            events.append(listing(ev))
        # the trace's first event carries the product as it was at the start
        first = json.loads(json.dumps(cfg))
        for o, s in zip(first["objs"][1:], scn["objs"]):
            o["fault"] = s["fault"]
        events[0]["cfg"] = first
        return events

    def timeout_events(self, scn):
        return [dict(op="open", obs={"kind": "timeout"},
                     cfg=dict(objs=[], debug=False))]

    def canary(self, evs, rng):
        if len(evs) < 3:
            return None
        k = rng.randrange(1, len(evs))
        e = evs[k]
        what = rng.choice(("unloaded", "index", "value", "tok", "files"))
        if what == "unloaded":
            e["unloaded"] = e["unloaded"][1:] if e["unloaded"] else ["X"]
        elif what == "index":
            e["index"] = e["index"][::-1]
            if len(e["index"]) < 2:
                return None
        elif what == "files":
            e["files"] = False
        elif what == "tok":
            held = [n for n in e["toks"] if n in evs[k - 1].get("toks", {})]
            if not held or e["op"] in ("reload", "del") or e["obs"].get(
                    "kind") == "exc":
                return None
            e["toks"][held[0]] += 1000
        else:
            for e in reversed(evs):
                for v in e.get("held", {}).values():
                    if v.get("data"):
                        v["data"][0][0] ^= 1
                        return evs
                    if v.get("codes"):
                        v["codes"][0] ^= 1
                        return evs
            return None
        return evs

    def nontrivial(self, evs):
        return any(e["op"] in ("item", "attr", "load", "all", "iter")
                   for e in evs)


class Lazy(Life):
    id = "C01"
    mfaults = ("none",)
    rfaults = ("none",) * 6 + ("missing", "bad")
    kindop = "KindsLazy"
    debugs = "{TRUE, FALSE}"
    ops = ("item", "attr", "load", "reload", "del", "all", "iter", "noitem",
           "noattr", "noload", "scaled")
    rkinds = ("image", "table", "text", "desc", "image", "table", "unsup")
    nmodel = 900


class Independent(Life):
    id = "C02"
    mfaults = ("none",)
    rfaults = ("none",)
    kindop = "KindsPure"
    fits = True
    ops = ("item", "attr", "reload", "mutate", "fresh", "scaled", "all", "del")
    rkinds = ("image", "table", "image", "table", "text", "desc")
    nmodel = 900


class Degrade(Life):
    id = "C03"
    mfaults = ("none", "missing", "bad")
    rfaults = ("none", "none", "missing", "bad", "bad")
    kindop = "KindsFaulty"
    debugs = "{TRUE, FALSE}"
    ops = ("item", "attr", "load", "reload", "all", "iter", "repair",
           "scaled")
    rkinds = ("image", "table", "text", "image", "table", "unsup", "desc")
    nmodel = 1100
